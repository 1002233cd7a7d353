// C08: number elements against their bounds, through the public interface and through stored XML text.
#include "common.h"
#include "image.h"
#include "E57Format.h"
#include <memory>

using namespace nat;
using namespace e57;

static std::unique_ptr<ImageFile> IMF;

// 0 created, else the error code
template <class F> static int attempt( const F &f )
{
   try
   {
      f();
      return 0;
   }
   catch ( E57Exception &e )
   {
      return (int)e.errorCode();
   }
}

static bool same( double a, double b ) { return memcmp( &a, &b, 8 ) == 0 || ( std::isnan( a ) && std::isnan( b ) ); }

static void bounds( Rng &r, int64_t &v, int64_t &lo, int64_t &hi )
{
   lo = r.chance( 15 ) ? INT64_MIN : r.edgy();
   hi = r.chance( 15 ) ? INT64_MAX : r.edgy();
   if ( lo > hi && r.chance( 85 ) ) std::swap( lo, hi );
   switch ( r.below( 5 ) )
   {
      case 0: v = r.edgy(); break;
      case 1: v = (int64_t)( (uint64_t)lo + (uint64_t)r.range( -1, 1 ) ); break;
      case 2: v = (int64_t)( (uint64_t)hi + (uint64_t)r.range( -1, 1 ) ); break;
      case 3: v = hi >= lo ? (int64_t)( (uint64_t)lo + r.below( (uint64_t)hi - (uint64_t)lo ) ) : r.edgy(); break;
      default: v = r.range( -1, 1 ); break;
   }
}

static void integer( Rng &r )
{
   int64_t v, lo, hi;
   bounds( r, v, lo, hi );
   note( str( "IntegerNode", v, "in", lo, hi ) );
   bool ok = lo <= v && v <= hi;
   int c = attempt( [&] {
      IntegerNode n( *IMF, v, lo, hi );
      check( n.value() == v && n.minimum() == lo && n.maximum() == hi, str( "reads back", n.value(), n.minimum(), n.maximum() ) );
      Node g( n );
      IntegerNode m( g );
      check( m.value() == v && m.minimum() == lo && m.maximum() == hi, "reads back through a generic handle" );
   } );
   check( c == ( ok ? 0 : (int)ErrorValueOutOfBounds ), str( "outcome", c, "expected", ok ? "created" : "out of bounds" ) );
}

static double scaleOf( Rng &r ) { return r.chance( 10 ) ? r.edgyReal() : r.pick<double>( { 1, 0.001, 0.1, 0.5, 2, -1, 1e-6, 1e10, 3.7, 1000 } ); }
static double offsetOf( Rng &r ) { return r.chance( 10 ) ? r.edgyReal() : r.pick<double>( { 0, 0, 1, -0.5, 100.25, -1e6, 1e-9, 0.5 } ); }

static void scaled( Rng &r )
{
   int64_t v, lo, hi;
   bounds( r, v, lo, hi );
   double scale = scaleOf( r ), offset = offsetOf( r );
   int which = (int)r.below( 3 );
   if ( which >= 1 ) v = (int)v;
   if ( which == 2 ) { lo = (int)lo; hi = (int)hi; }
   note( str( "ScaledIntegerNode", which, v, "in", lo, hi, "scale", scale, offset ) );
   bool ok = lo <= v && v <= hi;
   auto sc = [&]( int64_t x ) { volatile double d = (double)x; d = d * scale; d = d + offset; return (double)d; };
   int c = attempt( [&] {
      ScaledIntegerNode n = which == 0   ? ScaledIntegerNode( *IMF, v, lo, hi, scale, offset )
                            : which == 1 ? ScaledIntegerNode( *IMF, (int)v, lo, hi, scale, offset )
                                         : ScaledIntegerNode( *IMF, (int)v, (int)lo, (int)hi, scale, offset );
      check( n.rawValue() == v && n.minimum() == lo && n.maximum() == hi, str( "reads back", n.rawValue(), n.minimum(), n.maximum() ) );
      check( same( n.scale(), scale ) && same( n.offset(), offset ), "scale and offset read back" );
      check( same( n.scaledValue(), sc( v ) ) && same( n.scaledMinimum(), sc( lo ) ) && same( n.scaledMaximum(), sc( hi ) ), "scaled accessors" );
   } );
   check( c == ( ok ? 0 : (int)ErrorValueOutOfBounds ), str( "outcome", c, "expected", ok ? "created" : "out of bounds" ) );
}

static void scaledReal( Rng &r )
{
   double scale = scaleOf( r ), offset = offsetOf( r ), x[3];
   int64_t raw[3];
   bool fits = true;
   int64_t i[3];
   bounds( r, i[0], i[1], i[2] );
   for ( int k = 0; k < 3; ++k )
   {
      x[k] = r.chance( 25 ) ? r.edgyReal() : (double)i[k] * scale + offset;
      if ( r.chance( 30 ) ) x[k] += scale * r.pick<double>( { 0.25, 0.5, -0.5, -0.49, 0.75 } );
      volatile double d = x[k];
      d = d - offset;
      d = d / scale;
      d = d + 0.5;
      d = std::floor( d );
      bool f = d >= -9223372036854775808.0 && d < 9223372036854775808.0;
      fits = fits && f;
      raw[k] = f ? (int64_t)d : 0;
   }
   note( str( "ScaledIntegerNode real", x[0], "in", x[1], x[2], "scale", scale, offset ) );
   bool ok = fits && raw[1] <= raw[0] && raw[0] <= raw[2];
   int c = attempt( [&] {
      ScaledIntegerNode n( *IMF, x[0], x[1], x[2], scale, offset );
      check( ok, str( "created with raw value", n.rawValue(), "in", n.minimum(), n.maximum() ) );
      check( n.rawValue() == raw[0] && n.minimum() == raw[1] && n.maximum() == raw[2], str( "raw numbers", n.rawValue(), n.minimum(), n.maximum() ) );
      check( same( n.scale(), scale ) && same( n.offset(), offset ), "scale and offset read back" );
   } );
   check( c == ( ok ? 0 : (int)ErrorValueOutOfBounds ), str( "outcome", c, "expected", ok ? "created" : "out of bounds" ) );
}

static const double FM = 3.4028234663852886e38;

static void realCase( Rng &r )
{
   bool single = r.chance( 60 );
   double lo = r.chance( 25 ) ? DOUBLE_MIN : r.edgyReal(), hi = r.chance( 25 ) ? DOUBLE_MAX : r.edgyReal(), v = r.edgyReal();
   if ( lo > hi && r.chance( 85 ) ) std::swap( lo, hi );
   switch ( r.below( 7 ) )
   {
      case 0: v = lo; break;
      case 1: v = hi; break;
      case 2: v = std::nextafter( lo, r.chance( 50 ) ? HUGE_VAL : -HUGE_VAL ); break;
      case 3: v = std::nextafter( hi, r.chance( 50 ) ? HUGE_VAL : -HUGE_VAL ); break;
      case 4: v = r.pick<double>( { FM, -FM, std::nextafter( FM, HUGE_VAL ), -std::nextafter( FM, HUGE_VAL ), 1e39, -1e39, std::nextafter( FM, 0 ) } ); break;
      default: break;
   }
   double wlo = single && lo < -FM ? -FM : lo, whi = single && hi > FM ? FM : hi;
   bool ok = !( v < wlo || v > whi );
   note( str( "FloatNode", single ? "single" : "double", v, "in", lo, hi ) );
   int c = attempt( [&] {
      FloatNode n( *IMF, v, single ? PrecisionSingle : PrecisionDouble, lo, hi );
      check( ok, "created" );
      check( same( n.value(), v ) && same( n.minimum(), wlo ) && same( n.maximum(), whi ), str( "reads back", n.value(), n.minimum(), n.maximum() ) );
      check( n.precision() == ( single ? PrecisionSingle : PrecisionDouble ), "precision" );
   } );
   check( c == ( ok ? 0 : (int)ErrorValueOutOfBounds ), str( "outcome", c, "expected", ok ? "created" : "out of bounds" ) );
}

// a stored element whose explicit value is outside its bounds makes opening the file fail
static std::string BASE;
static void stored( Rng &r )
{
   int64_t v, lo, hi;
   bounds( r, v, lo, hi );
   int kind = (int)r.below( 3 );
   std::string e;
   bool ok = lo <= v && v <= hi;
   double dv = 0, dlo = 0, dhi = 0;
   auto num = []( double d ) { char b[64]; snprintf( b, sizeof b, "%.17g", d ); return std::string( b ); };
   if ( kind < 2 )
      e = std::string( "<a type=\"" ) + ( kind == 0 ? "Integer" : "ScaledInteger" ) + "\" minimum=\"" + std::to_string( lo ) + "\" maximum=\"" + std::to_string( hi ) + "\"" +
          ( kind == 1 ? " scale=\"0.5\" offset=\"3\"" : "" ) + ">" + std::to_string( v ) + "</a>";
   else
   {
      dlo = (double)r.range( -1000, 1000 ) / 8;
      dhi = dlo + (double)r.range( -2, 900 ) / 8;
      dv = r.pick<double>( { dlo, dhi, dlo - 0.125, dhi + 0.125, 0.0, ( dlo + dhi ) / 2 } );
      ok = dlo <= dv && dv <= dhi;
      e = std::string( "<a type=\"Float\"" ) + ( r.chance( 50 ) ? " precision=\"single\"" : "" ) + " minimum=\"" + num( dlo ) + "\" maximum=\"" + num( dhi ) + "\">" + num( dv ) + "</a>";
   }
   note( "stored " + e );
   std::string text = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<e57Root type=\"Structure\" xmlns=\"http://www.astm.org/COMMIT/E57/2010-e57-v1.0\">" + e + "</e57Root>";
   std::string path = scratch + "/s.e57";
   write_file( path, img::withXml( BASE, text ) );
   int c = attempt( [&] {
      ImageFile f( path, "r" );
      StructureNode root = f.root();
      if ( kind == 0 )
      {
         IntegerNode n( root.get( "a" ) );
         check( n.value() == v && n.minimum() == lo && n.maximum() == hi, "stored integer reads back" );
      }
      else if ( kind == 1 )
      {
         ScaledIntegerNode n( root.get( "a" ) );
         check( n.rawValue() == v && n.minimum() == lo && n.maximum() == hi && n.scale() == 0.5 && n.offset() == 3, "stored scaled integer reads back" );
      }
      else
      {
         FloatNode n( root.get( "a" ) );
         check( n.value() == dv && n.minimum() == dlo && n.maximum() == dhi, "stored float reads back" );
      }
      f.close();
   } );
   check( c == ( ok ? 0 : (int)ErrorValueOutOfBounds ), str( "outcome", c, "expected", ok ? "opened" : "out of bounds" ) );
}

static void one( Rng &r )
{
   if ( !IMF )
   {
      IMF.reset( new ImageFile( scratch + "/w.e57", "w" ) );
      ImageFile b( scratch + "/b.e57", "w" );
      b.close();
      BASE = img::logical( read_file( scratch + "/b.e57" ) );
   }
   switch ( r.below( 9 ) )
   {
      case 0: case 1: integer( r ); break;
      case 2: case 3: scaled( r ); break;
      case 4: case 5: scaledReal( r ); break;
      case 6: case 7: realCase( r ); break;
      default: stored( r ); break;
   }
}

int main( int argc, char **argv )
{
   int rc = run( argc, argv, one );
   if ( IMF ) IMF->cancel();
   IMF.reset();
   return rc;
}
