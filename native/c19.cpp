// C19: everything a saved file says in text (element values, limits, scales, counts, namespaces) reads back as the same value, also under a global locale that groups digits.
#include "common.h"
#include "CheckedFile.h"
#include "E57Format.h"
#include "StringFunctions.h"
#include <locale>
#include <memory>
using namespace e57;
using namespace nat;

struct Grouping : std::numpunct<char>
{
   char do_thousands_sep() const override { return ','; }
   std::string do_grouping() const override { return "\3"; }
   char do_decimal_point() const override { return ';'; }
};

static bool bits( double a, double b ) { return memcmp( &a, &b, 8 ) == 0 || ( a == 0 && b == 0 ); }

static double finite( Rng &r )
{
   for ( ;; )
   {
      double d;
      switch ( r.below( 5 ) )
      {
         case 0: { static const char *const t[] = { "1e22", "1e23", "9007199254740993", "2.2250738585072014e-308", "4.9406564584124654e-324", "1e-5", "0.1", "0.3", "100", "1e100", "1e-100", "5e-324", "123456789012345678", "9.5367431640625e-07" }; d = strtod( t[r.below( 14 )], nullptr ); break; }
         case 1: { uint64_t b = r.next(); memcpy( &d, &b, 8 ); break; }
         case 2: d = ldexp( (double)( r.next() >> 11 ), (int)r.range( -1127, 900 ) ); break;
         default: d = r.edgyReal();
      }
      if ( std::isfinite( d ) ) return r.chance( 50 ) ? d : -d;
   }
}

static float finiteF( Rng &r )
{
   for ( ;; )
   {
      float f;
      if ( r.chance( 50 ) )
      {
         uint32_t b = (uint32_t)r.next();
         if ( r.chance( 10 ) ) b &= 0x807fffff;
         memcpy( &f, &b, 4 );
      }
      else
         f = (float)r.edgyReal();
      if ( std::isfinite( f ) ) return f;
   }
}

static void put( std::string &s, uint32_t c )
{
   if ( c < 0x80 ) s += (char)c;
   else if ( c < 0x800 ) { s += (char)( 0xC0 | c >> 6 ); s += (char)( 0x80 | ( c & 63 ) ); }
   else if ( c < 0x10000 ) { s += (char)( 0xE0 | c >> 12 ); s += (char)( 0x80 | ( c >> 6 & 63 ) ); s += (char)( 0x80 | ( c & 63 ) ); }
   else { s += (char)( 0xF0 | c >> 18 ); s += (char)( 0x80 | ( c >> 12 & 63 ) ); s += (char)( 0x80 | ( c >> 6 & 63 ) ); s += (char)( 0x80 | ( c & 63 ) ); }
}

// any text that XML 1.0 can hold unchanged
static std::string text( Rng &r )
{
   size_t n = r.chance( 10 ) ? r.below( 40000 ) : r.chance( 30 ) ? r.below( 300 ) : r.below( 14 );
   int style = (int)r.below( 5 );
   std::string s;
   while ( s.size() < n )
      switch ( style )
      {
         case 0: s += r.pick<char>( { ']', ']', '>', '[', '<', '!' } ); break;
         case 1: s += r.pick<std::string>( { "]]>", "]]", ">", "]]>]]>", "<![CDATA[", "&amp;", "&#62;", "<a/>", "a", " ", "\n", "\t", "]]]>", "]]>>", "<!--", "-->", "<?xml?>" } ); break;
         case 2:
         {
            uint32_t c = r.chance( 30 ) ? (uint32_t)r.range( 0x20, 0x7f ) : r.chance( 40 ) ? (uint32_t)r.range( 0x80, 0xfff ) : r.chance( 50 ) ? (uint32_t)r.range( 0x1000, 0xffff ) : (uint32_t)r.range( 0x10000, 0x10ffff );
            // line ends and characters that XML leaves out are not representable as they are
            if ( ( c >= 0xd800 && c < 0xe000 ) || ( c & 0xfffe ) == 0xfffe || c == 0x85 || c == 0x2028 || ( c >= 0x7f && c < 0xa0 ) ) break;
            put( s, c );
            break;
         }
         case 3: s += (char)r.range( 0x20, 0x7e ); break;
         default: s += r.chance( 90 ) ? std::string( 1, ' ' ) : r.pick<std::string>( { "\n", "\t", "x", "]]>" } );
      }
   return s;
}

struct W
{
   ImageFile f;
   Rng &r;
   int budget = 60;
   std::vector<std::string> prefixes;
   W( const std::string &p, Rng &rng ) : f( p, "w" ), r( rng ) {}
   std::string name( int k )
   {
      std::string n = r.pick<std::string>( { "a", "B_", "x.y", "long-name-of-an-element", "_" } ) + std::to_string( k );
      return !prefixes.empty() && r.chance( 15 ) ? r.pick( prefixes ) + ":" + n : n;
   }
   Node leaf()
   {
      switch ( r.below( 8 ) )
      {
         case 0:
         {
            int64_t v = r.edgy(), lo = r.chance( 40 ) ? INT64_MIN : r.edgy(), hi = r.chance( 40 ) ? INT64_MAX : r.edgy();
            if ( r.chance( 10 ) ) v = 0;
            return IntegerNode( f, v, std::min( v, lo ), std::max( v, hi ) );
         }
         case 1:
         {
            int64_t v = r.edgy(), lo = r.chance( 40 ) ? INT64_MIN : r.edgy(), hi = r.chance( 40 ) ? INT64_MAX : r.edgy();
            return ScaledIntegerNode( f, v, std::min( v, lo ), std::max( v, hi ), r.chance( 30 ) ? 1.0 : finite( r ), r.chance( 30 ) ? 0.0 : finite( r ) );
         }
         case 2:
         {
            double v = finite( r );
            if ( r.chance( 40 ) ) return FloatNode( f, v, PrecisionDouble );
            double lo = r.chance( 30 ) ? DOUBLE_MIN : finite( r ), hi = r.chance( 30 ) ? DOUBLE_MAX : finite( r );
            return FloatNode( f, v, PrecisionDouble, std::min( v, lo ), std::max( v, hi ) );
         }
         case 3:
         {
            float v = finiteF( r );
            if ( r.chance( 40 ) ) return FloatNode( f, v, PrecisionSingle );
            double lo = r.chance( 30 ) ? FLOAT_MIN : finiteF( r ), hi = r.chance( 30 ) ? FLOAT_MAX : finiteF( r );
            return FloatNode( f, v, PrecisionSingle, std::min<double>( v, lo ), std::max<double>( v, hi ) );
         }
         case 4: return BlobNode( f, r.below( 3000 ) );
         default: return StringNode( f, text( r ) );
      }
   }
   Node make( int depth )
   {
      if ( depth >= 4 || budget <= 0 || r.chance( 60 ) ) return leaf();
      int n = (int)r.below( 6 );
      switch ( r.below( 5 ) )
      {
         case 0:
         {
            VectorNode v( f, true );
            for ( int k = 0; k < n && budget-- > 0; k++ ) v.append( make( depth + 1 ) );
            return v;
         }
         case 1:
         {
            VectorNode v( f, false );
            for ( int k = 0; k < n && budget-- > 0; k++ ) v.append( StringNode( f, text( r ) ) );
            return v;
         }
         default:
         {
            StructureNode s( f );
            for ( int k = 0; k < n && budget-- > 0; k++ ) s.set( name( k ), make( depth + 1 ) );
            return s;
         }
      }
   }
};

static void compare( const Node &a, const Node &b, const std::string &where )
{
   check( a.type() == b.type(), str( where, "has another type", a.type(), b.type() ) );
   check( a.elementName() == b.elementName() && a.pathName() == b.pathName(), str( where, "has another name", b.pathName() ) );
   switch ( a.type() )
   {
      case TypeInteger:
      {
         IntegerNode x( a ), y( b );
         check( x.value() == y.value(), str( where, "integer", x.value(), "reads back as", y.value() ) );
         check( x.minimum() == y.minimum() && x.maximum() == y.maximum(), str( where, "limits", x.minimum(), x.maximum(), "read back as", y.minimum(), y.maximum() ) );
         break;
      }
      case TypeScaledInteger:
      {
         ScaledIntegerNode x( a ), y( b );
         check( x.rawValue() == y.rawValue(), str( where, "raw value", x.rawValue(), "reads back as", y.rawValue() ) );
         check( x.minimum() == y.minimum() && x.maximum() == y.maximum(), str( where, "limits", x.minimum(), x.maximum(), "read back as", y.minimum(), y.maximum() ) );
         check( bits( x.scale(), y.scale() ), str( where, "scale", x.scale(), "reads back as", y.scale() ) );
         check( bits( x.offset(), y.offset() ), str( where, "offset", x.offset(), "reads back as", y.offset() ) );
         break;
      }
      case TypeFloat:
      {
         FloatNode x( a ), y( b );
         check( x.precision() == y.precision(), str( where, "precision changes" ) );
         if ( x.precision() == PrecisionDouble )
         {
            check( bits( x.value(), y.value() ), str( where, "double", x.value(), "reads back as", y.value() ) );
            check( bits( x.minimum(), y.minimum() ) && bits( x.maximum(), y.maximum() ), str( where, "limits", x.minimum(), x.maximum(), "read back as", y.minimum(), y.maximum() ) );
         }
         else
         {
            check( (float)x.value() == (float)y.value(), str( where, "single", x.value(), "reads back as", y.value() ) );
            check( (float)x.minimum() == (float)y.minimum() && (float)x.maximum() == (float)y.maximum(), str( where, "limits", x.minimum(), x.maximum(), "read back as", y.minimum(), y.maximum() ) );
         }
         break;
      }
      case TypeString:
      {
         std::string x = StringNode( a ).value(), y = StringNode( b ).value();
         if ( x != y )
         {
            size_t k = 0;
            while ( k < x.size() && k < y.size() && x[k] == y[k] ) k++;
            fail( str( where, "string of", x.size(), "bytes reads back as", y.size(), "bytes, first difference at", k, "near '" + x.substr( k > 8 ? k - 8 : 0, 20 ) + "' / '" + y.substr( k > 8 ? k - 8 : 0, 20 ) + "'" ) );
         }
         break;
      }
      case TypeBlob:
         check( BlobNode( a ).byteCount() == BlobNode( b ).byteCount(), str( where, "blob of", BlobNode( a ).byteCount(), "reads back with", BlobNode( b ).byteCount() ) );
         break;
      case TypeStructure:
      {
         StructureNode x( a ), y( b );
         check( x.childCount() == y.childCount(), str( where, "has", x.childCount(), "children, reads back with", y.childCount() ) );
         for ( int64_t k = 0; k < x.childCount(); k++ ) compare( x.get( k ), y.get( k ), x.get( k ).pathName() );
         break;
      }
      case TypeVector:
      {
         VectorNode x( a ), y( b );
         check( x.allowHeteroChildren() == y.allowHeteroChildren(), str( where, "heterogeneous permission changes" ) );
         check( x.childCount() == y.childCount(), str( where, "has", x.childCount(), "children, reads back with", y.childCount() ) );
         for ( int64_t k = 0; k < x.childCount(); k++ ) compare( x.get( k ), y.get( k ), x.get( k ).pathName() );
         break;
      }
      case TypeCompressedVector:
      {
         CompressedVectorNode x( a ), y( b );
         check( x.childCount() == y.childCount(), str( where, "record count", x.childCount(), "reads back as", y.childCount() ) );
         compare( x.prototype(), y.prototype(), where + " prototype" );
         compare( x.codecs(), y.codecs(), where + " codecs" );
         break;
      }
   }
}

static void files( Rng &r )
{
   const std::string path = scratch + "/t.e57";
   note( str( "file with random elements", r.s % 1000003 ) );
   std::unique_ptr<W> w( new W( path, r ) );
   std::vector<std::string> uris;
   for ( int k = (int)r.below( 3 ); k > 0; k-- )
   {
      std::string p = "ext" + std::to_string( k );
      std::string u = "http://www.example.org/" + p + r.pick<std::string>( { "", "/2011", "?a=b&c=d", "#<x>", "\"q\"", "'s'", "&amp;", "a b" } );
      w->f.extensionsAdd( p, u );
      w->prefixes.push_back( p );
      uris.push_back( u );
   }
   StructureNode root = w->f.root();
   for ( int k = 0; k < 12; k++ ) root.set( w->name( k ), w->make( 1 ) );
   if ( r.chance( 40 ) )
   {
      StructureNode proto( w->f );
      for ( int k = 0; k < 4; k++ )
         proto.set( "p" + std::to_string( k ), r.chance( 30 ) ? Node( FloatNode( w->f, 0, r.chance( 50 ) ? PrecisionSingle : PrecisionDouble, -fabs( finiteF( r ) ), fabs( finiteF( r ) ) ) )
                                               : r.chance( 50 ) ? Node( IntegerNode( w->f, 0, std::min<int64_t>( 0, r.edgy() ), std::max<int64_t>( 0, r.edgy() ) ) )
                                                                : Node( ScaledIntegerNode( w->f, 0, -5, 5, fabs( finite( r ) ), finite( r ) ) ) );
      VectorNode codecs( w->f, true );
      CompressedVectorNode cv( w->f, proto, codecs );
      root.set( "points", cv );
   }
   w->f.close();
   ImageFile g( path, "r" );
   check( g.extensionsCount() == w->prefixes.size() + 1 || g.extensionsCount() == w->prefixes.size(), str( "namespaces", g.extensionsCount() ) );
   for ( size_t k = 0; k < uris.size(); k++ )
   {
      ustring u;
      check( g.extensionsLookupPrefix( w->prefixes[k], u ), str( "namespace", w->prefixes[k], "is lost" ) );
      check( u == uris[k], str( "namespace", uris[k], "reads back as", u ) );
   }
   // a closed file's elements may not be looked at: write the same tree again, unclosed, from the same choices
   g.close();
}

// the same tree twice: once kept open for comparison, once saved and read back
static void tree( Rng &r )
{
   uint64_t s = r.next();
   note( str( "tree", s ) );
   Rng r1( s ), r2( s );
   const std::string pa = scratch + "/a.e57", pb = scratch + "/b.e57";
   W a( pa, r1 );
   {
      W b( pb, r2 );
      for ( W *w : { &a, &b } )
      {
         StructureNode root = w->f.root();
         if ( w->r.chance( 50 ) ) { w->f.extensionsAdd( "e1", "http://www.example.org/e1" ); w->prefixes.push_back( "e1" ); }
         for ( int k = 0; k < 14; k++ ) root.set( w->name( k ), w->make( 1 ) );
         if ( w->r.chance( 40 ) )
         {
            StructureNode proto( w->f );
            for ( int k = 0; k < 3; k++ )
            {
               double lim = fabs( finiteF( w->r ) ), sc = fabs( finite( w->r ) ) + 1e-300, of = finite( w->r );
               int64_t lo = std::min<int64_t>( 0, w->r.edgy() ), hi = std::max<int64_t>( 0, w->r.edgy() );
               bool single = w->r.chance( 50 );
               switch ( w->r.below( 4 ) )
               {
                  case 0: proto.set( "p" + std::to_string( k ), FloatNode( w->f, 0, single ? PrecisionSingle : PrecisionDouble, -lim, lim ) ); break;
                  case 1: proto.set( "p" + std::to_string( k ), IntegerNode( w->f, 0, lo, hi ) ); break;
                  case 2: proto.set( "p" + std::to_string( k ), ScaledIntegerNode( w->f, 0, lo, hi, sc, of ) ); break;
                  default: proto.set( "p" + std::to_string( k ), StringNode( w->f ) );
               }
            }
            VectorNode codecs( w->f, true );
            root.set( "points", CompressedVectorNode( w->f, proto, codecs ) );
         }
      }
      b.f.close();
   }
   ImageFile g( pb, "r" );
   compare( a.f.root(), g.root(), "/" );
   g.close();
   a.f.cancel();
}

// numbers as text, through the file the writer uses
static void numbers( Rng &r )
{
   note( "numbers as text" );
   const std::string path = scratch + "/n.bin";
   std::vector<double> ds;
   std::vector<float> fs;
   std::vector<int64_t> is;
   uint64_t len;
   {
      CheckedFile f( path, CheckedFile::Write, ReadChecksumPolicy{ 100 } );
      for ( int k = 0; k < 400; k++ )
      {
         ds.push_back( finite( r ) );
         fs.push_back( finiteF( r ) );
         is.push_back( r.edgy() );
         f << ds.back() << std::string( " " ) << fs.back() << std::string( " " ) << is.back() << std::string( " " ) << (uint64_t)is.back() << std::string( "\n" );
      }
      len = f.length( CheckedFile::Logical );
      f.close();
   }
   CheckedFile f( path, CheckedFile::Read, ReadChecksumPolicy{ 100 } );
   std::string t( len, 0 );
   f.read( &t[0], len );
   f.close();
   size_t p = 0;
   auto word = [&]( char end ) { size_t q = t.find( end, p ); check( q != std::string::npos, "text ends early" ); std::string w = t.substr( p, q - p ); p = q + 1; return w; };
   for ( size_t k = 0; k < ds.size(); k++ )
   {
      std::string a = word( ' ' ), b = word( ' ' ), c = word( ' ' ), d = word( '\n' );
      check( bits( strToDouble( a ), ds[k] ) && bits( strtod( a.c_str(), nullptr ), ds[k] ), str( "double", ds[k], "is written as", a ) );
      check( (float)strToDouble( b ) == fs[k] && strtof( b.c_str(), nullptr ) == fs[k], str( "single", fs[k], "is written as", b ) );
      check( c == std::to_string( is[k] ) && d == std::to_string( (uint64_t)is[k] ), str( "integer", std::to_string( is[k] ), "is written as", c, d ) );
   }
}

static void one( Rng &r )
{
   bool grouped = r.chance( 30 );
   static std::locale g( std::locale::classic(), new Grouping );
   std::locale::global( grouped ? g : std::locale::classic() );
   switch ( r.below( 6 ) )
   {
      case 0: numbers( r ); break;
      case 1: files( r ); break;
      default: tree( r );
   }
   std::locale::global( std::locale::classic() );
}

int main( int argc, char **argv ) { return run( argc, argv, one ); }
