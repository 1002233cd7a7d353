#include "sdb.h"

template <class T> static void rep( Rng &r )
{
   const bool real = std::is_floating_point<T>::value, boolean = std::is_same<T, bool>::value;
   switch ( r.below( 6 ) )
   {
      case 0:
      {
         int64_t v = r.chance( 30 ) ? ( r.chance( 50 ) ? (int64_t)std::numeric_limits<T>::max() : (int64_t)std::numeric_limits<T>::lowest() ) + r.range( -1, 1 ) * ( sizeof( T ) < 8 ) : r.edgy();
         putCase<T>( r, "setNextInt64", false, v, !real, [&]( SourceDestBufferImpl &b ) { b.setNextInt64( v ); }, (long double)v );
         break;
      }
      case 1:
      {
         double d = r.edgyReal();
         float v = std::isfinite( d ) && fabs( d ) > 3.4e38 ? (float)( d > 0 ? 3.4e38 : -3.4e38 ) : (float)d;
         putCase<T>( r, "setNextFloat", false, v, real, [&]( SourceDestBufferImpl &b ) { b.setNextFloat( v ); }, (long double)v );
         break;
      }
      case 2:
      {
         double v = r.chance( 20 ) ? r.pick<double>( { 3.4028234663852886e38, 3.4028235e38, 3.41e38, -3.41e38, 1e39, -1e300, 9223372036854775808.0, 9223372036854774784.0, -9223372036854775808.0, -9223372036854777856.0, 4294967295.0, 4294967296.0, 2147483647.0, 2147483648.0, NAN, INFINITY, -INFINITY } ) : r.edgyReal();
         putCase<T>( r, "setNextDouble", false, v, real, [&]( SourceDestBufferImpl &b ) { b.setNextDouble( v ); }, (long double)v );
         break;
      }
      case 3: getCase<T, int64_t>( r, "getNextInt64", false, !real && !boolean, []( SourceDestBufferImpl &b ) { return b.getNextInt64(); }, []( T x ) { return (long double)x; } ); break;
      case 4: getCase<T, float>( r, "getNextFloat", false, real, []( SourceDestBufferImpl &b ) { return b.getNextFloat(); }, []( T x ) { return (long double)x; } ); break;
      default: getCase<T, double>( r, "getNextDouble", false, real, []( SourceDestBufferImpl &b ) { return b.getNextDouble(); }, []( T x ) { return (long double)x; } ); break;
   }
}

static void strings( Rng &r )
{
   openFile();
   std::vector<std::string> v;
   for ( int k = 1 + (int)r.below( 4 ); k > 0; --k ) v.push_back( r.bytes( r.below( 12 ) ) );
   auto was = v;
   SourceDestBuffer b( *IMF, "x", &v );
   size_t i = 0;
   note( str( "strings", v.size() ) );
   for ( int k = (int)r.below( 6 ); k > 0; --k )
   {
      bool put = r.chance( 50 ), threw = false, numeric = r.chance( 20 );
      std::string s = r.bytes( r.below( 12 ) ), g;
      try
      {
         if ( numeric ) { if ( put ) b.impl()->setNextDouble( 1 ); else b.impl()->getNextInt64(); }
         else if ( put ) b.impl()->setNextString( s );
         else g = b.impl()->getNextString();
      }
      catch ( E57Exception & ) { threw = true; }
      check( threw == ( numeric || i >= v.size() ), "string transfer accepted or refused wrongly" );
      if ( threw ) continue;
      if ( put ) was[i] = s; else check( g == was[i], "string delivered differs" );
      ++i;
      check( b.impl()->nextIndex() == i, "did not advance by one" );
   }
   check( v == was, "strings stored differ" );
}

static void one( Rng &r )
{
   switch ( r.below( 11 ) )
   {
      case 0: rep<int8_t>( r ); break;
      case 1: rep<uint8_t>( r ); break;
      case 2: rep<int16_t>( r ); break;
      case 3: rep<uint16_t>( r ); break;
      case 4: rep<int32_t>( r ); break;
      case 5: rep<uint32_t>( r ); break;
      case 6: rep<int64_t>( r ); break;
      case 7: rep<bool>( r ); break;
      case 8: rep<float>( r ); break;
      case 9: rep<double>( r ); break;
      default: strings( r );
   }
}

int main( int argc, char **argv )
{
   int rc = run( argc, argv, one );
   IMF.reset();
   return rc;
}
