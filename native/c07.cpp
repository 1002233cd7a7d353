#include "sdb.h"

static double scaleOf( Rng &r ) { return r.chance( 10 ) ? r.edgyReal() : r.pick<double>( { 1, 0.001, 0.1, 0.5, 2, -1, 1e-6, 1e10, 3.7, 1000 } ); }
static double offsetOf( Rng &r ) { return r.chance( 10 ) ? r.edgyReal() : r.pick<double>( { 0, 0, 1, -0.5, 100.25, -1e6, 1e-9, 0.5 } ); }

template <class T> static void rep( Rng &r )
{
   const bool real = std::is_floating_point<T>::value, boolean = std::is_same<T, bool>::value;
   double scale = scaleOf( r ), offset = offsetOf( r );
   bool scaling = r.chance( 75 );
   if ( r.chance( 50 ) )
   {
      int64_t v = r.edgy();
      if ( scaling && r.chance( 40 ) && std::isfinite( scale ) && scale != 0 )
      {
         long double lim = ( r.chance( 50 ) ? (long double)std::numeric_limits<T>::max() : (long double)std::numeric_limits<T>::lowest() );
         long double q = ( lim - offset ) / scale;
         if ( fabsl( q ) < 9e18L ) v = (int64_t)q + r.range( -2, 2 );
      }
      volatile double d = (double)v;
      d = d * scale;
      d = d + offset;
      if ( !real ) { d = d + 0.5; d = std::floor( d ); }
      long double exact = scaling ? (long double)d : (long double)v;
      note( str( "scale", scale, "offset", offset ) );
      putCase<T>( r, str( "setNextInt64(v,", scale, offset, ") scaling", scaling ).c_str(), scaling, v, !real, [&]( SourceDestBufferImpl &b ) { b.setNextInt64( v, scale, offset ); }, exact );
   }
   else
      getCase<T, int64_t>( r, str( "getNextInt64(", scale, offset, ") scaling", scaling ).c_str(), scaling, scaling ? !real : !real && !boolean,
         [&]( SourceDestBufferImpl &b ) -> int64_t { return b.getNextInt64( scale, offset ); },
         [&]( T x ) -> long double
         {
            if ( !scaling ) return (long double)x;
            if ( scale == 0 ) return (long double)NAN;
            volatile double d = (double)x;
            d = d - offset;
            d = d / scale;
            d = d + 0.5;
            return (long double)std::floor( d );
         } );
}

static void one( Rng &r )
{
   switch ( r.below( 10 ) )
   {
      case 0: rep<int8_t>( r ); break;
      case 1: rep<uint8_t>( r ); break;
      case 2: rep<int16_t>( r ); break;
      case 3: rep<uint16_t>( r ); break;
      case 4: rep<int32_t>( r ); break;
      case 5: rep<uint32_t>( r ); break;
      case 6: rep<int64_t>( r ); break;
      case 7: rep<bool>( r ); break;
      case 8: rep<float>( r ); break;
      default: rep<double>( r ); break;
   }
}

int main( int argc, char **argv )
{
   int rc = run( argc, argv, one );
   IMF.reset();
   return rc;
}
