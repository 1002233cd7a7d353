// Binary-section packets built from the format, independent of the library.
#pragma once
#include "image.h"

namespace pkt
{
   using nat::Rng;
   inline std::string pad( std::string s )
   {
      while ( s.size() % 4 ) s += '\0';
      img::put( s, 2, s.size() - 1, 2 );
      return s;
   }
   inline std::string dataOf( const std::vector<std::string> &streams, int flags = 0 )
   {
      std::string s( 6 + 2 * streams.size(), '\0' );
      s[0] = 1;
      s[1] = (char)flags;
      img::put( s, 4, streams.size(), 2 );
      for ( size_t i = 0; i < streams.size(); ++i ) img::put( s, 6 + 2 * i, streams[i].size(), 2 );
      for ( auto &x : streams ) s += x;
      return pad( s );
   }
   // a sound data packet with about `total` stream bytes
   inline std::string data( Rng &r, size_t total )
   {
      size_t n = r.range( 1, 6 );
      std::vector<std::string> st;
      for ( size_t i = 0; i < n; ++i )
      {
         size_t k = i + 1 == n ? total : r.chance( 15 ) ? 0 : r.below( total + 1 );
         st.push_back( r.bytes( k ) );
         total -= k;
      }
      return dataOf( st, (int)r.below( 2 ) );
   }
   inline std::string index( Rng &r )
   {
      size_t n = r.range( 2, r.chance( 20 ) ? 2000 : 5 );
      std::string s( 16 + 16 * n, '\0' );
      s[0] = 0;
      img::put( s, 4, n, 2 );
      s[6] = (char)r.below( 6 );
      uint64_t rec = 0, off = 1000;
      for ( size_t i = 0; i < n; ++i )
      {
         img::put( s, 16 + 16 * i, rec, 8 );
         img::put( s, 24 + 16 * i, off, 8 );
         rec += 1 + r.below( 100 );
         off += 4 + r.below( 1000 );
      }
      img::put( s, 2, s.size() - 1, 2 );
      return s;
   }
   inline std::string empty( Rng &r )
   {
      std::string s = r.bytes( 4 * r.range( 1, 400 ) );
      s[0] = 2;
      s[1] = 0;
      img::put( s, 2, s.size() - 1, 2 );
      return s;
   }
   inline std::string any( Rng &r )
   {
      switch ( r.below( 8 ) )
      {
         case 0: return index( r );
         case 1: return empty( r );
         case 2: return data( r, 65536 - 6 - 12 - r.below( 40 ) );
         default: return data( r, r.chance( 50 ) ? r.below( 40 ) : r.below( 5000 ) );
      }
   }
   // damage a packet so that it is certainly malformed; false if this one was left sound
   inline bool spoil( Rng &r, std::string &s )
   {
      switch ( r.below( 4 ) )
      {
         case 0: s[0] = (char)r.range( 3, 255 ); return true;
         case 1: img::put( s, 2, s.size() - 2, 2 ); return true; // length not a multiple of 4
         case 2:
            if ( s[0] == 1 )
            {
               uint64_t n = img::get( s, 4, 2 );
               img::put( s, 6 + 2 * ( n - 1 ), img::get( s, 6 + 2 * ( n - 1 ), 2 ) ^ 0x8000, 2 );
               return true;
            }
            if ( s[0] == 0 ) { img::put( s, 4, 0, 2 ); return true; }
            return false;
         default:
            if ( s[0] == 1 && s.back() == 0 && s.size() > 20 )
            {
               uint64_t n = img::get( s, 4, 2 ), used = 6 + 2 * n;
               for ( uint64_t i = 0; i < n; ++i ) used += img::get( s, 6 + 2 * i, 2 );
               if ( used < s.size() ) { s.back() = 1; return true; }
            }
            if ( s[0] == 0 ) { s[7 + r.below( 9 )] = 1; return true; }
            return false;
      }
   }
}
