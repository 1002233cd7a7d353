// An E57 file seen from outside the library: pages, checksums, header, XML text, binary sections.
#pragma once
#include "common.h"
#include <map>

namespace img
{
   inline uint32_t crc32c( const char *p, size_t n )
   {
      uint32_t c = 0xFFFFFFFFu;
      static uint32_t T[256];
      if ( !T[1] )
         for ( uint32_t i = 0; i < 256; ++i )
         {
            uint32_t x = i;
            for ( int k = 0; k < 8; ++k ) x = ( x >> 1 ) ^ ( x & 1 ? 0x82F63B78u : 0 );
            T[i] = x;
         }
      for ( size_t i = 0; i < n; ++i ) c = ( c >> 8 ) ^ T[( c ^ (unsigned char)p[i] ) & 255];
      return ~c;
   }
   inline uint32_t beCrc( const char *page )
   {
      uint32_t c = crc32c( page, 1020 );
      return ( c >> 24 ) | ( ( c >> 8 ) & 0xFF00 ) | ( ( c << 8 ) & 0xFF0000 ) | ( c << 24 );
   }
   inline void put( std::string &s, size_t off, uint64_t v, int n )
   {
      for ( int i = 0; i < n; ++i ) s[off + i] = (char)( v >> ( 8 * i ) );
   }
   inline uint64_t get( const std::string &s, size_t off, int n )
   {
      uint64_t v = 0;
      for ( int i = 0; i < n; ++i ) v |= (uint64_t)(unsigned char)s.at( off + i ) << ( 8 * i );
      return v;
   }
   // physical file -> logical bytes; ok=false when the size is not whole pages or a checksum is wrong
   inline std::string logical( const std::string &phys, bool *ok = nullptr )
   {
      std::string r;
      bool good = phys.size() % 1024 == 0;
      for ( size_t p = 0; p + 1024 <= phys.size(); p += 1024 )
      {
         uint32_t c = beCrc( &phys[p] );
         if ( memcmp( &c, &phys[p + 1020], 4 ) ) good = false;
         r.append( phys, p, 1020 );
      }
      if ( ok ) *ok = good;
      return r;
   }
   // logical bytes -> physical file with right checksums
   inline std::string physical( std::string l )
   {
      l.resize( ( l.size() + 1019 ) / 1020 * 1020, 0 );
      std::string r;
      for ( size_t p = 0; p < l.size(); p += 1020 )
      {
         std::string page = l.substr( p, 1020 );
         page.resize( 1024 );
         uint32_t c = beCrc( page.data() );
         memcpy( &page[1020], &c, 4 );
         r += page;
      }
      return r;
   }
   inline uint64_t l2p( uint64_t l ) { return l / 1020 * 1024 + l % 1020; }
   inline uint64_t p2l( uint64_t p ) { return p / 1024 * 1020 + std::min<uint64_t>( p % 1024, 1020 ); }

   struct Header
   {
      std::string sig;
      uint32_t major, minor;
      uint64_t length, xmlOffset, xmlLength, page;
   };
   inline Header header( const std::string &l )
   {
      Header h;
      h.sig = l.substr( 0, 8 );
      h.major = (uint32_t)get( l, 8, 4 );
      h.minor = (uint32_t)get( l, 12, 4 );
      h.length = get( l, 16, 8 );
      h.xmlOffset = get( l, 24, 8 );
      h.xmlLength = get( l, 32, 8 );
      h.page = get( l, 40, 8 );
      return h;
   }
   inline std::string xml( const std::string &l )
   {
      Header h = header( l );
      uint64_t o = p2l( h.xmlOffset );
      if ( o > l.size() || h.xmlLength > l.size() - o ) return "";
      return l.substr( o, h.xmlLength );
   }
   // replace the XML text of a file image; the new text goes at the end
   inline std::string withXml( std::string l, const std::string &text )
   {
      uint64_t o = p2l( header( l ).xmlOffset );
      l.resize( o );
      l += text;
      while ( ( l.size() - o ) % 4 ) l += ' ';
      put( l, 32, l.size() - o, 8 );
      uint64_t pl = ( l.size() + 1019 ) / 1020 * 1024;
      put( l, 16, pl, 8 );
      return physical( l );
   }
}
