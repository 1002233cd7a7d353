// Stand-ins for the disk calls the library makes, which can be told to fail or be cut short.
#pragma once
#include <cerrno>
#include <unistd.h>
#include <sys/types.h>
namespace disk
{
   inline int failReadAt = -1, shortReadAt = -1, failWriteAt = -1, shortWriteAt = -1, failSeekAt = -1;
   inline int reads = 0, writes = 0, seeks = 0;
   inline bool hit = false;
   inline void reset()
   {
      failReadAt = shortReadAt = failWriteAt = shortWriteAt = failSeekAt = -1;
      reads = writes = seeks = 0;
      hit = false;
   }
}
extern "C"
{
   ssize_t __real_read( int, void *, size_t );
   ssize_t __real_write( int, const void *, size_t );
   off64_t __real_lseek64( int, off64_t, int );
   ssize_t __wrap_read( int fd, void *b, size_t n )
   {
      int k = disk::reads++;
      if ( k == disk::failReadAt ) { disk::hit = true; errno = EIO; return -1; }
      if ( k == disk::shortReadAt && n > 1 ) { disk::hit = true; return __real_read( fd, b, n / 2 ); }
      return __real_read( fd, b, n );
   }
   ssize_t __wrap_write( int fd, const void *b, size_t n )
   {
      int k = disk::writes++;
      if ( k == disk::failWriteAt ) { disk::hit = true; errno = ENOSPC; return -1; }
      if ( k == disk::shortWriteAt && n > 1 ) { disk::hit = true; return __real_write( fd, b, n / 2 ); }
      return __real_write( fd, b, n );
   }
   off64_t __wrap_lseek64( int fd, off64_t o, int w )
   {
      int k = disk::seeks++;
      if ( k == disk::failSeekAt ) { disk::hit = true; errno = EINVAL; return -1; }
      return __real_lseek64( fd, o, w );
   }
}
// independent CRC32C (bitwise), and its on-disk form
inline uint32_t crc32c( const char *p, size_t n )
{
   uint32_t c = 0xFFFFFFFFu;
   static uint32_t T[256];
   if ( !T[1] )
      for ( uint32_t i = 0; i < 256; ++i )
      {
         uint32_t x = i;
         for ( int k = 0; k < 8; ++k ) x = ( x >> 1 ) ^ ( x & 1 ? 0x82F63B78u : 0 );
         T[i] = x;
      }
   for ( size_t i = 0; i < n; ++i ) c = ( c >> 8 ) ^ T[( c ^ (unsigned char)p[i] ) & 255];
   return ~c;
}
inline void seal( char *page )
{
   uint32_t c = crc32c( page, 1020 );
   page[1020] = (char)( c >> 24 ); page[1021] = (char)( c >> 16 ); page[1022] = (char)( c >> 8 ); page[1023] = (char)c;
}
inline bool sealed( const char *page )
{
   char t[1024];
   memcpy( t, page, 1024 );
   seal( t );
   return !memcmp( t + 1020, page + 1020, 4 );
}
