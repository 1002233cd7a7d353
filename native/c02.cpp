// LINK: -Wl,--wrap=read -Wl,--wrap=write -Wl,--wrap=lseek64
#include "common.h"
#include "wrap.h"
#include "CheckedFile.h"
#include "E57Exception.h"
#include <memory>
using namespace e57;
using namespace nat;

static uint64_t P2L( uint64_t q ) { return ( q >> 10 ) * 1020 + std::min<uint64_t>( q & 1023, 1020 ); }

static void one( Rng &r )
{
   disk::reset();
   size_t pages = 1 + r.below( r.chance( 10 ) ? 300 : 6 );
   std::string payload = r.bytes( pages * 1020 ), img;
   for ( size_t p = 0; p < pages; ++p )
   {
      char pg[1024];
      memcpy( pg, &payload[p * 1020], 1020 );
      seal( pg );
      img.append( pg, 1024 );
   }
   int policy = r.pick<int>( { 0, 100, 100, 50, 33, 25, 10, 1, 99, 70, (int)r.below( 101 ) } );
   unsigned mod = policy == 0 || policy == 100 ? 1 : (unsigned)std::nearbyint( 100.0 / policy );
   std::vector<bool> bad( pages, false );
   if ( r.chance( 60 ) )
      for ( int k = r.range( 1, 3 ); k > 0; --k )
      {
         size_t p = r.below( pages );
         size_t at = p * 1024 + ( r.chance( 30 ) ? 1020 + r.below( 4 ) : r.below( 1024 ) );
         img[at] = (char)( img[at] ^ ( 1 << r.below( 8 ) ) );
         bad[p] = !sealed( &img[p * 1024] );
         if ( at % 1024 < 1020 ) payload[p * 1020 + at % 1024] = img[at];
      }
   bool mem = r.chance( 40 );
   std::string fn = scratch + "/r";
   std::unique_ptr<CheckedFile> f;
   if ( mem ) f.reset( new CheckedFile( img.data(), img.size(), policy ) );
   else { write_file( fn, img ); f.reset( new CheckedFile( fn, CheckedFile::Read, policy ) ); }
   check( f->length() == pages * 1020, "logical length" );
   for ( int k = r.range( 1, 6 ); k > 0; --k )
   {
      uint64_t start;
      if ( r.chance( 25 ) ) { uint64_t q = r.chance( 50 ) ? r.below( pages ) * 1024 + 1020 + r.below( 4 ) : r.below( pages * 1024 + 1 ); f->seek( q, CheckedFile::Physical ); start = P2L( q ); }
      else { start = r.chance( 30 ) ? std::min<uint64_t>( r.below( pages + 1 ) * 1020 + r.below( 2 ), pages * 1020 ) : r.below( pages * 1020 + 1 ); f->seek( start ); }
      uint64_t avail = pages * 1020 - start;
      size_t n = r.chance( 10 ) ? avail + 1 + r.below( 3 ) : r.chance( 20 ) ? avail : r.chance( 50 ) ? r.below( std::min<uint64_t>( avail, 2100 ) + 1 ) : r.below( avail + 1 );
      std::string guard = r.bytes( n + 16 ), buf = guard;
      disk::reset();
      if ( !mem && r.chance( 15 ) ) { ( r.chance( 50 ) ? disk::failReadAt : disk::shortReadAt ) = (int)r.below( n / 1020 + 2 ); }
      else if ( !mem && r.chance( 5 ) ) disk::failSeekAt = (int)r.below( 4 );
      note( str( "pages", pages, "policy", policy, mem ? "memory" : "file", "start", start, "n", n, "fault", disk::failReadAt, disk::shortReadAt, disk::failSeekAt ) );
      bool threw = false;
      int code = 0;
      try { f->read( &buf[8], n ); }
      catch ( E57Exception &e ) { threw = true; code = e.errorCode(); }
      check( !memcmp( &buf[0], &guard[0], 8 ) && !memcmp( &buf[8 + n], &guard[8 + n], 8 ), "bytes outside the buffer written" );
      bool mustThrow = start + n > pages * 1020 || disk::hit;
      bool badSel = false, badAny = false;
      if ( n && start + n <= pages * 1020 )
         for ( size_t p = start / 1020; p <= ( start + n - 1 ) / 1020; ++p )
            if ( bad[p] )
            {
               badAny = true;
               if ( policy == 100 || ( policy != 0 && p % mod == 0 ) ) badSel = true;
            }
      if ( policy && badSel ) mustThrow = true;
      if ( mustThrow ) check( threw, badSel ? "delivered a page with a wrong checksum" : "short, failed or out-of-range read not reported" );
      else if ( threw ) check( policy != 0 && badAny && code == ErrorBadChecksum, str( "read refused without cause, code", code ) );
      if ( !threw )
      {
         check( !memcmp( &buf[8], &payload[start], n ), "delivered bytes differ from stored bytes" );
         disk::reset();
         check( f->position() == start + n, "position after read" );
      }
      disk::reset();
   }
}

int main( int argc, char **argv )
{
   return run( argc, argv, one );
}
