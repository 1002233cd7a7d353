// C10: the packet cache against a model, with rejected packets and failing reads in the history.
// LINK: -Wl,--wrap=read -Wl,--wrap=write -Wl,--wrap=lseek64
#include "common.h"
#include "wrap.h"
#include "image.h"
#include "packets.h"
#include "CheckedFile.h"
#include "Packet.h"
#include "E57Exception.h"
#include <memory>
using namespace e57;
using namespace nat;

struct Stored
{
   uint64_t at;
   std::string bytes;
   bool good;
};

static void one( Rng &r )
{
   disk::reset();
   std::string l = r.bytes( 48 + 4 * r.below( 300 ) );
   std::vector<Stored> ps;
   for ( int k = (int)r.range( 1, 12 ); k > 0; --k )
   {
      Stored s;
      s.at = l.size();
      s.bytes = pkt::any( r );
      s.good = true;
      if ( r.chance( 20 ) ) s.good = !pkt::spoil( r, s.bytes );
      ps.push_back( s );
      l += s.bytes;
      if ( r.chance( 10 ) ) l += r.bytes( 4 * r.below( 50 ) );
   }
   if ( r.chance( 20 ) )
   {
      // a packet cut off by the end of the file
      Stored s;
      s.at = l.size();
      s.bytes = pkt::data( r, 3000 + r.below( 3000 ) );
      s.good = false;
      l += s.bytes.substr( 0, 8 );
      ps.push_back( s );
   }
   std::string path = scratch + "/p";
   write_file( path, img::physical( l ) );
   size_t n = r.range( 1, 4 );
   {
      CheckedFile f( path, CheckedFile::Read, 100 );
      PacketReadCache cache( &f, (unsigned)n );
      std::unique_ptr<PacketLock> held;
      const Stored *heldPacket = nullptr;
      char *heldPtr = nullptr;
      std::string hist;
      for ( int k = (int)r.range( 1, 40 ); k > 0; --k )
      {
         const Stored &s = ps[r.below( ps.size() )];
         char *p = nullptr;
         disk::reset();
         if ( !heldPacket && r.chance( 15 ) )
         {
            int at = (int)r.below( 1 + s.bytes.size() / 1020 + 2 );
            if ( r.chance( 50 ) ) disk::failReadAt = at; else disk::shortReadAt = at;
         }
         uint64_t want = r.chance( 3 ) ? 0 : s.at;
         hist += str( want, disk::failReadAt, disk::shortReadAt, heldPacket ? "held" : "", "|" );
         note( str( "entries", n, "history", hist.size() > 250 ? hist.substr( hist.size() - 250 ) : hist ) );
         bool threw = false;
         std::unique_ptr<PacketLock> got;
         try { got = cache.lock( want, p ); }
         catch ( E57Exception & ) { threw = true; }
         bool faulted = disk::hit;
         disk::reset();
         if ( heldPacket )
         {
            check( threw, "two packets locked at once" );
            check( !memcmp( heldPtr, heldPacket->bytes.data(), heldPacket->bytes.size() ), "the locked packet was overwritten" );
         }
         else if ( want == 0 ) check( threw, "offset 0 accepted" );
         else if ( !threw )
         {
            check( s.good, "a malformed packet was served" );
            check( !memcmp( p, s.bytes.data(), s.bytes.size() ), "served bytes differ from the packet stored at that position" );
            held = std::move( got );
            heldPacket = &s;
            heldPtr = p;
         }
         else check( !s.good || faulted, "a sound packet was refused" );
         if ( heldPacket && r.chance( 70 ) )
         {
            check( !memcmp( heldPtr, heldPacket->bytes.data(), heldPacket->bytes.size() ), "the locked packet changed" );
            held.reset();
            heldPacket = nullptr;
         }
      }
      held.reset();
   }
}

int main( int argc, char **argv )
{
   return run( argc, argv, one );
}
