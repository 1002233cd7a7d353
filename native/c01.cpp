#include "common.h"
#include "CheckedFile.h"
#include "E57Exception.h"
using namespace e57;
using namespace nat;

static uint64_t L2P( uint64_t x ) { return x / 1020 * 1024 + x % 1020; }

static void one( Rng &r )
{
   const uint64_t max = ( 1ull << 63 ) / 1024 * 1020 - 1;
   uint64_t x = r.chance( 50 ) ? r.below( 5000 ) : r.chance( 50 ) ? ( r.next() % max ) / 1020 * 1020 + r.below( 3 ) - ( r.chance( 30 ) ? 1 : 0 ) : r.next() % max;
   if ( x > max ) x = max;
   note( str( "x", x ) );
   uint64_t p = CheckedFile::logicalToPhysical( x );
   check( p == L2P( x ), "logicalToPhysical" );
   check( CheckedFile::physicalToLogical( p ) == x, "physicalToLogical inverse" );
   uint64_t q = r.chance( 50 ) ? r.below( 9000 ) : r.next();
   check( CheckedFile::physicalToLogical( q ) == ( q >> 10 ) * 1020 + std::min<uint64_t>( q & 1023, 1020 ), str( "physicalToLogical", q ) );
   static std::string fn = scratch + "/m";
   static std::string data = [] { std::string d( 8 * 1024, 'a' ); write_file( fn, d ); return d; }();
   static CheckedFile f( fn, CheckedFile::Read, 0 );
   static CheckedFile b( data.data(), data.size(), 0 );
   for ( int k = 0; k < 4; ++k )
   {
      CheckedFile &c = r.chance( 50 ) ? f : b;
      bool phys = r.chance( 40 );
      uint64_t off = r.below( phys ? 8 * 1024 + 1 : 8 * 1020 + 1 );
      if ( &c == &f && r.chance( 20 ) ) off = r.next() >> 23;
      uint64_t want = phys ? off : L2P( off );
      note( str( "seek", &c == &f, phys, off ) );
      c.seek( off, phys ? CheckedFile::Physical : CheckedFile::Logical );
      check( c.position( CheckedFile::Physical ) == want, "physical position after seek" );
      check( c.position( CheckedFile::Logical ) == ( want >> 10 ) * 1020 + std::min<uint64_t>( want & 1023, 1020 ), "logical position after seek" );
      check( c.length( CheckedFile::Physical ) == 8 * 1024 && c.length( CheckedFile::Logical ) == 8 * 1020, "length" );
      check( c.position( CheckedFile::Physical ) == want, "position moved by queries" );
      uint64_t page; size_t po;
      c.getCurrentPageAndOffset( page, po );
      check( po < 1020 && page * 1020 + po == ( want >> 10 ) * 1020 + std::min<uint64_t>( want & 1023, 1020 ), "page and offset" );
   }
}

int main( int argc, char **argv )
{
   return run( argc, argv, one );
}
