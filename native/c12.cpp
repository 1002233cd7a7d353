// blobs through the public interface against a byte-array model
#include "common.h"
#include "Common.h"
#include "E57Format.h"
using namespace e57;
using namespace nat;

struct M
{
   std::string bytes;
   std::unique_ptr<BlobNode> node;
   bool attached = false;
};

static int64_t edgeStart( Rng &r, int64_t len )
{
   return r.pick<int64_t>( { 0, 1, len - 1, len, len + 1, -1, -4, -16, -64, INT64_MIN, INT64_MIN + 1, INT64_MAX, INT64_MAX - 3, r.range( 0, len ), r.range( 0, len ), r.range( 0, len ) } );
}

static void readOne( Rng &r, BlobNode &b, const std::string &want, bool open )
{
   int64_t len = (int64_t)want.size(), start = edgeStart( r, len );
   size_t count = r.pick<size_t>( { 0, 1, (size_t)len, (size_t)len + 1, (size_t)r.range( 0, len ), (size_t)r.range( 0, len ), (size_t)std::max<int64_t>( 0, len - std::max<int64_t>( 0, std::min( start, len ) ) ) } );
   if ( start < 0 && start > -200 && r.chance( 50 ) ) count = (size_t)-start + r.below( 20 );
   std::vector<uint8_t> buf( count + 8, 0xA5 );
   note( str( "read blob of", len, "start", start, "count", count, "open", open ) );
   bool in = start >= 0 && start <= len && count <= (uint64_t)( len - start ), threw = false;
   try { b.read( buf.data(), start, count ); }
   catch ( E57Exception & ) { threw = true; }
   check( threw == !( in && open ), threw ? "a range inside the blob was refused" : "a range outside the blob was accepted" );
   for ( size_t i = 0; i < count; ++i ) check( buf[i] == ( threw ? 0xA5 : (uint8_t)want[start + i] ), str( "byte", i, "differs" ) );
   for ( size_t i = count; i < buf.size(); ++i ) check( buf[i] == 0xA5, "byte past the count changed" );
}

static void one( Rng &r )
{
   std::string p = scratch + "/b.e57";
   std::vector<M> ms;
   int n = 1 + (int)r.below( 4 );
   {
      ImageFile f( p, "w" );
      for ( int i = 0; i < n; ++i )
      {
         M m;
         int64_t len = r.pick<int64_t>( { 0, 1, 3, 4, 5, (int64_t)r.below( 40 ), 900 + (int64_t)r.below( 200 ), (int64_t)r.below( 5000 ) } );
         if ( r.chance( 10 ) )
         {
            int64_t bad = r.pick<int64_t>( { -1, -16, -48, -100, -4, INT64_MIN, -(int64_t)r.below( 3000 ) - 1 } );
            bool threw = false;
            try { BlobNode b( f, bad ); }
            catch ( E57Exception & ) { threw = true; }
            note( str( "blob of", bad, "bytes" ) );
            check( threw, "a negative size was accepted" );
         }
         m.node.reset( new BlobNode( f, len ) );
         m.bytes.assign( (size_t)len, 0 );
         note( str( "blob of", len, "bytes" ) );
         check( m.node->byteCount() == len, "length differs" );
         if ( r.chance( 85 ) ) { f.root().set( str( "b" ).substr( 0, 1 ) + std::to_string( i ), *m.node ); m.attached = true; }
         ms.push_back( std::move( m ) );
         for ( int k = (int)r.below( 6 ); k > 0; --k )
         {
            auto &x = ms[r.below( ms.size() )];
            int64_t len = (int64_t)x.bytes.size();
            if ( r.chance( 50 ) ) { readOne( r, *x.node, x.bytes, true ); continue; }
            int64_t start = edgeStart( r, len );
            size_t count = (size_t)r.range( 0, len + 2 );
            if ( start < 0 && start > -200 && r.chance( 50 ) ) count = (size_t)-start + r.below( 20 );
            std::string d = r.bytes( count + 1 );
            note( str( "write blob of", len, "start", start, "count", count, "attached", x.attached ) );
            bool in = start >= 0 && start <= len && count <= (uint64_t)( len - start ) && x.attached, threw = false;
            try { x.node->write( (uint8_t *)&d[0], start, count ); }
            catch ( E57Exception & ) { threw = true; }
            check( threw == !in, threw ? "a range inside the blob was refused" : "a range outside the blob was accepted" );
            if ( !threw ) x.bytes.replace( (size_t)start, count, d.substr( 0, count ) );
         }
      }
      for ( auto &x : ms )
      {
         std::vector<uint8_t> b( x.bytes.size() + 1 );
         x.node->read( b.data(), 0, x.bytes.size() );
         check( std::string( (char *)b.data(), x.bytes.size() ) == x.bytes, "contents differ before closing" );
      }
      f.close();
      for ( auto &x : ms ) if ( r.chance( 30 ) ) readOne( r, *x.node, x.bytes, false );
   }
   ImageFile f( p, "r" );
   for ( int i = 0; i < n; ++i )
   {
      if ( !ms[i].attached ) continue;
      BlobNode b( f.root().get( "b" + std::to_string( i ) ) );
      note( str( "reopened blob of", ms[i].bytes.size() ) );
      check( b.byteCount() == (int64_t)ms[i].bytes.size(), "length differs after reopening" );
      std::vector<uint8_t> d( ms[i].bytes.size() + 1 );
      b.read( d.data(), 0, ms[i].bytes.size() );
      check( std::string( (char *)d.data(), ms[i].bytes.size() ) == ms[i].bytes, "contents differ after reopening" );
      readOne( r, b, ms[i].bytes, true );
      bool threw = false;
      uint8_t z = 7;
      try { b.write( &z, 0, ms[i].bytes.empty() ? 0 : 1 ); }
      catch ( E57Exception & ) { threw = true; }
      check( threw, "a blob of a file opened for reading was written" );
   }
   f.close();
}

int main( int argc, char **argv ) { return run( argc, argv, one ); }
