// C20: records through the writer and reader in arbitrary chunks, buffers changed between calls, and calls that must be refused.
#include "common.h"
#include "cv.h"
using namespace e57;
using namespace nat;

template <class F> static int code( F f )
{
   try { f(); }
   catch ( E57Exception &ex ) { return (int)ex.errorCode(); }
   return 0;
}

static void one( Rng &r )
{
   std::string path = scratch + "/v.e57", hand = scratch + "/h.e57";
   auto fs = cv::fields( r, r.chance( 40 ) ? 1 : r.range( 2, 5 ), r.chance( 70 ) ? 15 : 31 );
   size_t n = r.chance( 10 ) ? 0 : r.chance( 12 ) ? r.range( 3000, 20000 ) : r.range( 1, 800 );
   for ( auto &f : fs )
      if ( f.kind == cv::Field::Str ) n = std::min<size_t>( n, 300 );
   cv::records( r, fs, n );
   note( cv::shape( fs, n ) );
   size_t cap = r.chance( 40 ) ? n + r.below( 3 ) : r.range( 1, 1 + (int64_t)n );
   if ( !cap ) cap = 1;
   {
      ImageFile f( path, "w" );
      CompressedVectorNode v( f, cv::proto( f, fs ), VectorNode( f, true ) );
      f.root().set( "points", v );
      // buffers in any order
      std::vector<std::unique_ptr<cv::Bufs>> keep;
      auto buffers = [&]() {
         keep.emplace_back( new cv::Bufs( f, fs, cap ) );
         return keep.back().get();
      };
      cv::Bufs *u = buffers();
      CompressedVectorWriter w = v.writer( u->sb );
      size_t at = 0;
      bool swap = r.chance( 40 );
      while ( at < n )
      {
         size_t m = std::min<size_t>( { n - at, cap, (size_t)( r.chance( 50 ) ? cap : r.range( 0, 130 ) ) } );
         if ( r.chance( 10 ) )
         {
            size_t more = cap + 1 + r.below( r.chance( 50 ) ? 3 : 1ull << 40 );
            check( code( [&] { w.write( more ); } ) == ErrorBadAPIArgument, str( "a write of", more, "records from buffers of", cap, "was not refused" ) );
         }
         if ( swap && r.chance( 50 ) )
         {
            u = buffers();
            cv::fill( *u, fs, at, m );
            w.write( u->sb, m );
         }
         else
         {
            cv::fill( *u, fs, at, m );
            w.write( m );
         }
         at += m;
      }
      if ( n == 0 && r.chance( 50 ) ) w.write( 0 );
      w.close();
      check( !w.isOpen(), "the writer is still open" );
      w.close();
      check( code( [&] { w.write( 1 ); } ) == ErrorWriterNotOpen, "a closed writer was written to" );
      check( v.childCount() == (int64_t)n, str( "record count", v.childCount(), "expected", n ) );
      f.close();
   }
   cv::written( path, fs, n );
   if ( n == 0 || r.chance( 50 ) ) hand = path;
   else write_file( hand, img::physical( cv::assemble( r, path, fs, n ) ) );
   if ( r.chance( 50 ) ) cv::readBack( hand, fs, n, r );
   // reading with buffers changed between calls
   ImageFile f( hand, "r" );
   CompressedVectorNode v( f.root().get( "points" ) );
   std::vector<cv::Field> some;
   for ( auto &x : fs )
      if ( some.empty() || r.chance( 75 ) ) some.push_back( x );
   std::vector<std::unique_ptr<cv::Bufs>> keep;
   size_t rc = r.range( 1, 1 + (int64_t)n );
   keep.emplace_back( new cv::Bufs( f, some, rc ) );
   CompressedVectorReader rd = v.reader( keep.back()->sb );
   size_t at = 0, calls = 0;
   check( code( [&] { rd.seek( r.below( n + 2 ) ); } ) != 0, "seeking was not refused" );
   while ( true )
   {
      size_t got;
      if ( r.chance( 30 ) )
      {
         keep.emplace_back( new cv::Bufs( f, some, rc ) );
         got = rd.read( keep.back()->sb );
      }
      else got = rd.read();
      size_t want = std::min( rc, n - at );
      check( got == want, str( "read returned", got, "records, expected", want, "at", at, "capacity", rc ) );
      cv::same( *keep.back(), some, at, got );
      at += got;
      if ( !got || ++calls > 300 ) break;
   }
   rd.close();
   check( code( [&] { rd.read(); } ) == ErrorReaderNotOpen, "a closed reader was read from" );
   f.close();
}
int main( int argc, char **argv ) { return run( argc, argv, one ); }
