// file space: random histories of blobs, compressed vectors and plain requests, in one file
#include "common.h"
#include "image.h"
#include "Common.h"
#include "ImageFileImpl.h"
#include "CheckedFile.h"
#include "E57Format.h"
using namespace e57;
using namespace nat;

struct Piece
{
   uint64_t start, len;
   std::string what;
};

static void disjoint( const std::vector<Piece> &v )
{
   for ( size_t i = 0; i < v.size(); ++i )
   {
      check( v[i].start >= 48, v[i].what + "overlaps the header" );
      for ( size_t j = 0; j < i; ++j )
         check( v[i].start >= v[j].start + v[j].len || v[j].start >= v[i].start + v[i].len,
                str( v[i].what, v[i].start, v[i].len, "overlaps", v[j].what, v[j].start, v[j].len ) );
   }
}

struct Cv
{
   std::unique_ptr<CompressedVectorNode> node;
   std::unique_ptr<CompressedVectorWriter> w;
   std::vector<int64_t> want, buf;
   bool split = false; // something else was placed between its packets: read-back is not part of this check
};
struct Bl
{
   std::unique_ptr<BlobNode> node;
   std::string bytes;
};

static void one( Rng &r )
{
   std::string p = scratch + "/s.e57";
   std::vector<Piece> pieces;
   std::vector<Cv> cvs;
   std::vector<Bl> bls;
   {
      ImageFile f( p, "w" );
      f.extensionsAdd( "", "http://www.astm.org/COMMIT/E57/2010-e57-v1.0" );
      auto imf = f.impl();
      check( imf->unusedLogicalStart_ == 48, "space starts right after the header" );
      int steps = 3 + (int)r.below( 14 );
      Cv *open = nullptr;
      std::vector<uint64_t> regionStart;
      std::vector<std::string> regionData;
      cvs.reserve( 32 );
      for ( int k = 0; k < steps; ++k )
      {
         uint64_t before = imf->unusedLogicalStart_;
         unsigned what = (unsigned)r.below( 6 );
         if ( open && what < 3 && r.chance( 60 ) ) what = 4;
         if ( open && what < 3 ) open->split = true;
         switch ( what )
         {
            case 0: case 1: // plain request
            {
               uint64_t n = r.pick<uint64_t>( { 0, 1, 4, 16, 1019, 1020, 1021, r.below( 3000 ), r.below( 30000 ) } );
               if ( open ) n = ( n + 3 ) / 4 * 4; // sections are made of multiples of 4
               bool ext = r.chance( 60 );
               note( str( "request", n, "extend", ext, "at", before, "step", k ) );
               uint64_t at = imf->allocateSpace( n, ext );
               check( at == before, "request starts at the first unallocated position" );
               check( imf->unusedLogicalStart_ == before + n, "allocation grew by the size asked for" );
               if ( ext ) check( imf->file_->length( CheckedFile::Logical ) == before + n, "file covers the region" );
               pieces.push_back( { at, n, "request" } );
               if ( n )
               {
                  std::string d = r.bytes( n );
                  imf->file_->seek( at );
                  imf->file_->write( d.data(), d.size() );
                  regionStart.push_back( at );
                  regionData.push_back( d );
               }
               break;
            }
            case 2: // blob
            {
               Bl b;
               b.bytes = r.bytes( r.pick<size_t>( { 0, 1, 2, 3, 4, 5, 1000, 1020, r.below( 4000 ) } ) );
               note( str( "blob", b.bytes.size(), "at", before, "step", k ) );
               b.node.reset( new BlobNode( f, (int64_t)b.bytes.size() ) );
               uint64_t n = imf->unusedLogicalStart_ - before;
               check( n >= 16 + b.bytes.size() && n < 20 + b.bytes.size(), "blob reserves header and bytes" );
               pieces.push_back( { before, n, "blob" } );
               f.root().set( "b" + std::to_string( bls.size() ), *b.node );
               if ( !b.bytes.empty() ) b.node->write( (uint8_t *)&b.bytes[0], 0, b.bytes.size() );
               bls.push_back( std::move( b ) );
               break;
            }
            case 3: // start a compressed vector
            {
               if ( open ) break;
               note( str( "vector at", before, "step", k ) );
               cvs.emplace_back();
               Cv &c = cvs.back();
               StructureNode proto( f );
               bool wide = r.chance( 50 );
               proto.set( "v", IntegerNode( f, 0, wide ? INT64_MIN : -1000, wide ? INT64_MAX : 1000 ) );
               VectorNode codecs( f, true );
               c.node.reset( new CompressedVectorNode( f, proto, codecs ) );
               f.root().set( "c" + std::to_string( cvs.size() - 1 ), *c.node );
               c.buf.resize( 20000 );
               std::vector<SourceDestBuffer> sb;
               sb.emplace_back( f, "v", c.buf.data(), c.buf.size(), true );
               c.w.reset( new CompressedVectorWriter( c.node->writer( sb ) ) );
               check( imf->unusedLogicalStart_ == before + 32, "section header reserved" );
               check( imf->file_->length( CheckedFile::Logical ) == before + 32, "file covers the section header" );
               pieces.push_back( { before, 32, "section header" } );
               open = &c;
               break;
            }
            case 4: // write some records
            {
               if ( !open ) break;
               size_t n = r.pick<size_t>( { 0, 1, 7, 100, 3000, 9000, 20000 } );
               if ( n == 0 && !open->want.empty() ) n = 1;
               note( str( "write", n, "records at", before, "step", k ) );
               for ( size_t i = 0; i < n; ++i )
               {
                  open->buf[i] = r.range( -1000, 1000 );
                  open->want.push_back( open->buf[i] );
               }
               open->w->write( n );
               check( imf->unusedLogicalStart_ >= before, "allocation never goes back" );
               if ( imf->unusedLogicalStart_ > before ) pieces.push_back( { before, imf->unusedLogicalStart_ - before, "packets" } );
               check( imf->file_->length( CheckedFile::Logical ) >= imf->unusedLogicalStart_ || imf->unusedLogicalStart_ == before, "packets are in the file" );
               break;
            }
            default:
            {
               if ( !open ) break;
               note( str( "close vector at", before, "step", k ) );
               open->w->close();
               pieces.push_back( { before, imf->unusedLogicalStart_ - before, "packets" } );
               open = nullptr;
            }
         }
         disjoint( pieces );
      }
      if ( open ) open->w->close();
      // everything written to plain requests is still there
      for ( size_t i = 0; i < regionStart.size(); ++i )
      {
         std::string d( regionData[i].size(), 0 );
         imf->file_->seek( regionStart[i] );
         imf->file_->read( &d[0], d.size() );
         check( d == regionData[i], str( "bytes of the request at", regionStart[i], "changed" ) );
      }
      uint64_t end = imf->unusedLogicalStart_;
      f.close();
      bool ok;
      std::string l = img::logical( read_file( p ), &ok );
      check( ok, "checksums" );
      check( img::p2l( img::header( l ).xmlOffset ) == end, "the XML starts after all regions" );
      for ( size_t i = 0; i < regionStart.size(); ++i ) check( l.compare( regionStart[i], regionData[i].size(), regionData[i] ) == 0, "bytes of a request changed on close" );
   }
   ImageFile f( p, "r" );
   for ( size_t i = 0; i < bls.size(); ++i )
   {
      BlobNode b( f.root().get( "b" + std::to_string( i ) ) );
      std::string d( bls[i].bytes.size() + 1, 0 );
      b.read( (uint8_t *)&d[0], 0, bls[i].bytes.size() );
      d.resize( bls[i].bytes.size() );
      note( str( "reopened blob", i ) );
      check( d == bls[i].bytes, "blob bytes changed" );
   }
   for ( size_t i = 0; i < cvs.size(); ++i )
   {
      CompressedVectorNode c( f.root().get( "c" + std::to_string( i ) ) );
      note( str( "reopened vector", i, "of", cvs[i].want.size() ) );
      check( c.childCount() == (int64_t)cvs[i].want.size(), "record count changed" );
      if ( cvs[i].want.empty() || cvs[i].split ) continue;
      std::vector<int64_t> got( cvs[i].want.size() );
      std::vector<SourceDestBuffer> db;
      db.emplace_back( f, "v", got.data(), got.size(), true );
      CompressedVectorReader rd = c.reader( db );
      check( rd.read() == got.size(), "records read" );
      check( got == cvs[i].want, "records changed" );
      rd.close();
   }
   f.close();
}

int main( int argc, char **argv ) { return run( argc, argv, one ); }
