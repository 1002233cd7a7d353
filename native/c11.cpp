// C11: packets composed from any amounts of pending output, output queues drained in any steps, whole files taken apart.
#include "common.h"
#include "cv.h"
#include "Encoder.h"
#include "CheckedFile.h"
#include "ImageFileImpl.h"
#include "CompressedVectorWriterImpl.h"
using namespace e57;
using namespace nat;

struct Fake : Encoder
{
   std::string data;
   size_t at = 0, real = 0;
   Fake() : Encoder( 0 ) {}
   uint64_t processRecords( size_t ) override { return 0; }
   unsigned sourceBufferNextIndex() override { return 0; }
   uint64_t currentRecordIndex() override { return 0; }
   float bitsPerRecord() override { return 8; }
   bool registerFlushToOutput() override { return true; }
   size_t outputAvailable() const override { return data.size() - at; }
   void outputRead( char *dest, size_t n ) override
   {
      check( n <= outputAvailable(), str( "asked for", n, "of", outputAvailable(), "pending bytes" ) );
      memcpy( dest, data.data() + at, n );
      at += n;
   }
   void outputClear() override { at = data.size(); }
   void sourceBufferSetNew( std::vector<SourceDestBuffer> & ) override {}
   size_t outputGetMaxSize() override { return 65536; }
   void outputSetMaxSize( unsigned ) override {}
#ifdef E57_ENABLE_DIAGNOSTIC_OUTPUT
   void dump( int, std::ostream & ) const override {}
#endif
};

static void packets( Rng &r )
{
   ImageFile f( scratch + "/k.e57", "w" );
   auto imf = f.impl();
   cv::Field fd;
   fd.kind = cv::Field::Double;
   fd.path = "f0";
   std::vector<cv::Field> fs{ fd };
   CompressedVectorNode v( f, cv::proto( f, fs ), VectorNode( f, true ) );
   f.root().set( "points", v );
   cv::Bufs u( f, fs, 4 );
   CompressedVectorWriter w = v.writer( u.sb );
   auto wi = w.impl();
   auto keep = wi->bytestreams_;
   size_t n = r.chance( 50 ) ? r.range( 1, 6 ) : r.chance( 60 ) ? r.range( 1, 300 ) : r.chance( 60 ) ? r.range( 300, 6000 ) : r.range( 6000, 21842 );
   std::vector<std::shared_ptr<Fake>> k;
   std::string what = str( n, "streams pending" );
   int shape = (int)r.below( 5 );
   size_t budget = r.chance( 50 ) ? r.range( 65530 - 2 * (int64_t)n - 6, 65530 - 2 * (int64_t)n + 6 ) : r.below( 200000 );
   if ( (int64_t)budget < 0 ) budget = 0;
   for ( size_t i = 0; i < n; ++i )
   {
      auto e = std::make_shared<Fake>();
      size_t m = shape == 0 ? std::min<size_t>( budget / n + ( i < budget % n ), 65536 ) : shape == 1 ? ( i == n - 1 ? std::min<size_t>( budget, 65536 ) : 0 ) :
                 shape == 2 ? ( r.chance( 30 ) ? 65536 : r.below( 65537 ) ) : shape == 3 ? r.below( 40 ) : r.chance( 90 ) ? 0 : r.below( 3000 );
      if ( n > 300 ) m = std::min<size_t>( m, 600 );
      e->data = r.bytes( m );
      if ( i < 6 ) what += " " + std::to_string( m );
      k.push_back( e );
   }
   note( what );
   wi->bytestreams_.assign( k.begin(), k.end() );
   if ( r.chance( 50 ) )
   {
      std::string junk = r.bytes( 65532 );
      memcpy( (char *)&wi->dataPacket_ + 4, junk.data(), junk.size() );
      ( (char *)&wi->dataPacket_ )[1] = (char)r.below( 2 );
   }
   for ( int round = 0; round < 4000; ++round )
   {
      size_t pending = 0;
      std::vector<size_t> was;
      for ( auto &e : k ) { pending += e->outputAvailable(); was.push_back( e->at ); }
      uint64_t start = imf->unusedLogicalStart_, count = wi->dataPacketsCount_, data = wi->dataPhysicalOffset_;
      uint64_t ret = wi->packetWrite();
      uint64_t len = imf->unusedLogicalStart_ - start;
      if ( pending == 0 )
      {
         check( ret == 0 && len == 0 && wi->dataPacketsCount_ == count, "a packet although nothing is pending" );
         break;
      }
      check( ret == img::l2p( start ), "the packet's position" );
      check( wi->dataPacketsCount_ == count + 1, "packets counted" );
      check( wi->dataPhysicalOffset_ == ( count ? data : ret ), "position of the first packet" );
      check( len >= 8 && len <= 65536 && len % 4 == 0, str( "packet of", len, "bytes" ) );
      std::string p( len, 0 );
      imf->file_->seek( start );
      imf->file_->read( &p[0], len );
      check( p[0] == 1 && p[1] == 0, "type and flags" );
      check( img::get( p, 2, 2 ) + 1 == len, "length in the header" );
      check( img::get( p, 4, 2 ) == n, "streams in the header" );
      size_t at = 6 + 2 * n, got = 0;
      for ( size_t i = 0; i < n; ++i )
      {
         size_t m = img::get( p, 6 + 2 * i, 2 );
         check( k[i]->at == was[i] + m, str( "stream", i, "gave", k[i]->at - was[i], "bytes, the packet says", m ) );
         check( at + m <= len && !p.compare( at, m, k[i]->data, was[i], m ), str( "bytes of stream", i ) );
         at += m;
         got += m;
      }
      check( len - at <= 3, "padding" );
      for ( ; at < len; ++at ) check( p[at] == 0, "padding not zero" );
      if ( pending < 65530 - 2 * n ) check( got == pending, "everything fits but was not sent" );
      if ( got == 0 ) break; // rounding: nothing moved
   }
   wi->bytestreams_ = keep;
   w.close();
   f.cancel();
}

static void queue( Rng &r )
{
   ImageFile f( scratch + "/q.e57", "w" );
   auto fs = cv::fields( r, 1, 31 );
   if ( fs[0].kind <= cv::Field::Scaled && fs[0].lo == fs[0].hi ) fs[0].kind = cv::Field::Double;
   CompressedVectorNode v( f, cv::proto( f, fs ), VectorNode( f, true ) );
   f.root().set( "points", v );
   cv::Bufs u( f, fs, 4 );
   CompressedVectorWriter w = v.writer( u.sb );
   auto e = std::dynamic_pointer_cast<BitpackEncoder>( w.impl()->bytestreams_.at( 0 ) );
   check( e != nullptr, "no queue" );
   size_t cap = e->outBuffer_.size(), al = e->outBufferAlignmentSize_;
   e->outBufferEnd_ = r.below( cap / al + 1 ) * al;
   e->outBufferFirst_ = r.chance( 20 ) ? e->outBufferEnd_ : r.below( e->outBufferEnd_ + 1 );
   std::string all = r.bytes( cap );
   memcpy( e->outBuffer_.data(), all.data(), cap );
   std::string want = all.substr( e->outBufferFirst_, e->outBufferEnd_ - e->outBufferFirst_ ), got;
   note( str( "queue from", e->outBufferFirst_, "to", e->outBufferEnd_, "aligned", al ) );
   for ( int i = 0; i < 40; ++i )
   {
      check( e->outputAvailable() == want.size() - got.size(), str( e->outputAvailable(), "bytes available, expected", want.size() - got.size() ) );
      if ( r.chance( 40 ) )
      {
         e->outBufferShiftDown();
         check( e->outBufferFirst_ <= e->outBufferEnd_ && e->outBufferEnd_ <= cap && e->outBufferEnd_ % al == 0, "queue position after moving down" );
         check( e->outBufferEnd_ < e->outputAvailable() + al, "queue not moved to the front" );
      }
      else
      {
         size_t m = r.chance( 20 ) ? 0 : r.chance( 10 ) ? want.size() - got.size() : r.below( ( want.size() - got.size() ) / 3 + 2 );
         bool ok = m <= want.size() - got.size();
         std::string b( m + 8, 'x' );
         try
         {
            e->outputRead( &b[0], m );
            check( ok, "more than was available" );
            got += b.substr( 0, m );
            check( b.substr( m ) == "xxxxxxxx", "written past the destination" );
         }
         catch ( E57Exception & ) { check( !ok, "refused although available" ); }
      }
   }
   check( !want.compare( 0, got.size(), got ), "bytes or order differ" );
   if ( r.chance( 50 ) )
   {
      e->outputClear();
      check( e->outputAvailable() == 0, "not cleared" );
   }
   w.close();
   f.cancel();
}

static void files( Rng &r )
{
   auto fs = cv::fields( r, r.chance( 40 ) ? r.range( 1, 3 ) : r.range( 4, 30 ), 31 );
   size_t n = r.chance( 30 ) ? r.range( 2000, 12000 ) : r.range( 1, 1500 );
   if ( fs.size() > 8 ) n = std::min<size_t>( n, 3000 );
   note( cv::shape( fs, n ) );
   cv::records( r, fs, n );
   size_t cap = r.range( 1, (int64_t)n );
   std::string path = scratch + "/v.e57";
   cv::write( path, fs, cv::chunks( r, n, cap ), cap );
   cv::written( path, fs, n );
}

static void one( Rng &r )
{
   int k = (int)r.below( 10 );
   if ( k < 4 ) packets( r );
   else if ( k < 8 ) queue( r );
   else files( r );
}
int main( int argc, char **argv ) { return run( argc, argv, one ); }
