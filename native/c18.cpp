// C18: the stream over a section of a file, for arbitrary sections and request sequences, against the file's bytes; documents whose section is cut short or followed by
// other bytes.
#include "common.h"
#include "CheckedFile.h"
#include "E57Format.h"
#include "E57XmlParser.h"
#include <memory>
#include <xercesc/util/BinInputStream.hpp>
#include <xercesc/util/PlatformUtils.hpp>
using namespace e57;
using namespace nat;

static void stream( Rng &r )
{
   std::string p = scratch + "/s.bin", data = r.bytes( r.pick<size_t>( { 1, 20, 1019, 1020, 1021, 2040, 3000 + r.below( 9000 ) } ) );
   {
      CheckedFile w( p, CheckedFile::Write, ChecksumAll );
      w.write( data.data(), data.size() );
      w.close();
   }
   CheckedFile cf( p, CheckedFile::Read, ChecksumAll );
   uint64_t have = cf.length( CheckedFile::Logical );
   // what follows in the last page is whatever the writer left there
   std::string raw = read_file( p ), plain;
   for ( size_t i = 0; i < raw.size(); i += 1024 ) plain += raw.substr( i, 1020 );
   check( plain.compare( 0, data.size(), data ) == 0 && plain.size() == have, "the file does not hold what was written" );
   data = plain;
   uint64_t start = r.pick<uint64_t>( { 0, r.below( have ), r.below( have ), have - 1, have > 1020 ? 1019u : 0u, have > 1020 ? 1020u : 0u } );
   uint64_t len = r.pick<uint64_t>( { 0, 1, 2, have - start, r.below( have - start + 1 ), r.below( have - start + 1 ) } );
   len = std::min( len, have - start );
   E57XmlFileInputSource src( &cf, start, len );
   for ( int pass = 0; pass < 2; ++pass )
   {
      std::unique_ptr<BinInputStream> in( src.makeStream() );
      std::string got, trace;
      uint64_t origin = in->curPos();
      check( origin == start, str( "stream starts at", origin, "not", start ) );
      int ends = 0;
      for ( int k = 0; k < 4000 && ends < 3; ++k )
      {
         size_t ask = r.pick<size_t>( { 0, 1, 2, 3, r.below( 40 ), r.below( 3000 ), 1020, 1024, 49152, len, len - got.size(), len - got.size() + 1, len > got.size() ? len - got.size() - 1 : 0 } );
         if ( r.chance( 20 ) && k > 50 ) ask = 49152;
         std::vector<XMLByte> buf( ask + 8, 0xA5 );
         if ( k < 30 ) trace += str( ask );
         note( str( "section", start, len, "of", have, "asked" ) + trace );
         // something else may use the file in between
         if ( r.chance( 30 ) ) cf.seek( r.below( have ), CheckedFile::Logical );
         size_t n = in->readBytes( buf.data(), ask );
         size_t want = std::min<size_t>( ask, len - got.size() );
         check( n == want, str( "delivered", n, "of", ask, "with", len - got.size(), "left" ) );
         check( memcmp( buf.data(), data.data() + start + got.size(), n ) == 0, "delivered bytes differ from the section's" );
         for ( size_t i = n; i < buf.size(); ++i ) check( buf[i] == 0xA5, str( "byte", i, "after the", n, "delivered was changed" ) );
         got.append( (char *)buf.data(), n );
         check( in->curPos() - origin == got.size(), str( "position", in->curPos() - origin, "after", got.size(), "bytes" ) );
         if ( got.size() == len ) ++ends;
      }
   }
   // sections that reach beyond the file: the bytes there are delivered, the rest is an error or the end
   uint64_t big = r.pick<uint64_t>( { have - start + 1, have * 2, 1ull << 40, ~0ull - start, ~0ull, 1ull << 63, ( 1ull << 63 ) - start } );
   E57XmlFileInputSource src2( &cf, start, big );
   std::unique_ptr<BinInputStream> in( src2.makeStream() );
   uint64_t at = start;
   note( str( "section", start, big, "of", have ) );
   for ( int k = 0; k < 4000; ++k )
   {
      size_t ask = 1 + r.below( 2000 );
      std::vector<XMLByte> buf( ask + 8, 0xA5 );
      size_t n;
      try { n = in->readBytes( buf.data(), ask ); }
      catch ( E57Exception & ) { break; }
      check( n <= ask && at + n <= have, "bytes beyond the file were delivered" );
      check( memcmp( buf.data(), data.data() + at, n ) == 0, "delivered bytes differ from the section's" );
      at += n;
      if ( n == 0 ) break;
   }
}

static void put64( std::string &d, size_t at, uint64_t v ) { memcpy( &d[at], &v, 8 ); }

static uint32_t crc32c( const char *p, size_t n )
{
   uint32_t c = ~0u;
   for ( size_t i = 0; i < n; ++i )
   {
      c ^= (uint8_t)p[i];
      for ( int k = 0; k < 8; ++k ) c = c & 1 ? ( c >> 1 ) ^ 0x82F63B78u : c >> 1;
   }
   return ~c;
}
static void seal( std::string &d )
{
   for ( size_t i = 0; i + 1024 <= d.size(); i += 1024 )
   {
      uint32_t c = crc32c( d.data() + i, 1020 );
      for ( int k = 0; k < 4; ++k ) d[i + 1020 + k] = (char)( c >> ( 8 * ( 3 - k ) ) );
   }
}

static void document( Rng &r )
{
   std::string p = scratch + "/d.e57";
   std::string text = std::string( r.pick<size_t>( { 0, 5, 900, 1020, 2500, 60000, 100000 } ), 'x' );
   for ( auto &c : text ) c = (char)( 'a' + r.below( 26 ) );
   {
      ImageFile f( p, "w" );
      f.root().set( "t", StringNode( f, text ) );
      f.close();
   }
   std::string d = read_file( p );
   uint64_t len;
   memcpy( &len, &d[32], 8 );
   std::string plain;
   for ( size_t i = 0; i < d.size(); i += 1024 ) plain += d.substr( i, 1020 );
   uint64_t off;
   memcpy( &off, &d[24], 8 );
   uint64_t lo = off / 1024 * 1020 + off % 1024;
   std::string xml = plain.substr( lo, len );
   size_t close = xml.rfind( '>' ) + 1;
   auto opens = [&]( uint64_t n ) {
      std::string e = d;
      put64( e, 32, n );
      seal( e );
      std::string q = scratch + "/e.e57";
      write_file( q, e );
      try
      {
         ImageFile f( q, "r" );
         bool ok = StringNode( f.root().get( "t" ) ).value() == text;
         f.close();
         return ok ? 1 : 2;
      }
      catch ( E57Exception & ) { return 0; }
   };
   seal( d );
   note( str( "document of", len, "bytes" ) );
   check( opens( len ) == 1, "the document is not read" );
   note( str( "document of", len, "bytes cut to", close ) );
   check( opens( close ) == 1, "the document is not read when its section ends with it" );
   uint64_t cut = r.pick<uint64_t>( { close - 1, close - 2, r.below( close ), r.below( close ) } );
   note( str( "document of", len, "bytes cut to", cut ) );
   check( opens( cut ) == 0, "a document cut short was read" );
}

static void one( Rng &r )
{
   if ( r.chance( 70 ) ) stream( r );
   else document( r );
}
int main( int argc, char **argv )
{
   XMLPlatformUtils::Initialize();
   return run( argc, argv, one );
}
