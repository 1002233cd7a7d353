// file headers: damaged headers are refused, written headers are right
#include "common.h"
#include "image.h"
#include "Common.h"
#include "E57Format.h"
#include "E57Version.h"
using namespace e57;
using namespace nat;

static std::string make( Rng &r )
{
   std::string p = scratch + "/h.e57";
   ImageFile f( p, "w" );
   f.extensionsAdd( "", "http://www.astm.org/COMMIT/E57/2010-e57-v1.0" );
   int n = (int)r.below( 4 );
   std::vector<std::pair<int64_t, std::string>> blobs;
   for ( int i = 0; i < n; ++i )
   {
      std::string d = r.bytes( r.below( 2500 ) );
      BlobNode b( f, (int64_t)d.size() );
      f.root().set( "b" + std::to_string( i ), b );
      if ( !d.empty() ) b.write( (uint8_t *)&d[0], 0, d.size() );
   }
   f.root().set( "s", StringNode( f, std::string( r.pick<size_t>( { 0, 1, 2, 3, 5, 100 + r.below( 1500 ) } ), 'x' ) ) );
   note( str( "written file with", n, "blobs" ) );
   f.close();
   if ( r.chance( 30 ) ) f.close();
   return p;
}

static void written( const std::string &img )
{
   bool ok;
   std::string l = img::logical( img, &ok );
   check( ok, "written pages carry right checksums" );
   img::Header h = img::header( l );
   check( h.sig == "ASTM-E57", "signature" );
   check( h.major == 1 && h.minor == 0, "version" );
   check( h.length == img.size(), str( "recorded length", h.length, "true", img.size() ) );
   check( h.page == 1024, "page size" );
   std::string x = img::xml( l );
   check( x.size() >= 20 && x.compare( 0, 5, "<?xml" ) == 0, "the XML starts at the recorded position" );
   check( h.xmlLength % 4 == 0, "XML length is a multiple of 4" );
   size_t e = x.rfind( "</e57Root>" );
   check( e != std::string::npos, "the XML ends inside the recorded section" );
   for ( size_t i = e + 10; i < x.size(); ++i ) check( isspace( (unsigned char)x[i] ), "only white space follows the XML" );
   check( img::p2l( h.xmlOffset ) + x.size() + 1020 > l.size(), "the file ends with the page that holds the end of the XML" );
}

// 0 opens, otherwise the error code
static int tryOpen( Rng &r, const std::string &img, bool memory )
{
   int code = 0;
   ReadChecksumPolicy pol = r.pick<int>( { 0, 25, 50, 100 } );
   try
   {
      if ( memory ) { ImageFile f( img.data(), img.size(), pol ); f.close(); }
      else
      {
         std::string p = scratch + "/o.e57";
         write_file( p, img );
         ImageFile f( p, "r", pol );
         check( !f.isWritable(), "a file opened for reading is not writable" );
         f.close();
      }
   }
   catch ( E57Exception &e ) { code = e.errorCode(); check( code != 0, "error code" ); }
   return code;
}

static void one( Rng &r )
{
   std::string img = read_file( make( r ) );
   written( img );
   bool mem = r.chance( 50 );
   check( tryOpen( r, img, mem ) == 0, "a written file opens" );
   std::string l = img::logical( img );
   for ( int k = 0; k < 6; ++k )
   {
      std::string m = l;
      std::string what;
      bool bad = true, known = true; // must be refused; outcome is determined
      int want = 0;
      switch ( r.below( 9 ) )
      {
         case 0: { int i = (int)r.below( 8 ); m[i] = (char)( m[i] ^ ( 1 << r.below( 8 ) ) ); what = str( "signature byte", i ); want = 27; break; }
         case 1: { uint32_t v = r.pick<uint32_t>( { 2, 3, 256, 0x01000000, 0xFFFFFFFF, 0x80000000u, 0x10001 } ); img::put( m, 8, v, 4 ); if ( r.chance( 50 ) ) img::put( m, 12, r.pick<uint32_t>( { 0, 5 } ), 4 ); what = str( "major", v ); want = 28; break; }
         case 2: { uint32_t v = r.pick<uint32_t>( { 1, 2, 256, 0xFFFFFFFF, 0x80000000u } ); img::put( m, 12, v, 4 ); what = str( "minor", v ); want = 28; break; }
         case 3:
         {
            uint64_t v = r.pick<uint64_t>( { 0, img.size() - 1, img.size() + 1, img.size() + 1024, img.size() - 1024, img.size() | ( 1ull << 32 ), img.size() | ( 1ull << 63 ), l.size(), ~0ull, img.size() / 1024 } );
            if ( v == img.size() ) v = 0;
            img::put( m, 16, v, 8 ); what = str( "file length", v ); want = 29; break;
         }
         case 4: { uint64_t v = r.pick<uint64_t>( { 0, 1, 1020, 1023, 1025, 512, 2048, 4096, 1024ull | ( 1ull << 32 ), ~0ull } ); img::put( m, 40, v, 8 ); what = str( "page size", v ); want = 29; break; }
         case 5: { img::put( m, 8, 0, 4 ); uint32_t mi = (uint32_t)r.below( 5 ); img::put( m, 12, mi, 4 ); bool pg = r.chance( 50 ); if ( pg ) img::put( m, 40, r.below( 5000 ), 8 ); what = str( "prototype version, minor", mi, "page", pg ); bad = false; break; }
         case 6: { m += std::string( 1020 * ( 1 + r.below( 3 ) ), 0 ); what = "pages appended"; want = 29; break; }
         case 7: { if ( m.size() <= 1020 ) continue; m.resize( 1020 * r.range( 1, (int64_t)m.size() / 1020 - 1 ) ); what = str( "cut to", m.size() / 1020, "pages" ); want = 29; break; }
         default:
         {
            // everything in the header at once, at random
            for ( int i = 0; i < 3; ++i )
            {
               int o = r.pick<int>( { 8, 12, 16, 24, 32, 40 } );
               img::put( m, o, r.chance( 50 ) ? r.below( 3000 ) : r.next(), o < 16 ? 4 : 8 );
            }
            img::Header h = img::header( m );
            bad = h.major > 1 || ( h.major == 1 && h.minor > 0 ) || h.length != img.size() || ( h.major && h.page != 1024 );
            known = bad;
            what = "several fields";
         }
      }
      note( str( what, "memory", mem ) );
      int code = tryOpen( r, img::physical( m ), mem );
      if ( known && bad ) check( code != 0, "a wrong header was accepted" );
      if ( known && bad && want ) check( code == want, str( "a wrong header was reported with code", code, "instead of", want ) );
      if ( known && !bad ) check( code == 0, str( "a good header was refused with code", code ) );
   }
   // a stray size
   std::string t = img;
   size_t n = r.pick<size_t>( { 0, 1, 47, 48, 1000, 1023, 1025, img.size() - 1, img.size() + 1, img.size() - r.below( 1024 ) } );
   if ( n != img.size() )
   {
      t.resize( n );
      note( str( "file of", n, "bytes, memory", mem ) );
      // make the recorded length agree, so that only the size itself is wrong
      if ( n >= 1024 && r.chance( 60 ) )
      {
         std::string l0 = t.substr( 0, 1020 );
         img::put( l0, 16, n, 8 );
         t.replace( 0, 1024, img::physical( l0 ) );
      }
      check( tryOpen( r, t, mem ) != 0, "a file whose size is not a whole number of pages was accepted" );
   }
}

static void fixed()
{
   // every length of text, so that every padding and page fill comes up
   for ( int n = 0; n < 1100; n += ( n < 20 || ( n > 700 && n < 830 ) ) ? 1 : 37 )
   {
      std::string p = scratch + "/f.e57";
      note( str( "text of", n ) );
      {
         ImageFile f( p, "w" );
         f.extensionsAdd( "", "http://www.astm.org/COMMIT/E57/2010-e57-v1.0" );
         f.root().set( "s", StringNode( f, std::string( n, 'a' ) ) );
         f.close();
      }
      written( read_file( p ) );
      ImageFile f( p, "r" );
      check( StringNode( f.root().get( "s" ) ).value().size() == (size_t)n, "reads back" );
      f.close();
   }
}

int main( int argc, char **argv ) { return run( argc, argv, one, fixed ); }
