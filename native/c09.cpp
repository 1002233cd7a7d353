// C09: packet and section header checks against an independent reading of the format; damaged sections through a whole reader.
#include "common.h"
#include "image.h"
#include "packets.h"
#include "cv.h"
#include "Packet.h"
#include "SectionHeaders.h"
#include "E57Exception.h"
#include <memory>
using namespace e57;
using namespace nat;

// the packet in an allocation of exactly the buffer size, so that any step outside is noticed
struct Mem
{
   char *p;
   explicit Mem( const std::string &s, Rng &r )
   {
      p = (char *)aligned_alloc( 16, 65536 );
      memset( p, r.chance( 50 ) ? 0 : 0x5a, 65536 );
      memcpy( p, s.data(), std::min<size_t>( s.size(), 65536 ) );
   }
   ~Mem() { free( p ); }
};
static uint64_t g( const char *p, size_t o, int n )
{
   uint64_t v = 0;
   memcpy( &v, p + o, n );
   return v;
}
static bool soundData( const char *p, unsigned bl )
{
   uint64_t len = g( p, 2, 2 ) + 1, c = g( p, 4, 2 );
   if ( p[0] != 1 || len < 6 || len % 4 || ( bl && len > bl ) || ( c == 0 && len > 8 ) || 6 + 2 * c > len ) return false;
   uint64_t used = 6 + 2 * c;
   for ( uint64_t i = 0; i < c; ++i ) used += g( p, 6 + 2 * i, 2 );
   if ( used > len || used + 3 < len ) return false;
   for ( ; used < len; ++used )
      if ( p[used] ) return false;
   return true;
}
static bool soundIndex( const char *p, unsigned bl, uint64_t total, uint64_t size )
{
   uint64_t len = g( p, 2, 2 ) + 1, n = g( p, 4, 2 );
   unsigned lvl = (unsigned char)p[6];
   if ( p[0] != 0 || len < 16 || len % 4 || !n || n > 2048 || lvl > 5 || ( lvl && n < 2 ) || ( bl && len > bl ) || 16 + 16 * n > len ) return false;
   for ( int i = 7; i < 16; ++i )
      if ( p[i] ) return false;
#if E57_VALIDATION_LEVEL > 1
   for ( uint64_t i = 16 + 16 * n; i < len; ++i )
      if ( p[i] ) return false;
   for ( uint64_t i = 0; i < n; ++i )
   {
      uint64_t a = g( p, 16 + 16 * i, 8 ), b = g( p, 24 + 16 * i, 8 );
      if ( ( total && a >= total ) || ( size && b >= size ) ) return false;
      if ( i && ( g( p, 16 * i, 8 ) >= a || g( p, 8 + 16 * i, 8 ) >= b ) ) return false;
   }
#endif
   return true;
}
template <class F> static int code( F f )
{
   try { f(); }
   catch ( E57Exception &ex ) { return (int)ex.errorCode(); }
   return 0;
}
static std::string damaged( Rng &r )
{
   std::string s = pkt::any( r );
   if ( s.size() < 8 ) s = pkt::data( r, 5 );
   switch ( r.below( 9 ) )
   {
      case 0: break;
      case 1: pkt::spoil( r, s ); break;
      case 2: s = r.bytes( r.range( 8, 200 ) ); s[0] = (char)r.below( 3 ); break;
      case 3: img::put( s, 2, (uint64_t)( (int64_t)s.size() - 1 + r.range( -9, 9 ) ), 2 ); break;
      case 4: img::put( s, 2, r.chance( 50 ) ? 65535 : r.below( 24 ), 2 ); break;
      case 5: img::put( s, 4, r.pick<uint64_t>( { 0, 1, 2, 32764, 32765, 32766, 2048, 2049, 65535, img::get( s, 4, 2 ) + 1 } ), 2 ); break;
      case 6: { size_t at = r.below( std::min<size_t>( s.size(), 24 ) ); s[at] = (char)( s[at] ^ ( 1 << r.below( 8 ) ) ); break; }
      case 7:
      {
         // shift bytes between two stream lengths, or push one just over
         size_t n = img::get( s, 4, 2 );
         if ( s[0] == 1 && n )
         {
            size_t k = 6 + 2 * r.below( n );
            img::put( s, k, img::get( s, k, 2 ) + (uint64_t)r.range( -5, 5 ), 2 );
         }
         break;
      }
      default:
      {
         size_t k = s.size() - 1 - r.below( std::min<size_t>( s.size(), 5 ) );
         s[k] = (char)r.next();
      }
   }
   if ( s[0] == 0 && r.chance( 30 ) && s.size() >= 48 )
   {
      size_t n = ( s.size() - 16 ) / 16;
      size_t k = r.below( n );
      uint64_t v = r.chance( 50 ) ? img::get( s, 16 + 16 * ( k ? k - 1 : 0 ), 8 ) : r.next();
      img::put( s, 16 + 16 * k + ( r.chance( 50 ) ? 8 : 0 ), v, 8 );
   }
   return s;
}

static void functions( Rng &r )
{
   std::string s = damaged( r );
   Mem m( s, r );
   unsigned bl = r.chance( 30 ) ? 0 : r.chance( 60 ) ? (unsigned)s.size() : (unsigned)( s.size() + (size_t)r.range( -8, 8 ) );
   note( str( "packet type", (int)m.p[0], "length field", g( m.p, 2, 2 ), "count", g( m.p, 4, 2 ), "size", s.size(), "bufferLength", bl ) );
   auto d = reinterpret_cast<DataPacket *>( m.p );
   int c = code( [&] { d->verify( bl ); } );
   bool ok = soundData( m.p, bl );
   check( ( c == 0 ) == ok, ok ? "a sound data packet was refused" : "an inconsistent data packet was accepted" );
   check( c == 0 || c == ErrorBadCVPacket, "a bad data packet raises another error" );
   if ( ok )
   {
      uint64_t n = g( m.p, 4, 2 ), at = 6 + 2 * n;
      for ( uint64_t i = 0; i < n; ++i )
      {
         uint64_t want = g( m.p, 6 + 2 * i, 2 );
         if ( n < 50 || r.chance( 3 ) )
         {
            unsigned cnt = 0;
            char *q = d->getBytestream( (unsigned)i, cnt );
            check( q == m.p + at && cnt == want, str( "slice of stream", i, "at", q - m.p, "of", cnt, "bytes; recorded at", at, "of", want ) );
            check( d->getBytestreamBufferLength( (unsigned)i ) == want, "recorded stream length" );
         }
         at += want;
      }
      unsigned cnt = 0;
      check( code( [&] { d->getBytestream( (unsigned)n, cnt ); } ) != 0, "a stream past the last one was handed out" );
      check( code( [&] { d->getBytestream( 0xFFFFFFFFu, cnt ); } ) != 0, "a stream past the last one was handed out" );
   }
   uint64_t total = r.chance( 50 ) ? 0 : r.chance( 50 ) ? r.below( 400 ) : UINT64_MAX, size = r.chance( 50 ) ? 0 : r.chance( 50 ) ? 1000 + r.below( 4000 ) : UINT64_MAX;
   c = code( [&] { reinterpret_cast<IndexPacket *>( m.p )->verify( bl, total, size ); } );
   ok = soundIndex( m.p, bl, total, size );
   check( ( c == 0 ) == ok, str( ok ? "a sound index packet was refused" : "an inconsistent index packet was accepted", "totals", total, size ) );
   check( c == 0 || c == ErrorBadCVPacket, "a bad index packet raises another error" );

   char *h = (char *)aligned_alloc( 8, 32 );
   memset( h, 0, 32 );
   h[0] = 1;
   uint64_t fs = r.chance( 20 ) ? 0 : r.range( 1, 100000 );
   uint64_t q[3];
   for ( int i = 0; i < 3; ++i )
   {
      q[i] = r.chance( 80 ) ? r.below( fs ? fs : 1000 ) : r.chance( 50 ) ? fs + r.below( 3 ) : r.next();
      if ( i == 0 && r.chance( 80 ) ) q[i] = q[i] / 4 * 4;
      memcpy( h + 8 + 8 * i, &q[i], 8 );
   }
   bool good = q[0] % 4 == 0 && ( !fs || ( q[0] < fs && q[1] < fs && q[2] < fs ) );
   if ( r.chance( 20 ) ) { h[0] = (char)r.next(); good = good && h[0] == 1; }
   if ( r.chance( 20 ) ) { int k = 1 + (int)r.below( 7 ); h[k] = (char)r.next(); good = good && h[k] == 0; }
   c = code( [&] { reinterpret_cast<CompressedVectorSectionHeader *>( h )->verify( fs ); } );
   std::string what = str( "section header", (int)h[0], q[0], q[1], q[2], "file", fs );
   free( h );
   check( ( c == 0 ) == good, what + ( good ? "refused though sound" : "accepted though inconsistent" ) );
   check( c == 0 || c == ErrorBadCVHeader, "a bad section header raises another error" );
}

// a reader over a damaged section: any result or error, but no step outside and no endless loop
static void wholeReader( Rng &r )
{
   std::string path = scratch + "/d.e57";
   auto fs = cv::fields( r, r.range( 1, 4 ) );
   auto one = fs;
   cv::records( r, one, 1 );
   cv::write( path, one, { 1 }, 1 );
   size_t n = r.range( 1, 200 );
   cv::records( r, fs, n );
   std::vector<uint64_t> at;
   std::string l = cv::assemble( r, path, fs, n, &at );
   size_t k = r.below( at.size() );
   std::string what;
   switch ( r.below( 6 ) )
   {
      case 0: { uint64_t v = r.pick<uint64_t>( { 0, 3, 7, 65535, r.below( 65536 ) } ); img::put( l, at[k] + 2, v, 2 ); what = str( "length field", v ); break; }
      case 1: { uint64_t v = r.pick<uint64_t>( { 0, 1, 65535, r.below( 8 ) } ); img::put( l, at[k] + 4, v, 2 ); what = str( "count", v ); break; }
      case 2: { size_t i = r.below( fs.size() ); uint64_t v = r.pick<uint64_t>( { 0, 1, 65535, r.below( 65536 ) } ); img::put( l, at[k] + 6 + 2 * i, v, 2 ); what = str( "stream", i, "length", v ); break; }
      case 3: l[at[k]] = (char)r.below( 4 ); what = "type"; break;
      case 4: { size_t i = 48 + r.below( 32 ); l[i] = (char)r.next(); what = str( "section byte", i ); break; }
      default: { size_t i = at[k] + r.below( 40 ); if ( i < l.size() ) l[i] = (char)r.next(); what = str( "byte", i ); }
   }
   nat::write_file( path, img::physical( l ) );
   note( str( "reader; damaged packet", k, "of", at.size(), what, "records", n ) );
   try
   {
      ImageFile f( path, "r" );
      CompressedVectorNode v( f.root().get( "points" ) );
      size_t cap = r.range( 1, 300 );
      cv::Bufs u( f, fs, cap );
      CompressedVectorReader rd = v.reader( u.sb );
      size_t sum = 0;
      while ( size_t got = rd.read() )
      {
         check( got <= cap, "more records than the buffers hold" );
         sum += got;
         check( sum <= n, "more records than the vector holds" );
      }
      rd.close();
      f.close();
   }
   catch ( E57Exception & )
   {
   }
}

static void one( Rng &r )
{
   if ( r.chance( 12 ) ) wholeReader( r );
   else functions( r );
}

int main( int argc, char **argv ) { return run( argc, argv, one ); }
