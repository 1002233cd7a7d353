// C04: integer fields through whole files against an independent bit-level encoder and decoder.
#include "common.h"
#include "codec.h"
#include "ImageFileImpl.h"
using namespace e57;
using namespace nat;

static void refusals( Rng &r )
{
   // a value outside the declared range is rejected rather than stored
   cv::Field f;
   do cv::bounds( r, f ); while ( f.lo == INT64_MIN && f.hi == INT64_MAX );
   f.kind = r.chance( 50 ) ? cv::Field::Int : cv::Field::Scaled;
   f.path = "f0";
   size_t n = r.range( 1, 300 ), bad = r.below( n );
   std::vector<cv::Field> fs{ f };
   cv::records( r, fs, n );
   bool low = f.lo != INT64_MIN && ( f.hi == INT64_MAX || r.chance( 50 ) );
   uint64_t gap = r.chance( 50 ) ? 0 : r.below( 1ull << r.below( 62 ) );
   int64_t v = low ? ( (uint64_t)f.lo - (uint64_t)INT64_MIN > gap ? (int64_t)( (uint64_t)f.lo - 1 - gap ) : f.lo - 1 )
                   : ( (uint64_t)INT64_MAX - (uint64_t)f.hi > gap ? (int64_t)( (uint64_t)f.hi + 1 + gap ) : f.hi + 1 );
   fs[0].iv[bad] = v;
   note( str( "value", v, "outside", f.lo, f.hi, "at", bad, "of", n ) );
   int code = 0;
   try
   {
      ImageFile im( scratch + "/o.e57", "w" );
      CompressedVectorNode node( im, cv::proto( im, fs ), VectorNode( im, true ) );
      im.root().set( "points", node );
      cv::Bufs u( im, fs, n );
      CompressedVectorWriter w = node.writer( u.sb );
      cv::fill( u, fs, 0, n );
      try { w.write( n ); }
      catch ( E57Exception &ex ) { code = (int)ex.errorCode(); }
      w.close();
      im.cancel();
   }
   catch ( E57Exception &ex ) {}
   check( code == ErrorValueOutOfBounds, str( "error", code ) );
}

static void width( Rng &r )
{
   cv::Field f;
   cv::bounds( r, f );
   if ( r.chance( 30 ) ) { f.lo = r.edgy(); f.hi = r.edgy(); if ( f.lo > f.hi ) std::swap( f.lo, f.hi ); }
   static ImageFile *im;
   if ( !im ) im = new ImageFile( scratch + "/b.e57", "w" );
   note( str( "bits for", f.lo, f.hi ) );
   unsigned got = im->impl()->bitsNeeded( f.lo, f.hi );
   check( got == cv::bits( f.lo, f.hi ), str( "got", got, "expected", cv::bits( f.lo, f.hi ) ) );
}

static void one( Rng &r )
{
   if ( r.chance( 20 ) ) refusals( r );
   else if ( r.chance( 30 ) ) for ( int i = 0; i < 50; ++i ) width( r );
   else if ( r.chance( 15 ) ) cv::roundTrip( r, 3 );
   else cv::codec( r, 3 );
}
int main( int argc, char **argv ) { return run( argc, argv, one ); }
