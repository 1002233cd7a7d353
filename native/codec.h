// One field through its encoder and its decoder directly: requests, drains, feeds and destination sizes are all arbitrary.
#pragma once
#include "cv.h"
#include "CompressedVectorNodeImpl.h"
#include "Decoder.h"
#include "Encoder.h"
#include "ImageFileImpl.h"
#include "SourceDestBufferImpl.h"

namespace cv
{
   inline void codec( Rng &r, unsigned kinds )
   {
      static ImageFile *im;
      if ( !im ) im = new ImageFile( nat::scratch + "/k.e57", "w" );
      std::vector<Field> fs = fields( r, 1, kinds );
      size_t n = r.range( 1, r.chance( 20 ) ? 6000 : 300 );
      if ( fs[0].kind == Field::Str ) n = r.range( 1, 60 );
      records( r, fs, n );
      CompressedVectorNode node( *im, proto( *im, fs ), VectorNode( *im, true ) );
      node.impl()->setRecordCount( (int64_t)n );
      nat::note( shape( fs, n ) );
      ustring none;
      Bufs u( *im, fs, n );
      fill( u, fs, 0, n );
      std::shared_ptr<Encoder> enc = Encoder::EncoderFactory( 0, node.impl(), u.sb, none );
      std::string out;
      unsigned step = (unsigned)r.pick<int>( { 1, 3, 50, 400, 100000 } );
      size_t idle = 0;
      auto drain = [&]( bool all ) {
         size_t a = enc->outputAvailable();
         size_t m = all || r.chance( 40 ) ? a : r.below( a + 1 );
         std::string s( m, '\0' );
         if ( m || r.chance( 10 ) ) enc->outputRead( &s[0], m );
         check( enc->outputAvailable() == a - m, "bytes available after a drain" );
         out += s;
      };
      bool flushed = false;
      size_t done = 0;
      while ( done < n )
      {
         uint64_t p = enc->processRecords( (size_t)std::min<uint64_t>( 1 + r.below( step ), n - done ) );
         check( p >= done && p <= n, str( "encoder reports", p, "records after", done, "of", n ) );
         check( p == enc->currentRecordIndex(), "record index" );
         idle = p == done ? idle + 1 : 0;
         check( idle < 2000, "encoder makes no progress" );
         done = p;
         if ( r.chance( 30 ) || idle ) drain( idle > 20 );
      }
      for ( idle = 0; !flushed; ++idle )
      {
         flushed = enc->registerFlushToOutput();
         if ( !flushed || r.chance( 50 ) ) drain( idle > 20 );
         check( idle < 200000, "flush makes no progress" );
      }
      drain( true );
      holds( out, fs[0] );

      // back through buffers of any size, fed in pieces of any size
      size_t cap = r.chance( 40 ) ? n : r.range( 1, (int64_t)n );
      Bufs v( *im, fs, cap );
      std::shared_ptr<Decoder> dec = Decoder::DecoderFactory( 0, node.impl().get(), v.sb, none );
      std::string in = encode( fs[0] );
      if ( r.chance( 50 ) ) in += std::string( r.below( 8 ), '\0' ); // to a word boundary, or less
      size_t piece = (size_t)r.pick<int>( { 1, 2, 7, 100, 1500, 70000 } );
      piece = std::max( piece, in.size() / 3000 );
      size_t at = 0, got = 0, stuck = 0;
      while ( got < n )
      {
         size_t m = std::min<size_t>( in.size() - at, r.below( piece + 1 ) );
         std::vector<char> tight( in.begin() + (long)at, in.begin() + (long)( at + m ) ); // nothing readable behind it
         size_t eaten = m ? dec->inputProcess( tight.data(), m ) : dec->inputProcess( nullptr, 0 );
         if ( fs[0].kind > Field::Scaled || fs[0].lo != fs[0].hi )
         {
            check( eaten <= m, str( "decoder took", eaten, "bytes of", m ) );
            at += eaten;
         }
         else eaten = 0;
         size_t k = v.sb[0].impl()->nextIndex();
         check( k <= cap && got + k <= n, str( "decoder stored", k, "records in a buffer of", cap, "after", got, "of", n ) );
         check( dec->totalRecordsCompleted() == got + k, str( "decoder reports", dec->totalRecordsCompleted(), "records, stored", got + k ) );
         if ( k == cap || got + k == n )
         {
            same( v, fs, got, k );
            got += k;
            v.sb[0].impl()->rewind();
            if ( r.chance( 30 ) )
            {
               cap = r.range( 1, (int64_t)n );
               v = Bufs( *im, fs, cap );
               dec->destBufferSetNew( v.sb );
            }
            stuck = 0;
         }
         stuck = eaten ? 0 : stuck + 1;
         check( stuck < 5000, str( "decoder makes no progress after", got, "of", n, "records" ) );
      }
      check( dec->totalRecordsCompleted() == n, "records completed at the end" );
   }
}
