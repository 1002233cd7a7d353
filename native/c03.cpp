// LINK: -Wl,--wrap=read -Wl,--wrap=write -Wl,--wrap=lseek64
#include "common.h"
#include "wrap.h"
#include "CheckedFile.h"
#include "E57Exception.h"
#include <memory>
using namespace e57;
using namespace nat;

static void one( Rng &r )
{
   disk::reset();
   std::string fn = scratch + "/w", model;
   remove( fn.c_str() );
   size_t initial = 0;
   std::unique_ptr<CheckedFile> f( new CheckedFile( fn, CheckedFile::Write, 100 ) );
   std::string log;
   bool dead = false;
   for ( int k = r.range( 1, 14 ); k > 0 && !dead; --k )
   {
      int op = (int)r.below( 10 );
      if ( op < 6 )
      {
         uint64_t p = r.chance( 40 ) ? model.size() : r.chance( 30 ) ? std::min<uint64_t>( r.below( model.size() / 1020 + 1 ) * 1020 + r.below( 2 ), model.size() ) : r.below( model.size() + 1 );
         size_t n = r.chance( 25 ) ? r.below( 8 ) : r.chance( 20 ) ? 1020 - p % 1020 + r.below( 2 ) * 1020 : r.chance( 15 ) ? 1019 + r.below( 4 ) : r.below( r.chance( 10 ) ? 20000 : 3000 );
         std::string d = r.bytes( n );
         log += str( "write at", p, "n", n, "; " );
         bool viaPos = p == f->position() && r.chance( 50 );
         if ( !viaPos )
         {
            if ( r.chance( 20 ) ) f->seek( ( p / 1020 ) * 1024 + p % 1020, CheckedFile::Physical );
            else f->seek( p );
         }
         bool fault = r.chance( 8 );
         disk::reset();
         if ( fault )
         {
            int w = (int)r.below( n / 1020 + 2 );
            switch ( r.below( 4 ) ) { case 0: disk::failWriteAt = w; break; case 1: disk::shortWriteAt = w; break; case 2: disk::failReadAt = w; break; default: disk::failSeekAt = (int)r.below( 3 * w + 3 ); }
            log += str( "(fault)", disk::failWriteAt, disk::shortWriteAt, disk::failReadAt, disk::failSeekAt );
         }
         note( log );
         bool threw = false;
         try { f->write( d.data(), d.size() ); }
         catch ( E57Exception & ) { threw = true; }
         bool hit = disk::hit;
         disk::reset();
         check( threw == hit, hit ? "a failed or short disk call was not reported" : "write refused without cause" );
         if ( threw ) { dead = true; break; }
         if ( p + n > model.size() ) model.resize( p + n );
         memcpy( &model[p], d.data(), n );
         check( f->position() == p + n, "position after write" );
      }
      else if ( op < 7 )
      {
         size_t nl = model.size() + ( r.chance( 40 ) ? r.below( 8 ) : r.chance( 30 ) ? 1020 - model.size() % 1020 : r.below( 3000 ) );
         log += str( "extend", nl, "; " );
         note( log );
         f->extend( nl );
         model.resize( nl, 0 );
         check( f->position() == nl, "position after extend" );
      }
      else
      {
         uint64_t p = r.below( model.size() + 1 );
         size_t n = r.below( std::min<uint64_t>( model.size() - p, 4000 ) + 1 );
         std::string b( n, 'x' );
         log += str( "read at", p, "n", n, "; " );
         note( log );
         f->seek( p );
         f->read( &b[0], n );
         check( !memcmp( b.data(), &model[p], n ), "read back differs from what was written" );
      }
      note( log );
      check( f->length() == model.size(), str( "length", f->length(), "expected", model.size() ) );
   }
   (void)initial;
   if ( dead ) { try { f->close(); } catch ( E57Exception & ) {} return; }
   f->close();
   std::string img = read_file( fn );
   check( img.size() % 1024 == 0, "file is not whole pages" );
   check( img.size() / 1024 == ( model.size() + 1019 ) / 1020, "number of pages" );
   std::string log2;
   for ( size_t q = 0; q < img.size(); q += 1024 )
   {
      check( sealed( &img[q] ), str( "page", q / 1024, "carries a wrong checksum" ) );
      log2.append( img, q, 1020 );
   }
   check( log2.compare( 0, model.size(), model ) == 0, "bytes on disk differ from what was written" );
   CheckedFile ro( fn, CheckedFile::Read, 100 );
   int codes[2] = { 0, 0 };
   try { ro.write( "x", 1 ); } catch ( E57Exception &e ) { codes[0] = e.errorCode(); }
   try { ro.extend( 1 << 20 ); } catch ( E57Exception &e ) { codes[1] = e.errorCode(); }
   check( codes[0] == ErrorFileReadOnly && codes[1] == ErrorFileReadOnly, "a read-only file accepted a write" );
   ro.close();
   check( read_file( fn ) == img, "a read-only file was changed" );
}

int main( int argc, char **argv )
{
   return run( argc, argv, one );
}
