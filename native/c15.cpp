// C15: arbitrary histories of opening, closing, reading, writing and dropping readers and writers, of closing and cancelling the file, against a model of
// what is open.
#include "common.h"
#include "cv.h"
#include <optional>
using namespace e57;
using namespace nat;

template <class F> static int code( F f )
{
   try { f(); }
   catch ( E57Exception &ex ) { return (int)ex.errorCode(); }
   return 0;
}

struct Vec
{
   CompressedVectorNode node;
   bool attached, written = false, opened = false;
};
template <class H> struct Obj
{
   std::vector<H> handles;
   bool open = true;
   size_t vec;
   std::unique_ptr<cv::Bufs> bufs;
   size_t count = 0;
};

static void history( Rng &r, const std::string &path, bool writing, std::vector<size_t> *counts )
{
   std::vector<cv::Field> fs( 2 );
   fs[0].path = "a", fs[0].lo = 0, fs[0].hi = 1000;
   fs[1].path = "b", fs[1].kind = cv::Field::Double, fs[1].flo = -1e9, fs[1].fhi = 1e9;
   cv::records( r, fs, 60 );
   std::string before = writing ? "" : read_file( path );
   std::string trace = writing ? "w:" : "r:";
   {
      ImageFile f( path, writing ? "w" : "r" );
      StructureNode root = f.root();
      std::vector<Vec> vs;
      if ( writing )
      {
         for ( int i = 0; i < 3; ++i )
         {
            vs.push_back( Vec{ CompressedVectorNode( f, cv::proto( f, fs ), VectorNode( f, true ) ), i < 2 } );
            if ( i < 2 ) root.set( i ? "v1" : "v0", vs[i].node );
         }
         root.set( "blob", BlobNode( f, 40 ) );
         root.set( "i", IntegerNode( f, 3, 0, 9 ) );
         root.set( "s", ScaledIntegerNode( f, 3, 0, 9, 2.0, 1.0 ) );
         root.set( "f", FloatNode( f, 0.5, PrecisionDouble, -1, 1 ) );
         root.set( "t", StringNode( f, "text" ) );
         root.set( "n", VectorNode( f, true ) );
      }
      else
      {
         for ( const char *n : { "v0", "v1" } )
            if ( ( *counts )[vs.size()] != SIZE_MAX )
            {
               vs.push_back( Vec{ CompressedVectorNode( root.get( n ) ), true } );
               vs.back().written = true;
               check( vs.back().node.childCount() == (int64_t)( *counts )[vs.size() - 1], "a vector read back with another number of records" );
            }
         vs.push_back( Vec{ CompressedVectorNode( f, cv::proto( f, fs ), VectorNode( f, true ) ), false } );
      }
      BlobNode blob( root.get( "blob" ) );
      IntegerNode in( root.get( "i" ) );
      ScaledIntegerNode sn( root.get( "s" ) );
      FloatNode fn( root.get( "f" ) );
      StringNode tn( root.get( "t" ) );
      VectorNode vn( root.get( "n" ) );
      IntegerNode spare( f, 1, 0, 2 );
      std::vector<std::unique_ptr<Obj<CompressedVectorWriter>>> ws;
      std::vector<std::unique_ptr<Obj<CompressedVectorReader>>> rs;
      bool open = true;
      auto W = [&]() { int n = 0; for ( auto &w : ws ) n += w->open; return n; };
      auto R = [&]() { int n = 0; for ( auto &x : rs ) n += x->open; return n; };
      auto counted = [&]( const char *what ) {
         current = trace;
         check( f.writerCount() == W() && f.readerCount() == R(),
                str( what, ": counts", f.writerCount(), "writers and", f.readerCount(), "readers, but", W(), "and", R(), "are open" ) );
         check( f.isOpen() == open, "isOpen is wrong" );
         check( W() <= 1 && ( !W() || !R() ), str( what, ": a writer is open together with another reader or writer" ) );
      };
      uint8_t data[64] = { 1, 2, 3 };
      std::string shut;
      size_t steps = r.range( 5, 40 );
      for ( size_t step = 0; step < steps; ++step )
      {
         size_t op = r.below( 15 );
         if ( op == 13 && !r.chance( 8 ) ) op = 0;
         trace += " " + std::to_string( op );
         current = trace;
         size_t k = r.below( vs.size() );
         Vec &v = vs[k];
         switch ( op )
         {
            case 0: // open a writer
            {
               if ( writing && open && v.opened && !W() && !R() && v.attached ) break; // a vector is written once
               auto o = std::make_unique<Obj<CompressedVectorWriter>>();
               std::unique_ptr<cv::Bufs> b;
               if ( !open ) break;
               b = std::make_unique<cv::Bufs>( f, fs, 60 );
               bool none = r.chance( 10 ), few = r.chance( 10 );
               if ( none ) b->sb.clear();
               else if ( few ) b->sb.pop_back();
               int c = code( [&] { o->handles.push_back( v.node.writer( b->sb ) ); } );
               int want = W() ? ErrorTooManyWriters : R() ? ErrorTooManyReaders : none ? ErrorBadAPIArgument : !writing ? ErrorFileReadOnly : !v.attached ? ErrorNodeUnattached : few ? ErrorNoBufferForElement : 0;
               bool several = ( W() != 0 ) + ( R() != 0 ) + none + !writing + !v.attached + ( few && !none ) > 1;
               check( several ? c != 0 : c == want, str( "opening a writer gave", c, "instead of", want ) );
               if ( !c )
               {
                  v.opened = true;
                  o->vec = k;
                  o->bufs = std::move( b );
                  ws.push_back( std::move( o ) );
               }
               break;
            }
            case 1:
            case 2: // open a reader
            {
               if ( !open ) break;
               auto o = std::make_unique<Obj<CompressedVectorReader>>();
               auto b = std::make_unique<cv::Bufs>( f, fs, 7 );
               bool none = r.chance( 10 );
               if ( none ) b->sb.clear();
               int c = code( [&] { o->handles.push_back( v.node.reader( b->sb ) ); } );
               bool bad = W() || R() || none || !v.attached || !v.written;
               check( bad == ( c != 0 ), str( "opening a reader gave", c ) );
               if ( W() && !R() && !none && v.attached ) check( c == ErrorTooManyWriters, "opening a reader beside a writer: wrong error" );
               if ( !W() && R() && !none && v.attached ) check( c == ErrorTooManyReaders, "opening a second reader: wrong error" );
               if ( !W() && !R() && !none && !v.attached ) check( c == ErrorNodeUnattached, "reader of an unattached vector: wrong error" );
               if ( !c )
               {
                  o->vec = k;
                  o->bufs = std::move( b );
                  rs.push_back( std::move( o ) );
               }
               break;
            }
            case 3:
            case 4: // write
               if ( !ws.empty() )
               {
                  auto &w = *ws[r.below( ws.size() )];
                  if ( w.count > 1000000 && w.open && open ) break; // its state is undocumented after a failed write
                  size_t n = r.below( 61 );
                  cv::fill( *w.bufs, fs, 0, n );
                  bool bad = n && r.chance( 10 );
                  if ( bad ) w.bufs->b[0].i[n - 1] = 5000;
                  int c = code( [&] { w.handles[r.below( w.handles.size() )].write( n ); } );
                  check( c == ( !open ? ( w.open ? ErrorImageFileNotOpen : c == ErrorWriterNotOpen ? c : (int)ErrorImageFileNotOpen ) : !w.open ? (int)ErrorWriterNotOpen : bad ? (int)ErrorValueOutOfBounds : 0 ), str( "write gave", c ) );
                  if ( !c ) w.count += n;
                  if ( bad && !c ) fail( "a value out of bounds was written" );
                  if ( bad && w.open && open ) w.count = SIZE_MAX / 2;
               }
               break;
            case 5: // close a writer, perhaps again
               if ( !ws.empty() )
               {
                  auto &w = *ws[r.below( ws.size() )];
                  int c = code( [&] { w.handles[r.below( w.handles.size() )].close(); } );
                  bool was = w.open;
                  w.open = false;
                  check( !open || w.count > 1000000 || c == 0, str( "closing a writer gave", c ) );
                  if ( was && open && !c )
                  {
                     vs[w.vec].written = true;
                     if ( w.count < 1000000 ) check( vs[w.vec].node.childCount() == (int64_t)w.count, "another number of records was written" );
                  }
               }
               break;
            case 6: // read
            case 7:
               if ( !rs.empty() )
               {
                  auto &x = *rs[r.below( rs.size() )];
                  unsigned got = 0;
                  auto kept = x.bufs->b[0].i;
                  int c = code( [&] { got = x.handles[r.below( x.handles.size() )].read(); } );
                  check( c == ( !open ? ( !x.open && c == ErrorReaderNotOpen ? c : (int)ErrorImageFileNotOpen ) : !x.open ? (int)ErrorReaderNotOpen : 0 ), str( "read gave", c ) );
                  if ( c ) check( kept == x.bufs->b[0].i, "a refused read changed the buffers" );
                  else
                  {
                     size_t left = (size_t)vs[x.vec].node.childCount() - x.count;
                     check( got == std::min<size_t>( 7, left ), str( "read returned", got, "with", left, "left" ) );
                     x.count += got;
                  }
               }
               break;
            case 8: // close a reader, perhaps again
               if ( !rs.empty() )
               {
                  auto &x = *rs[r.below( rs.size() )];
                  int c = code( [&] { x.handles[r.below( x.handles.size() )].close(); } );
                  x.open = false;
                  check( !open || c == 0, str( "closing a reader gave", c ) );
               }
               break;
            case 9: // drop a writer, or one handle to it
               if ( !ws.empty() )
               {
                  size_t i = r.below( ws.size() );
                  auto &w = *ws[i];
                  if ( r.chance( 30 ) ) w.handles.push_back( w.handles[0] );
                  else if ( w.handles.size() > 1 ) w.handles.pop_back();
                  else
                  {
                     bool was = w.open;
                     size_t k2 = w.vec, n = w.count;
                     ws.erase( ws.begin() + (long)i );
                     if ( was && open )
                     {
                        vs[k2].written = n < 1000000;
                        if ( n < 1000000 ) check( vs[k2].node.childCount() == (int64_t)n, "dropping an open writer did not finish the vector" );
                     }
                  }
               }
               break;
            case 10: // drop a reader, or one handle to it
               if ( !rs.empty() )
               {
                  size_t i = r.below( rs.size() );
                  auto &x = *rs[i];
                  if ( r.chance( 30 ) ) x.handles.push_back( x.handles[0] );
                  else if ( x.handles.size() > 1 ) x.handles.pop_back();
                  else rs.erase( rs.begin() + (long)i );
               }
               break;
            case 11: // the blob
            {
               bool wr = r.chance( 50 );
               uint8_t copy[64];
               memcpy( copy, data, 64 );
               int c = code( [&] { wr ? blob.write( data, 0, 8 ) : blob.read( copy, 0, 8 ); } );
               check( c == ( !open ? (int)ErrorImageFileNotOpen : wr && !writing ? (int)ErrorFileReadOnly : 0 ), str( wr ? "blob write gave" : "blob read gave", c ) );
               if ( c ) check( !memcmp( copy, data, 64 ), "a refused read changed the buffer" );
               if ( !W() && r.chance( 20 ) )
               {
                  c = code( [&] { BlobNode b( f, 12 ); } );
                  check( c == ( !open ? (int)ErrorImageFileNotOpen : !writing ? (int)ErrorFileReadOnly : 0 ), str( "creating a blob gave", c ) );
               }
               break;
            }
            case 12: // everything else that needs the file
            {
               Node node = r.chance( 50 ) ? Node( in ) : Node( root );
               StructureNode st = root;
               std::vector<std::function<void()>> ops = {
                  [&] { in.value(); }, [&] { in.minimum(); }, [&] { in.maximum(); }, [&] { sn.rawValue(); }, [&] { sn.scaledValue(); }, [&] { sn.minimum(); }, [&] { sn.scaledMinimum(); },
                  [&] { sn.maximum(); }, [&] { sn.scaledMaximum(); }, [&] { sn.scale(); }, [&] { sn.offset(); }, [&] { fn.value(); }, [&] { fn.precision(); }, [&] { fn.minimum(); },
                  [&] { fn.maximum(); }, [&] { tn.value(); }, [&] { vn.childCount(); }, [&] { vn.allowHeteroChildren(); }, [&] { vn.isDefined( "0" ); }, [&] { st.childCount(); },
                  [&] { st.isDefined( "i" ); }, [&] { st.get( "i" ); }, [&] { st.get( 0 ); }, [&] { node.isRoot(); }, [&] { node.parent(); }, [&] { node.pathName(); },
                  [&] { node.elementName(); }, [&] { node.isAttached(); }, [&] { blob.byteCount(); }, [&] { v.node.childCount(); }, [&] { v.node.prototype(); }, [&] { v.node.codecs(); },
                  [&] { f.root(); }, [&] { f.extensionsCount(); }, [&] { ustring u; f.extensionsLookupPrefix( "zz", u ); }, [&] { ustring u; f.extensionsLookupUri( "zz", u ); } };
               std::vector<std::function<void()>> news = {
                  [&] { IntegerNode x( f, 1, 0, 2 ); }, [&] { ScaledIntegerNode x( f, 1, 0, 2 ); }, [&] { FloatNode x( f, 1.0 ); }, [&] { StringNode x( f, "x" ); }, [&] { StructureNode x( f ); }, [&] { VectorNode x( f ); } };
               for ( size_t i = 0; i < ops.size(); ++i )
                  if ( int c = code( ops[i] ); c != ( open ? 0 : (int)ErrorImageFileNotOpen ) ) fail( str( "operation", i, "on an", open ? "open" : "closed", "file gave", c ) );
               for ( size_t i = 0; i < news.size(); ++i )
                  if ( int c = code( news[i] ); c != ( open ? 0 : (int)ErrorImageFileNotOpen ) ) fail( str( "creating element", i, "on an", open ? "open" : "closed", "file gave", c ) );
               if ( !open )
               {
                  check( code( [&] { st.set( "spare", spare ); } ) == ErrorImageFileNotOpen, "set on a closed file was not refused" );
                  check( code( [&] { vn.append( spare ); } ) == ErrorImageFileNotOpen, "append on a closed file was not refused" );
                  check( code( [&] { f.extensionsAdd( "ex", "uri" ); } ) == ErrorImageFileNotOpen, "extensionsAdd on a closed file was not refused" );
               }
               break;
            }
            case 13: // close the file
               if ( open && writing && W() ) break; // the writers first
               f.close();
               open = false;
               if ( shut.empty() ) shut = read_file( path );
               break;
            default: // look at the objects
               for ( auto &w : ws )
                  if ( open ) check( w->handles[0].isOpen() == w->open, "isOpen of a writer is wrong" );
               for ( auto &x : rs )
                  if ( open ) check( x->handles[0].isOpen() == x->open, "isOpen of a reader is wrong" );
         }
         counted( ( "after operation " + std::to_string( op ) ).c_str() );
      }
      if ( counts )
         for ( auto &w : ws )
            if ( w->open ) code( [&] { w->handles[0].close(); } ), w->open = false, vs[w->vec].written = w->count < 1000000;
      if ( !open ) check( read_file( path ) == shut, "an operation on a closed file changed it" );
      if ( counts && writing )
      {
         counts->clear();
         for ( size_t i = 0; i < 2; ++i ) counts->push_back( vs[i].written && open ? (size_t)vs[i].node.childCount() : SIZE_MAX );
      }
      if ( open ) f.close();
      else if ( counts && writing ) counts->assign( 2, SIZE_MAX );
      f.close();
      open = false;
      counted( "at the end" );
   }
   if ( !writing ) check( read_file( path ) == before, "a file opened for reading was changed" );
}

static void one( Rng &r )
{
   std::string path = scratch + "/h.e57";
   std::vector<size_t> counts;
   note( "history" );
   history( r, path, true, &counts );
   note( str( "history", counts[0], counts[1] ) );
   history( r, path, false, &counts );
   // cancel
   if ( r.chance( 30 ) )
   {
      std::string other = scratch + "/c.e57";
      ImageFile f( other, "w" );
      f.cancel();
      check( !f.isOpen(), "open after cancel" );
      FILE *h = fopen( other.c_str(), "rb" );
      if ( h ) fclose( h );
      check( h == nullptr, "a cancelled file is still there" );
      check( code( [&] { f.root(); } ) == ErrorImageFileNotOpen, "root of a cancelled file" );
      f.cancel();
      f.close();
      ImageFile g( path, "r" );
      g.cancel();
      check( !g.isOpen(), "open after cancel" );
      h = fopen( path.c_str(), "rb" );
      check( h != nullptr, "cancelling a file being read deleted it" );
      if ( h ) fclose( h );
   }
}
int main( int argc, char **argv ) { return run( argc, argv, one ); }
