// C14: arbitrary histories of attachments in two files against a model of the trees; the finished file is read back and compared.
#include "common.h"
#include "E57Format.h"
#include "NodeImpl.h"
#include "StructureNodeImpl.h"
#include <algorithm>
#include <memory>
using namespace e57;
using namespace nat;

template <class F> static int code( F f )
{
   try { f(); }
   catch ( E57Exception &ex ) { return (int)ex.errorCode(); }
   return 0;
}

struct M
{
   Node h;
   int file;
   NodeType type;
   int variant = 0;            // which limits
   M *parent = nullptr;
   std::string name;
   std::vector<M *> kids;
   bool fileRoot = false, hidden = false;
   M *cv = nullptr;            // the compressed vector this is the prototype or the codecs of
   M *proto = nullptr, *codecs = nullptr;
   M *top() { M *m = this; while ( m->parent ) m = m->parent; return m; }
   bool attached() { M *t = top(); return t->fileRoot || ( t->cv && t->cv->attached() ); }
   std::string path()
   {
      if ( !parent ) return "/";
      std::string p = parent->path();
      return ( p == "/" ? p : p + "/" ) + name;
   }
   M *child( const std::string &n )
   {
      for ( M *k : kids )
         if ( k->name == n ) return k;
      return nullptr;
   }
   bool constrained()
   {
      for ( M *m = parent; m; m = m->parent )
         if ( m->type == TypeVector && !m->variant && m->kids.size() > 1 ) return true;
      return false;
   }
   bool below( M *x ) { for ( M *m = this; m; m = m->parent ) if ( m == x ) return true; return false; }
};

static bool same( M *a, M *b )
{
   if ( a->type != b->type ) return false;
   if ( a->type == TypeStructure )
   {
      if ( a->kids.size() != b->kids.size() ) return false;
      for ( M *k : a->kids )
      {
         M *o = b->child( k->name );
         if ( !o || !same( k, o ) ) return false;
      }
      return true;
   }
   if ( a->variant != b->variant ) return false;
   if ( a->type == TypeVector )
   {
      if ( a->kids.size() != b->kids.size() ) return false;
      for ( size_t i = 0; i < a->kids.size(); ++i )
         if ( !same( a->kids[i], b->kids[i] ) ) return false;
   }
   if ( a->type == TypeCompressedVector ) return same( a->proto, b->proto ) && same( a->codecs, b->codecs );
   return true;
}

static Node scaled( ImageFile f, Rng &r, int64_t lo, int64_t hi, double s, double o ) { return ScaledIntegerNode( f, int64_t( r.range( 0, 9 ) ), lo, hi, s, o ); }
static Node leaf( Rng &r, ImageFile f, NodeType t, int v )
{
   switch ( t )
   {
      case TypeInteger: return v == 0 ? IntegerNode( f, r.range( 0, 10 ), int64_t( 0 ), int64_t( 10 ) ) : v == 1 ? IntegerNode( f, r.range( 0, 10 ), int64_t( 0 ), int64_t( 11 ) ) : IntegerNode( f, r.range( 0, 10 ), int64_t( -1 ), int64_t( 10 ) );
      case TypeScaledInteger:
         return v == 0 ? scaled( f, r, 0, 10, 0.5, 1. ) : v == 1 ? scaled( f, r, 0, 10, 0.25, 1. ) : v == 2 ? scaled( f, r, 0, 10, 0.5, 2. ) : v == 3 ? scaled( f, r, 0, 9, 0.5, 1. ) : scaled( f, r, -1, 10, 0.5, 1. );
      case TypeFloat:
         return v == 0 ? FloatNode( f, 0.5, PrecisionDouble, -1, 1 ) : v == 1 ? FloatNode( f, 0.25, PrecisionSingle, -1, 1 ) : v == 2 ? FloatNode( f, 0.75, PrecisionDouble, -1, 2 ) : FloatNode( f, 0.75, PrecisionDouble, -2, 1 );
      default: return StringNode( f, str( "s", r.below( 9 ) ) );
   }
}

static std::vector<std::unique_ptr<M>> all;

static void compare( M *m, const std::string &when )
{
   Node &n = m->h;
   check( n.isRoot() == !m->parent, when + "isRoot of " + m->path() );
   check( n.isAttached() == m->attached(), when + "isAttached of " + m->path() );
   check( n.pathName() == m->path(), when + "path is " + n.pathName() + ", should be " + m->path() );
   check( n.elementName() == m->name, when + "name is " + n.elementName() + ", should be " + m->name );
   check( n.parent() == ( m->parent ? m->parent->h : n ), when + "parent of " + m->path() );
   check( n.type() == m->type, when + "kind of " + m->path() );
   if ( m->type == TypeStructure || m->type == TypeVector )
   {
      auto view = [&]( auto s ) {
         check( (size_t)s.childCount() == m->kids.size(), when + str( "children of", m->path(), s.childCount(), "should be", m->kids.size() ) );
         for ( size_t i = 0; i < m->kids.size(); ++i )
         {
            check( s.get( (int64_t)i ) == m->kids[i]->h, when + str( "child", i, "of", m->path() ) );
            check( s.isDefined( m->kids[i]->name ) && s.get( m->kids[i]->name ) == m->kids[i]->h, when + "child by name " + m->kids[i]->path() );
            check( s.get( m->kids[i]->path() ) == m->kids[i]->h, when + "child by absolute path " + m->kids[i]->path() );
         }
         check( code( [&] { s.get( (int64_t)m->kids.size() ); } ) == ErrorChildIndexOutOfBounds && code( [&] { s.get( -1 ); } ) == ErrorChildIndexOutOfBounds, when + "child beyond the last" );
         for ( const char *w : { "a", "b", "zz", "0", "7", "a/a", "b/0", "0/a", "/", "/a", "/a/b/c", "/0" } )
         {
            std::string q = w;
            M *at = q[0] == '/' ? m->top() : m;
            if ( q[0] == '/' ) q.erase( 0, 1 );
            bool known = true;
            while ( at && !q.empty() )
            {
               size_t c = q.find( '/' );
               if ( at->type == TypeCompressedVector ) known = false;
               at = at->child( q.substr( 0, c ) );
               q = c == std::string::npos ? "" : q.substr( c + 1 );
            }
            if ( !known ) continue;
            check( s.isDefined( w ) == ( at != nullptr ), when + "isDefined " + w + " from " + m->path() );
            if ( at ) check( s.get( w ) == at->h, when + "get " + w + " from " + m->path() );
            else check( code( [&] { s.get( w ); } ) == ErrorPathUndefined, when + "get of an undefined path" );
         }
      };
      if ( m->type == TypeStructure ) view( StructureNode( n ) );
      else view( VectorNode( n ) );
   }
   else if ( m->type == TypeCompressedVector )
   {
      CompressedVectorNode c( n );
      check( c.prototype() == m->proto->h && Node( c.codecs() ) == m->codecs->h, when + "prototype and codecs" );
   }
}

static void readBack( M *m, Node n, const std::string &path )
{
   check( n.type() == m->type, "read back: kind of " + path );
   check( n.pathName() == path && n.isAttached(), "read back: path of " + path );
   if ( m->type == TypeStructure || m->type == TypeVector )
   {
      auto view = [&]( auto s ) {
         check( (size_t)s.childCount() == m->kids.size(), "read back: children of " + path );
         for ( size_t i = 0; i < m->kids.size(); ++i )
         {
            Node k = s.get( (int64_t)i );
            check( k.elementName() == m->kids[i]->name && k.parent() == n, "read back: name " + k.elementName() + " should be " + m->kids[i]->name );
            readBack( m->kids[i], k, ( path == "/" ? path : path + "/" ) + m->kids[i]->name );
         }
      };
      if ( m->type == TypeStructure ) view( StructureNode( n ) );
      else view( VectorNode( n ) );
      if ( m->type == TypeVector ) check( VectorNode( n ).allowHeteroChildren() == ( m->variant != 0 ), "read back: heterogeneous " + path );
   }
}

static void one( Rng &r )
{
   all.clear();
   std::string paths[2] = { scratch + "/a.e57", scratch + "/b.e57" };
   {
      ImageFile f[2] = { ImageFile( paths[0], "w" ), ImageFile( paths[1], "w" ) };
      bool numbers = r.chance( 25 );          // names XML cannot hold
      std::vector<std::string> names = { "a", "b", "c", "d" };
      if ( numbers ) names.insert( names.end(), { "0", "1", "2", "10" } );
      auto add = [&]( Node n, int file, NodeType t, int v ) {
         all.push_back( std::unique_ptr<M>( new M{ n, file, t, v } ) );
         return all.back().get();
      };
      for ( int i = 0; i < 2; ++i ) add( f[i].root(), i, TypeStructure, 0 )->fileRoot = true;
      std::string trace;
      int ops = 4 + (int)r.below( 40 );
      note( str( "history of", ops, numbers ) );
      for ( int op = 0; op < ops; ++op )
      {
         int file = r.chance( 90 ) ? 0 : 1;
         // a new element
         if ( r.chance( 55 ) )
         {
            int k = (int)r.below( 10 );
            if ( k < 4 ) add( StructureNode( f[file] ), file, TypeStructure, 0 );
            else if ( k < 7 ) { int h = r.chance( 35 ); add( VectorNode( f[file], h ), file, TypeVector, h ); }
            else if ( k < 9 )
            {
               NodeType t = r.pick<NodeType>( { TypeInteger, TypeScaledInteger, TypeFloat, TypeString } );
               int v = (int)r.below( t == TypeInteger ? 3 : t == TypeScaledInteger ? 5 : t == TypeFloat ? 4 : 1 );
               if ( r.chance( 60 ) ) v = 0;
               add( leaf( r, f[file], t, v ), file, t, v );
            }
            else
            {
               // a compressed vector, from elements that may not be allowed
               M *p = nullptr;
               if ( r.chance( 50 ) )
               {
                  p = all[r.below( all.size() )].get();
                  if ( p->hidden || p->type != TypeStructure || ( !p->parent && p->file == file && ( p->fileRoot || !p->kids.empty() ) ) ) p = nullptr;
               }
               if ( !p )
               {
                  StructureNode s( f[file] );
                  s.set( "x", IntegerNode( f[file], 0, 0, 10 ) );
                  p = add( s, file, TypeStructure, 0 );
                  M *x = add( s.get( "x" ), file, TypeInteger, 0 );
                  x->parent = p, x->name = "x", p->kids.push_back( x );
               }
               VectorNode cs( f[file], true );
               std::unique_ptr<CompressedVectorNode> c;
               int got = code( [&] { c.reset( new CompressedVectorNode( f[file], p->h, cs ) ); } );
               bool ok = !p->parent && p->file == file && !p->cv;
               if ( p->cv ) continue;
               trace += str( "cv", got, "; " );
               current = trace;
               check( ok == ( got == 0 ), str( "compressed vector with prototype", p->path(), "gives", got ) );
               if ( got ) { check( ( got == ErrorAlreadyHasParent && p->parent ) || ( got == ErrorDifferentDestImageFile && p->file != file ), str( "prototype refused with", got ) ); continue; }
               M *m = add( *c, file, TypeCompressedVector, 0 );
               m->proto = p, m->codecs = add( cs, file, TypeVector, 1 );
               for ( auto &x : all )
                  if ( x->below( p ) || x.get() == m->codecs ) x->hidden = true;
               p->cv = m->codecs->cv = m;
            }
            continue;
         }
         // attach something somewhere
         M *at = all[r.below( all.size() )].get(), *x = all[r.below( all.size() )].get();
         if ( r.chance( 40 ) ) at = all[0].get();
         for ( int t = 0; t < 6 && ( x->parent || x->fileRoot || x->file != at->file ) && r.chance( 80 ); ++t ) x = all[r.below( all.size() )].get();
         bool pair = r.chance( 35 );
         if ( pair )
         { // siblings in a homogeneous vector, or leaves of structures in it
            M *v = nullptr;
            for ( int t = 0; t < 8 && !v; ++t )
            {
               v = all[r.below( all.size() )].get();
               if ( v->type != TypeVector || v->variant || v->hidden ) v = nullptr;
            }
            if ( !v ) v = add( VectorNode( f[file], false ), file, TypeVector, 0 );
            auto fresh = [&]( NodeType t ) {
               int k = (int)r.below( t == TypeInteger ? 3 : t == TypeScaledInteger ? 5 : t == TypeFloat ? 4 : 1 );
               return add( leaf( r, f[v->file], t, k ), v->file, t, k );
            };
            NodeType t = r.pick<NodeType>( { TypeInteger, TypeScaledInteger, TypeFloat, TypeString } );
            M *first = v->kids.empty() ? nullptr : v->kids[0];
            at = v;
            if ( first ? first->type == TypeStructure : r.chance( 25 ) )
            {
               x = add( StructureNode( f[v->file] ), v->file, TypeStructure, 0 );
               std::vector<M *> like;
               if ( first ) like = first->kids;
               if ( r.chance( 50 ) ) std::reverse( like.begin(), like.end() );
               if ( r.chance( 20 ) && !like.empty() ) like.pop_back();
               for ( size_t i = 0; i < ( first ? like.size() : r.below( 4 ) ); ++i )
               {
                  if ( first && like[i]->type != TypeInteger && like[i]->type != TypeScaledInteger && like[i]->type != TypeFloat && like[i]->type != TypeString ) continue;
                  M *l = first ? add( leaf( r, f[v->file], like[i]->type, like[i]->variant ), v->file, like[i]->type, like[i]->variant ) : fresh( t );
                  if ( first && r.chance( 10 ) ) l = fresh( l->type );
                  l->name = first && !r.chance( 5 ) ? like[i]->name : names[i];
                  if ( x->child( l->name ) ) { l->name = ""; continue; }
                  StructureNode( x->h ).set( l->name, l->h );
                  l->parent = x, x->kids.push_back( l );
               }
            }
            else x = fresh( first && r.chance( 90 ) ? ( first->type >= TypeInteger && first->type <= TypeString ? first->type : t ) : t );
         }
         if ( at->hidden || ( at->type != TypeStructure && at->type != TypeVector ) ) continue;
         if ( x->hidden && !x->attached() ) continue;
         std::set<int> reasons;
         M *to = at;
         std::string path, last;
         bool append = at->type == TypeVector && r.chance( 85 );
         if ( append ) last = std::to_string( at->kids.size() );
         else
         {
            // a path through the tree
            bool abs = r.chance( 25 );
            std::vector<std::string> fs;
            M *w = abs ? at->top() : at;
            if ( abs && w->hidden ) continue;
            int depth = 1 + (int)r.below( 4 );
            for ( int d = 0; d < depth; ++d )
            {
               std::string n = w && w->type == TypeVector ? std::to_string( r.below( w->kids.size() + 2 ) ) : w && !w->kids.empty() && d + 1 < depth && r.chance( 70 ) ? r.pick( w->kids )->name : r.pick( names );
               fs.push_back( n );
               w = w ? w->child( n ) : nullptr;
            }
            if ( abs && r.chance( 6 ) ) fs.clear();
            path = abs ? "/" : "";
            for ( size_t i = 0; i < fs.size(); ++i ) path += ( i ? "/" : "" ) + fs[i];
            to = abs ? at->top() : at;
            for ( size_t i = 0; i + 1 < fs.size() && to; ++i )
            {
               M *c = to->child( fs[i] );
               if ( !c )
               {
                  reasons.insert( ErrorPathUndefined );
                  if ( to->constrained() ) reasons.insert( ErrorHomogeneousViolation );
               }
               else if ( c->type != TypeStructure && c->type != TypeVector ) reasons.insert( ErrorInternal );
               to = c && ( c->type == TypeStructure || c->type == TypeVector ) ? c : nullptr;
            }
            if ( fs.empty() ) reasons.insert( ErrorSetTwice ), to = nullptr;
            else last = fs.back();
         }
         if ( x->file != at->file ) reasons.insert( ErrorDifferentDestImageFile );
         if ( to )
         {
            if ( to->child( last ) ) reasons.insert( ErrorSetTwice );
            else if ( to->type == TypeVector && last != std::to_string( to->kids.size() ) ) reasons.insert( ErrorChildIndexOutOfBounds );
            if ( to->constrained() ) reasons.insert( ErrorHomogeneousViolation );
            if ( x->parent || x->attached() || to->top() == x ) reasons.insert( ErrorAlreadyHasParent );
            if ( to->type == TypeVector && !to->variant )
               for ( M *k : to->kids )
                  if ( !same( k, x ) ) reasons.insert( ErrorHomogeneousViolation );
         }
         trace += str( at->file, at->path(), append ? "append" : "set", path, x->file, x->path(), (int)x->type, "; " );
         current = trace;
         int got = code( [&] {
            if ( at->type == TypeStructure ) StructureNode( at->h ).set( path, x->h );
            else if ( append ) VectorNode( at->h ).append( x->h );
            else at->h.impl_->set( path, x->h.impl_, false );
         } );
         if ( reasons.empty() )
         {
            check( got == 0, str( "an allowed attachment is refused with", got ) );
            x->parent = to, x->name = last;
            to->kids.push_back( x );
         }
         else
            check( reasons.count( got ) == 1, str( "expected one of", reasons.size(), "errors such as", *reasons.begin(), "but got", got ) );
         if ( r.chance( 8 ) )
            for ( auto &m : all ) compare( m.get(), "after attachment: " );
         for ( M *m : { at, to, x } )
            if ( m ) compare( m, "after attachment: " );
      }
      for ( auto &m : all ) compare( m.get(), "" );
      if ( numbers ) f[0].cancel();
      else f[0].close();
      f[1].cancel();
      if ( !numbers )
      {
         ImageFile g( paths[0], "r" );
         readBack( all[0].get(), g.root(), "/" );
         g.close();
      }
   }
   all.clear();
}
int main( int argc, char **argv ) { return run( argc, argv, one ); }
