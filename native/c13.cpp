// C13: names and paths against an independent grammar.
#include "common.h"
#include "ImageFileImpl.h"
#include "E57Format.h"
using namespace e57;
using namespace nat;

template <class F> static int code( F f )
{
   try { f(); }
   catch ( E57Exception &ex ) { return (int)ex.errorCode(); }
   return 0;
}
static bool first( unsigned char c ) { return c >= 128 || isalpha( c ) || c == '_'; }
static bool name( const std::string &s )
{
   if ( s.empty() || !first( s[0] ) ) return false;
   for ( unsigned char c : s )
      if ( !( first( c ) || isdigit( c ) || c == '-' || c == '.' ) ) return false;
   return true;
}
static bool number( const std::string &s )
{
   if ( s.empty() ) return false;
   for ( unsigned char c : s )
      if ( !isdigit( c ) ) return false;
   return true;
}
// 0 illegal, 1 plain, 2 prefixed
static int kind( const std::string &s, std::string &p, std::string &l )
{
   size_t c = s.find( ':' );
   if ( c == std::string::npos )
   {
      p = "", l = s;
      return name( s );
   }
   p = s.substr( 0, c ), l = s.substr( c + 1 );
   return name( p ) && name( l ) ? 2 : 0;
}
static std::string word( Rng &r )
{
   std::string s;
   size_t n = r.chance( 5 ) ? r.range( 100, 3000 ) : r.chance( 10 ) ? 0 : r.range( 1, 8 );
   bool digits = r.chance( 15 ), clean = r.chance( 60 );
   static const char all[] = "/:@[`{_-.09azAZ \t\n\0\x7f\x80\xff^<&\"'!;";
   static const std::string edge( all, sizeof all - 1 );
   for ( size_t i = 0; i < n; ++i )
      s += digits ? char( '0' + r.below( 10 ) ) : clean ? char( "abzAZ_09-."[r.below( i ? 10 : 6 )] ) : r.chance( 50 ) ? edge[r.below( edge.size() )] : r.chance( 50 ) ? char( 'a' + r.below( 26 ) ) : char( r.below( 256 ) );
   if ( r.chance( 5 ) && n ) s[r.below( n )] = char( r.below( 256 ) );
   return s;
}
static std::string element( Rng &r )
{
   if ( r.chance( 30 ) ) return ( r.chance( 60 ) ? "ext" : word( r ) ) + ":" + word( r );
   return word( r );
}
static std::string show( const std::string &s )
{
   std::string o;
   char b[8];
   for ( unsigned char c : s.substr( 0, 60 ) ) snprintf( b, 8, isprint( c ) ? "%c" : "\\x%02x", c ), o += b;
   return o + ( s.size() > 60 ? "..." : "" );
}
static std::unique_ptr<ImageFile> file;

static bool legal( const std::string &s, int &want )
{
   std::string p, l;
   int k = kind( s, p, l );
   bool reg = p == "ext" || p == "e.x-t" || p == "\xc3\xa9";
   want = s.empty() ? ErrorPathNameEmpty : number( s ) ? 0 : !k ? ErrorPathNameMalformed : k == 2 && !reg ? ErrorPathNameExtensionNotRegistered : 0;
   return want == 0;
}

static void one( Rng &r )
{
   if ( !file )
   {
      file = std::make_unique<ImageFile>( scratch + "/n.e57", "w" );
      file->extensionsAdd( "ext", "http://x" );
      file->extensionsAdd( "e.x-t", "http://y" );
      file->extensionsAdd( "\xc3\xa9", "http://z" );
   }
   ImageFile &f = *file;
   auto impl = f.impl();
   std::string s = element( r ), p, l, gp = "old", gl = "old";
   note( show( s ) );
   int k = kind( s, p, l ), want, c;
   // splitting, with and without numbers
   c = code( [&] { ImageFileImpl::elementNameParse( s, gp, gl, false ); } );
   check( c == ( s.empty() ? (int)ErrorPathNameEmpty : k ? 0 : (int)ErrorPathNameMalformed ), str( "elementNameParse gave", c, "for a", k ? "legal" : "illegal", "name" ) );
   if ( !c ) check( gp == p && gl == l, "split at the wrong place: " + show( gp ) + " and " + show( gl ) );
   gp = gl = "old";
   c = code( [&] { f.elementNameParse( s, gp, gl ); } );
   check( c == ( s.empty() ? (int)ErrorPathNameEmpty : k || number( s ) ? 0 : (int)ErrorPathNameMalformed ), str( "ImageFile::elementNameParse gave", c ) );
   if ( !c && k ) check( gp == p && gl == l, "split at the wrong place" );
   check( f.isElementNameExtended( s ) == ( k == 2 ), "isElementNameExtended is wrong" );
   bool ok = legal( s, want );
   c = code( [&] { impl->checkElementNameLegal( s ); } );
   check( c == want, str( "checkElementNameLegal gave", c, "expected", want ) );
   // paths
   std::vector<std::string> parts;
   bool rel = r.chance( 50 ), good = true;
   std::string path = rel ? "" : "/";
   size_t n = r.below( 5 );
   for ( size_t i = 0; i < n; ++i )
   {
      std::string w;
      if ( r.chance( 80 ) )
         do w = r.chance( 20 ) ? "ext:" + word( r ) : word( r );
         while ( !legal( w, want ) );
      else w = element( r );
      path += ( i ? "/" : "" ) + w;
   }
   if ( r.chance( 5 ) ) path += "/";
   note( show( path ) );
   // the reference: cut at every slash
   rel = path.empty() || path[0] != '/';
   for ( size_t at = rel ? 0 : 1; ; )
   {
      size_t e = path.find( '/', at );
      parts.push_back( path.substr( at, e == std::string::npos ? e : e - at ) );
      if ( e == std::string::npos ) break;
      at = e + 1;
   }
   if ( path == "/" ) parts.clear();
   if ( path.empty() ) good = false;
   for ( auto &x : parts ) good = good && legal( x, want );
   bool gr = !rel;
   std::vector<ustring> got{ "old" };
   c = code( [&] { impl->pathNameParse( path, gr, got ); } );
   check( ( c == 0 ) == good, str( "pathNameParse gave", c, "for a", good ? "legal" : "bad", "path" ) );
   check( c == 0 || c == ErrorPathNameEmpty || c == ErrorPathNameMalformed || c == ErrorPathNameExtensionNotRegistered, str( "pathNameParse gave", c ) );
   check( impl->isPathNameLegal( path ) == good, "isPathNameLegal is wrong" );
   if ( good )
   {
      check( gr == rel && got == parts, "a path was split wrongly" );
      check( ImageFileImpl::pathNameUnparse( gr, got ) == path, "splitting and joining changed the path" );
   }
   // through the tree
   if ( good && parts.size() && r.chance( 20 ) )
   {
      StructureNode st( f );
      check( !st.isDefined( path ), "defined in an empty structure" );
      if ( ok && !number( s ) )
      {
         st.set( s, IntegerNode( f, 1 ) );
         check( st.isDefined( s ) && st.get( s ).elementName() == s && st.get( 0 ).pathName() == "/" + s && st.get( "/" + s ) == st.get( 0 ), "an element is not found under its name" );
      }
   }
   if ( !ok && r.chance( 20 ) )
   {
      StructureNode st( f );
      if ( s.find( '/' ) == std::string::npos )
         check( code( [&] { st.set( s, IntegerNode( f, 1 ) ); } ) != 0 && st.childCount() == 0, "an element was stored under an illegal name" );
   }
}
int main( int argc, char **argv )
{
   int k = run( argc, argv, one );
   return k;
}
