// Compressed vectors seen from outside: random prototypes and records, an independent encoder/decoder of the stream format,
// sections assembled by hand, and sections taken apart.
#pragma once
#include "packets.h"
#include "Common.h"
#include "E57Format.h"
#include <memory>

namespace cv
{
   using namespace e57;
   using nat::Rng;
   using nat::check;
   using nat::fail;
   using nat::str;

   struct Field
   {
      enum Kind { Int, Scaled, Single, Double, Str } kind = Int;
      std::string path;
      int64_t lo = 0, hi = 0; // integers
      double scale = 1, offset = 0;
      double flo = 0, fhi = 0; // reals
      std::vector<int64_t> iv;
      std::vector<double> dv;
      std::vector<std::string> sv;
      size_t size() const { return kind == Str ? sv.size() : kind == Int || kind == Scaled ? iv.size() : dv.size(); }
   };
   inline unsigned bits( int64_t lo, int64_t hi )
   {
      uint64_t d = (uint64_t)hi - (uint64_t)lo;
      unsigned n = 0;
      while ( d ) { ++n; d >>= 1; }
      return n;
   }
   inline void bounds( Rng &r, Field &f )
   {
      unsigned w = r.chance( 10 ) ? 0 : r.chance( 30 ) ? 64 : (unsigned)r.range( 1, 64 );
      if ( w == 64 )
      {
         f.lo = r.chance( 50 ) ? INT64_MIN : INT64_MIN + (int64_t)r.below( 5 );
         f.hi = r.chance( 50 ) ? INT64_MAX : (int64_t)r.below( 1ull << 62 );
      }
      else
      {
         uint64_t d = w ? ( 1ull << ( w - 1 ) ) + ( r.chance( 30 ) ? 0 : r.chance( 30 ) ? ( 1ull << ( w - 1 ) ) - 1 : r.below( 1ull << ( w - 1 ) ) ) : 0;
         uint64_t span = UINT64_MAX - d;
         uint64_t o = r.chance( 20 ) ? 0 : r.chance( 20 ) ? span : r.chance( 50 ) ? ( 1ull << 63 ) - std::min<uint64_t>( d, r.below( 1000 ) ) : r.next();
         if ( o > span ) o = span;
         f.lo = (int64_t)( o + ( 1ull << 63 ) );
         f.hi = (int64_t)( (uint64_t)f.lo + d );
      }
   }
   inline int64_t value( Rng &r, const Field &f )
   {
      uint64_t d = (uint64_t)f.hi - (uint64_t)f.lo;
      uint64_t x = r.chance( 10 ) ? 0 : r.chance( 10 ) ? d : d == UINT64_MAX ? r.next() : r.next() % ( d + 1 );
      return (int64_t)( (uint64_t)f.lo + x );
   }
   // kinds: bit mask of Field::Kind
   inline std::vector<Field> fields( Rng &r, size_t n, unsigned kinds = 31 )
   {
      std::vector<Field> v;
      bool group = false;
      for ( size_t i = 0; i < n; ++i )
      {
         Field f;
         do { f.kind = (Field::Kind)r.below( 5 ); } while ( !( kinds >> f.kind & 1 ) );
         if ( i && r.chance( 20 ) ) group = true; // from here on, below a structure
         f.path = std::string( group ? "g/" : "" ) + "f" + std::to_string( i );
         if ( f.kind == Field::Int || f.kind == Field::Scaled ) bounds( r, f );
         if ( f.kind == Field::Scaled )
         {
            f.scale = r.pick<double>( { 1, 0.5, 0.001, 1e-6, 3, -2 } );
            f.offset = r.pick<double>( { 0, 0, 1.25, -1000 } );
         }
         v.push_back( f );
      }
      return v;
   }
   inline std::string text( Rng &r )
   {
      size_t n = r.pick<size_t>( { 0, 1, 5, 126, 127, 128, 129, 300, r.below( 40 ), (size_t)( r.chance( 2 ) ? 70000 : 9 ) } );
      std::string s;
      for ( size_t i = 0; i < n; ++i ) s += r.chance( 3 ) ? '\0' : (char)r.range( 1, 255 );
      return s;
   }
   inline void records( Rng &r, std::vector<Field> &fs, size_t n )
   {
      for ( auto &f : fs )
         for ( size_t i = 0; i < n; ++i ) switch ( f.kind )
            {
               case Field::Int:
               case Field::Scaled: f.iv.push_back( value( r, f ) ); break;
               case Field::Single:
               {
                  uint32_t b = (uint32_t)r.next();
                  float x;
                  memcpy( &x, &b, 4 );
                  if ( !std::isfinite( x ) ) x = (float)r.range( -5, 5 );
                  f.dv.push_back( x );
                  break;
               }
               case Field::Double:
               {
                  double x = r.edgyReal();
                  f.dv.push_back( std::isfinite( x ) ? x : 0.5 );
                  break;
               }
               case Field::Str: f.sv.push_back( text( r ) ); break;
            }
   }
   inline Node leaf( ImageFile &f, const Field &x )
   {
      switch ( x.kind )
      {
         case Field::Int: return IntegerNode( f, x.lo, x.lo, x.hi );
         case Field::Scaled: return ScaledIntegerNode( f, x.lo, x.lo, x.hi, x.scale, x.offset );
         case Field::Single: return FloatNode( f, 0.0, PrecisionSingle );
         case Field::Double: return FloatNode( f, 0.0, PrecisionDouble );
         default: return StringNode( f, "" );
      }
   }
   inline StructureNode proto( ImageFile &f, const std::vector<Field> &fs )
   {
      StructureNode p( f ), g( f );
      bool group = false;
      for ( auto &x : fs )
      {
         if ( x.path[0] == 'g' )
         {
            if ( !group ) p.set( "g", g );
            group = true;
            g.set( x.path.substr( 2 ), leaf( f, x ) );
         }
         else p.set( x.path, leaf( f, x ) );
      }
      return p;
   }
   // user-side buffers, one per field
   struct Buf
   {
      std::vector<int64_t> i;
      std::vector<float> s;
      std::vector<double> d;
      std::vector<ustring> t;
   };
   struct Bufs
   {
      std::vector<Buf> b;
      std::vector<SourceDestBuffer> sb;
      Bufs( ImageFile &f, const std::vector<Field> &fs, size_t cap, bool strided = false )
      {
         b.resize( fs.size() );
         for ( size_t k = 0; k < fs.size(); ++k )
         {
            size_t m = strided ? 2 : 1;
            switch ( fs[k].kind )
            {
               case Field::Int:
               case Field::Scaled:
                  b[k].i.assign( m * cap, -77 );
                  sb.emplace_back( f, fs[k].path, b[k].i.data(), cap, true, false, m * 8 );
                  break;
               case Field::Single:
                  b[k].s.assign( m * cap, -77 );
                  sb.emplace_back( f, fs[k].path, b[k].s.data(), cap, true, false, m * 4 );
                  break;
               case Field::Double:
                  b[k].d.assign( m * cap, -77 );
                  sb.emplace_back( f, fs[k].path, b[k].d.data(), cap, true, false, m * 8 );
                  break;
               default:
                  b[k].t.assign( cap, "old" );
                  sb.emplace_back( f, fs[k].path, &b[k].t );
            }
         }
      }
   };
   // put records [at, at+n) into the buffers
   inline void fill( Bufs &u, const std::vector<Field> &fs, size_t at, size_t n )
   {
      for ( size_t k = 0; k < fs.size(); ++k )
         for ( size_t i = 0; i < n; ++i ) switch ( fs[k].kind )
            {
               case Field::Int:
               case Field::Scaled: u.b[k].i[i] = fs[k].iv[at + i]; break;
               case Field::Single: u.b[k].s[i] = (float)fs[k].dv[at + i]; break;
               case Field::Double: u.b[k].d[i] = fs[k].dv[at + i]; break;
               default: u.b[k].t[i] = fs[k].sv[at + i];
            }
   }
   inline void same( const Bufs &u, const std::vector<Field> &fs, size_t at, size_t n )
   {
      for ( size_t k = 0; k < fs.size(); ++k )
         for ( size_t i = 0; i < n; ++i )
         {
            bool ok = true;
            switch ( fs[k].kind )
            {
               case Field::Int:
               case Field::Scaled: ok = u.b[k].i[i] == fs[k].iv[at + i]; break;
               case Field::Single: { float a = u.b[k].s[i], b = (float)fs[k].dv[at + i]; ok = !memcmp( &a, &b, 4 ); break; }
               case Field::Double: { double a = u.b[k].d[i], b = fs[k].dv[at + i]; ok = !memcmp( &a, &b, 8 ); break; }
               default: ok = u.b[k].t[i] == fs[k].sv[at + i];
            }
            if ( !ok ) fail( str( "record", at + i, "of", fs[k].path, "differs from what was stored" ) );
         }
   }
   // ------------------------------------------------------------ the stream format
   inline std::string encode( const Field &f )
   {
      std::string s;
      if ( f.kind == Field::Int || f.kind == Field::Scaled )
      {
         unsigned w = bits( f.lo, f.hi );
         uint64_t n = 0;
         s.assign( ( w * f.iv.size() + 7 ) / 8, 0 );
         for ( auto v : f.iv )
            for ( unsigned b = 0; b < w; ++b, ++n )
               if ( ( (uint64_t)v - (uint64_t)f.lo ) >> b & 1 ) s[n / 8] |= (char)( 1 << ( n % 8 ) );
      }
      else if ( f.kind == Field::Single )
         for ( auto v : f.dv ) { float x = (float)v; s.append( (char *)&x, 4 ); }
      else if ( f.kind == Field::Double )
         for ( auto v : f.dv ) s.append( (char *)&v, 8 );
      else
         for ( auto &t : f.sv )
         {
            if ( t.size() <= 127 ) s += (char)( t.size() << 1 );
            else
            {
               uint64_t l = ( (uint64_t)t.size() << 1 ) | 1;
               s.append( (char *)&l, 8 );
            }
            s += t;
         }
      return s;
   }
   // does the stream hold exactly these records (followed by at most `slack` zero bytes)?
   inline void holds( const std::string &s, const Field &f, size_t slack = 7 )
   {
      std::string e = encode( f );
      check( s.size() >= e.size() && s.size() <= e.size() + slack, str( "stream of", f.path, "has", s.size(), "bytes, its records need", e.size() ) );
      if ( s.compare( 0, e.size(), e ) )
      {
         size_t i = 0;
         while ( s[i] == e[i] ) ++i;
         fail( str( "stream of", f.path, "differs at byte", i, "of", e.size() ) );
      }
      for ( size_t i = e.size(); i < s.size(); ++i ) check( s[i] == 0, str( "stream of", f.path, "ends in bits that are not zero" ) );
   }
   // ------------------------------------------------------------ sections
   struct Section
   {
      uint64_t start, length, data, index;         // as stored
      std::vector<std::string> packets;            // all, in order
      std::vector<uint64_t> at;                    // where (logical)
      std::vector<std::string> streams;            // joined
   };
   inline uint64_t attr( const std::string &xml, const std::string &name )
   {
      size_t p = xml.find( name + "=\"" );
      check( p != std::string::npos, "no attribute " + name + " in the XML" );
      return strtoull( xml.c_str() + p + name.size() + 2, nullptr, 10 );
   }
   inline Section section( const std::string &l, uint64_t start, size_t nstreams )
   {
      Section s;
      s.start = start;
      check( start + 32 <= l.size(), "section header outside the file" );
      check( l[start] == 1, "section id" );
      for ( int i = 1; i < 8; ++i ) check( l[start + i] == 0, "section reserved bytes" );
      s.length = img::get( l, start + 8, 8 );
      s.data = img::get( l, start + 16, 8 );
      s.index = img::get( l, start + 24, 8 );
      check( s.length % 4 == 0 && s.length <= l.size() - start, str( "section length", s.length ) );
      s.streams.resize( nstreams );
      uint64_t p = start + 32;
      while ( p < start + s.length )
      {
         check( p + 4 <= start + s.length, "packet header outside the section" );
         uint64_t n = img::get( l, p + 2, 2 ) + 1;
         check( n % 4 == 0 && n >= 8 && p + n <= start + s.length, str( "packet of", n, "bytes at", p, "in a section ending at", start + s.length ) );
         std::string k = l.substr( p, n );
         if ( k[0] == 1 )
         {
            size_t c = img::get( k, 4, 2 );
            if ( c == 0 ) check( n == 8, "a packet without streams" );
            else check( c == nstreams, str( "packet has", c, "streams, the prototype", nstreams ) );
            size_t q = 6 + 2 * c;
            for ( size_t i = 0; i < c; ++i )
            {
               size_t m = img::get( k, 6 + 2 * i, 2 );
               check( q + m <= n, "stream outside its packet" );
               s.streams[i] += k.substr( q, m );
               q += m;
            }
            check( c == 0 || n - q <= 3, "more than 3 padding bytes" );
            for ( ; q < n; ++q ) check( k[q] == 0, "padding byte not zero" );
         }
         s.packets.push_back( k );
         s.at.push_back( p );
         p += n;
      }
      return s;
   }
   // write a file with one vector "points"; chunks are record counts of the write calls
   inline void write( const std::string &path, const std::vector<Field> &fs, const std::vector<size_t> &chunks, size_t cap )
   {
      ImageFile f( path, "w" );
      f.extensionsAdd( "", "http://www.astm.org/COMMIT/E57/2010-e57-v1.0" );
      CompressedVectorNode v( f, proto( f, fs ), VectorNode( f, true ) );
      f.root().set( "points", v );
      Bufs u( f, fs, cap );
      CompressedVectorWriter w = v.writer( u.sb );
      size_t at = 0;
      for ( size_t n : chunks )
      {
         fill( u, fs, at, n );
         w.write( n );
         at += n;
      }
      w.close();
      f.close();
   }
   // the same file assembled by hand, streams cut into packets at arbitrary bytes, other packets in between
   inline std::string assemble( Rng &r, const std::string &xmlSource, const std::vector<Field> &fs, size_t n, std::vector<uint64_t> *packetsAt = nullptr )
   {
      std::string l = img::logical( nat::read_file( xmlSource ) );
      std::string x = img::xml( l );
      size_t p = x.find( "recordCount=\"" );
      check( p != std::string::npos, "no record count in the XML" );
      p += 13;
      x.replace( p, x.find( '"', p ) - p, std::to_string( n ) );
      std::vector<std::string> st;
      size_t total = 0;
      for ( auto &f : fs ) { st.push_back( encode( f ) ); total += st.back().size(); }
      std::vector<size_t> pos( fs.size() );
      std::string sec( 32, '\0' );
      sec[0] = 1;
      img::put( sec, 16, img::l2p( 48 + 32 ), 8 );
      size_t budget = r.chance( 30 ) ? 60000 : r.range( 40, 4000 );
      bool first = true;
      size_t left = total;
      while ( left || first )
      {
         std::vector<std::string> cut;
         size_t room = std::min<size_t>( budget, 65000 - 2 * fs.size() );
         for ( size_t k = 0; k < fs.size(); ++k )
         {
            size_t have = st[k].size() - pos[k];
            size_t m = r.chance( 10 ) ? 0 : std::min<size_t>( have, 1 + r.below( 1 + room / ( fs.size() - k ) ) );
            m = std::min( m, room );
            cut.push_back( st[k].substr( pos[k], m ) );
            pos[k] += m;
            room -= m;
            left -= m;
         }
         if ( packetsAt ) packetsAt->push_back( 48 + sec.size() );
         sec += pkt::dataOf( cut );
         first = false;
         if ( r.chance( 10 ) ) sec += pkt::empty( r );
         if ( r.chance( 10 ) ) sec += pkt::index( r );
      }
      img::put( sec, 8, sec.size(), 8 );
      l = l.substr( 0, 48 ) + sec;
      img::put( l, 24, img::l2p( l.size() ), 8 );
      return img::logical( img::withXml( l, x ) );
   }
}

namespace cv
{
   inline std::vector<size_t> chunks( Rng &r, size_t n, size_t cap )
   {
      std::vector<size_t> v;
      while ( n )
      {
         size_t m = std::min( { n, cap, (size_t)( r.chance( 50 ) ? cap : r.range( 1, 400 ) ) } );
         v.push_back( m );
         n -= m;
      }
      if ( r.chance( 10 ) ) v.push_back( 0 );
      return v;
   }
   inline std::string shape( const std::vector<Field> &fs, size_t n )
   {
      std::string s = str( n, "records of" );
      for ( auto &f : fs ) s += f.kind == Field::Single ? "single " : f.kind == Field::Double ? "double " : f.kind == Field::Str ? "string " : str( f.kind == Field::Int ? "int" : "scaled", f.lo, f.hi );
      return s;
   }
   // read all records back through buffers of the given capacity, checking every count
   inline void readBack( const std::string &path, const std::vector<Field> &all, size_t n, Rng &r )
   {
      ImageFile f( path, "r" );
      CompressedVectorNode v( f.root().get( "points" ) );
      check( v.childCount() == (int64_t)n, "record count differs" );
      // any subset of the fields, in any order
      std::vector<Field> fs;
      for ( auto &x : all )
         if ( fs.empty() || r.chance( 75 ) ) fs.insert( fs.begin() + (long)r.below( fs.size() + 1 ), x );
      size_t cap = r.chance( 30 ) ? n + r.below( 3 ) : r.range( 1, 1 + (int64_t)( r.chance( 50 ) ? 20 : n ) );
      if ( cap == 0 ) cap = 1;
      Bufs u( f, fs, cap );
      CompressedVectorReader rd = v.reader( u.sb );
      size_t at = 0;
      while ( true )
      {
         size_t got = rd.read();
         size_t want = std::min( cap, n - at );
         check( got == want, str( "read returned", got, "records, expected", want, "at", at, "capacity", cap ) );
         same( u, fs, at, got );
         at += got;
         if ( !got ) break;
      }
      check( rd.read() == 0, "records after the end" );
      rd.close();
      f.close();
   }
   // a vector written by the library: parts, streams, and values read back
   inline Section written( const std::string &path, const std::vector<Field> &fs, size_t n )
   {
      bool ok;
      std::string l = img::logical( nat::read_file( path ), &ok );
      check( ok, "checksums" );
      std::string x = img::xml( l );
      check( attr( x, "recordCount" ) == n, str( "the file says", attr( x, "recordCount" ), "records, written", n ) );
      Section s = section( l, img::p2l( attr( x, "fileOffset" ) ), fs.size() );
      check( img::p2l( s.data ) == s.start + 32, "the first data packet is right after the section header" );
      check( !s.packets.empty() && s.packets[0][0] == 1, "no data packet where the section header points" );
      for ( size_t k = 0; k < fs.size(); ++k ) holds( s.streams[k], fs[k] );
      return s;
   }
   inline void roundTrip( Rng &r, unsigned kinds )
   {
      std::string path = nat::scratch + "/v.e57", hand = nat::scratch + "/h.e57";
      auto fs = fields( r, r.chance( 60 ) ? 1 : r.range( 1, 4 ), kinds );
      bool strings = false;
      for ( auto &f : fs ) strings |= f.kind == Field::Str;
      size_t n = r.chance( 15 ) ? r.range( 5000, strings ? 6000 : 30000 ) : r.chance( 30 ) ? r.range( 1, 3 ) : r.range( 1, 1500 );
      nat::note( shape( fs, n ) );
      records( r, fs, n );
      size_t cap = r.chance( 50 ) ? n : r.range( 1, (int64_t)n );
      write( path, fs, chunks( r, n, cap ), cap );
      written( path, fs, n );
      readBack( path, fs, n, r );
      nat::write_file( hand, img::physical( assemble( r, path, fs, n ) ) );
      nat::note( "assembled by hand: " + shape( fs, n ) );
      readBack( hand, fs, n, r );
   }
}
