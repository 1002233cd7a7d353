// Shared by the buffer-conversion cross-checks: one element transfer against an exact (80-bit) oracle.
#pragma once
#include "common.h"
#include "Common.h"
#include "SourceDestBufferImpl.h"
#include <memory>
#include <type_traits>
using namespace e57;
using namespace nat;

inline std::unique_ptr<ImageFile> IMF;
inline void openFile()
{
   if ( !IMF ) IMF.reset( new ImageFile( scratch + "/sdb.e57", "w" ) );
}

template <class T> bool fits( long double v ) // certainly fits
{
   if ( std::isnan( v ) ) return false;
   if ( std::is_same<T, bool>::value ) return true;
   if ( std::is_same<T, double>::value ) return true;
   if ( std::is_same<T, float>::value ) return std::isinf( v ) ? false : fabsl( v ) <= (long double)std::numeric_limits<float>::max();
   return v >= (long double)std::numeric_limits<T>::lowest() && v <= (long double)std::numeric_limits<T>::max();
}
template <class T> bool unfit( long double v ) // certainly does not fit
{
   if ( std::is_same<T, bool>::value || std::is_same<T, double>::value ) return false;
   if ( std::is_same<T, float>::value ) return std::isfinite( v ) && fabsl( v ) >= ldexpl( 1, 128 ) - ldexpl( 1, 103 );
   if ( std::isnan( v ) ) return true;
   long double t = truncl( v );
   return t < (long double)std::numeric_limits<T>::lowest() || t > (long double)std::numeric_limits<T>::max();
}
template <class T> T expected( long double v )
{
   if ( std::is_same<T, bool>::value ) return (T)( v != 0 );
   if ( std::is_floating_point<T>::value ) return (T)v;
   return (T)truncl( v );
}
template <class T> bool same( T a, T b )
{
   if ( a != a && b != b ) return true;
   return memcmp( &a, &b, sizeof( T ) ) == 0 || a == b;
}
template <class T> T randomElem( Rng &r )
{
   if ( std::is_same<T, bool>::value ) return (T)r.chance( 50 );
   if ( std::is_floating_point<T>::value )
   {
      double d = r.edgyReal();
      if ( std::is_same<T, float>::value && !std::isnan( d ) && fabs( d ) > 3e38 && std::isfinite( d ) ) d = 1e30;
      return (T)d;
   }
   int64_t v = r.edgy();
   if ( r.chance( 30 ) ) v = (int64_t)( r.chance( 50 ) ? std::numeric_limits<T>::max() : std::numeric_limits<T>::lowest() );
   return (T)v;
}

template <class T> struct Buf
{
   std::vector<T> mem, before;
   size_t cap, step, next;
   bool conv, scal;
   std::unique_ptr<SourceDestBuffer> b;
   explicit Buf( Rng &r, bool scaling )
   {
      openFile();
      cap = 1 + r.below( 5 );
      step = 1 + r.below( 3 );
      conv = r.chance( 75 );
      scal = scaling;
      mem.resize( cap * step + 2 );
      for ( auto i = 0u; i < mem.size(); ++i ) mem[i] = randomElem<T>( r );
      before = mem;
      b.reset( new SourceDestBuffer( *IMF, "x", mem2(), cap, conv, scal, step * sizeof( T ) ) );
      next = r.below( cap + 1 );
      b->impl()->nextIndex_ = (unsigned)next;
   }
   T *mem2() { return mem.data(); }
   bool others( bool moved )
   {
      for ( size_t i = 0; i < mem.size(); ++i )
         if ( memcmp( &mem[i], &before[i], sizeof( T ) ) && !( moved && i == next * step ) ) return false;
      return true;
   }
};
template <> struct Buf<bool>
{
   std::unique_ptr<bool[]> mem;
   std::vector<char> before;
   size_t cap, step, next, n;
   bool conv, scal;
   std::unique_ptr<SourceDestBuffer> b;
   explicit Buf( Rng &r, bool scaling )
   {
      openFile();
      cap = 1 + r.below( 5 );
      step = 1 + r.below( 3 );
      conv = r.chance( 75 );
      scal = scaling;
      n = cap * step + 2;
      mem.reset( new bool[n] );
      for ( size_t i = 0; i < n; ++i ) { mem[i] = r.chance( 50 ); before.push_back( mem[i] ); }
      b.reset( new SourceDestBuffer( *IMF, "x", mem.get(), cap, conv, scal, step ) );
      next = r.below( cap + 1 );
      b->impl()->nextIndex_ = (unsigned)next;
   }
   bool others( bool moved )
   {
      for ( size_t i = 0; i < n; ++i )
         if ( (char)mem[i] != before[i] && !( moved && i == next * step ) ) return false;
      return true;
   }
};

// f performs the transfer; v: the exact numeric value moved
template <class T, class S, class F> void putCase( Rng &r, const char *what, bool scaling, S v, bool convOk, F f, long double exact )
{
   Buf<T> b( r, scaling );
   note( str( what, "into", typeid( T ).name(), "value", (double)v, "capacity", b.cap, "next", b.next, "conversion", b.conv ) );
   bool threw = false;
   try { f( *b.b->impl() ); }
   catch ( E57Exception & ) { threw = true; }
   bool room = b.next < b.cap, allowed = b.conv || convOk;
   if ( !threw )
   {
      check( room, "transferred past the capacity" );
      check( allowed, "converted without permission" );
      check( !unfit<T>( exact ), "delivered a value that does not fit" );
      if ( !std::isnan( exact ) || std::is_floating_point<T>::value ) check( same<T>( b.mem[b.next * b.step], expected<T>( exact ) ), "element received a different value" );
      check( b.b->impl()->nextIndex() == b.next + 1, "did not advance by one" );
   }
   else
   {
      check( !( room && allowed && fits<T>( exact ) ), "refused a value that fits" );
      check( b.b->impl()->nextIndex() == b.next, "advanced although the transfer failed" );
   }
   check( b.others( !threw ), "wrote outside the element" );
}
// f performs the transfer and returns the value
template <class T, class D, class F, class E> void getCase( Rng &r, const char *what, bool scaling, bool convOk, F f, E exactOf )
{
   Buf<T> b( r, scaling );
   long double exact = b.next < b.cap ? exactOf( b.mem[b.next * b.step] ) : 0;
   note( str( what, "from", typeid( T ).name(), "value", b.next < b.cap ? (double)b.mem[b.next * b.step] : 0, "capacity", b.cap, "next", b.next, "conversion", b.conv ) );
   bool threw = false;
   D got = 0;
   try { got = f( *b.b->impl() ); }
   catch ( E57Exception & ) { threw = true; }
   bool room = b.next < b.cap, allowed = b.conv || convOk;
   if ( !threw )
   {
      check( room, "transferred past the capacity" );
      check( allowed, "converted without permission" );
      check( !unfit<D>( exact ), "delivered a value that does not fit" );
      check( same<D>( got, expected<D>( exact ) ), str( "delivered a different value", got ) );
      check( b.b->impl()->nextIndex() == b.next + 1, "did not advance by one" );
   }
   else
   {
      check( !( room && allowed && fits<D>( exact ) ), "refused a value that fits" );
      check( b.b->impl()->nextIndex() == b.next, "advanced although the transfer failed" );
   }
   check( b.others( false ), "wrote to the source buffer" );
}
