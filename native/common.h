// Shared driver for the bounded native cross-checks: case generation from (seed, index), reporting, scratch files.
#pragma once
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
#include <sys/stat.h>
#include <dirent.h>
#include <csignal>
#if __has_include( "E57Exception.h" )
#include "E57Exception.h"
#define E57_EXCEPTION_H_SEEN
#endif

extern "C" void __sanitizer_set_death_callback( void ( * )( void ) );

namespace nat
{
   struct Rng
   {
      uint64_t s;
      explicit Rng( uint64_t seed ) : s( seed * 0x9E3779B97F4A7C15ull + 0x1234567 ) { next(); next(); }
      uint64_t next()
      {
         s += 0x9E3779B97F4A7C15ull;
         uint64_t z = s;
         z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ull;
         z = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBull;
         return z ^ ( z >> 31 );
      }
      uint64_t below( uint64_t n ) { return n ? next() % n : 0; }
      int64_t range( int64_t a, int64_t b ) { return a + (int64_t)below( (uint64_t)b - (uint64_t)a + 1 ); }
      bool chance( int pct ) { return (int)below( 100 ) < pct; }
      template <class T> T pick( const std::vector<T> &v ) { return v[below( v.size() )]; }
      // integers that sit on interesting boundaries
      int64_t edgy()
      {
         switch ( below( 6 ) )
         {
            case 0: return (int64_t)next();
            case 1: return range( -3, 3 );
            case 2: { int b = (int)below( 64 ); return (int64_t)( ( 1ull << b ) + (uint64_t)range( -2, 2 ) ); }
            case 3: { int b = (int)below( 64 ); return -(int64_t)( ( 1ull << b ) + (uint64_t)range( -2, 2 ) ); }
            case 4: return range( -300, 300 );
            default: return (int64_t)( next() >> below( 64 ) );
         }
      }
      double edgyReal()
      {
         switch ( below( 8 ) )
         {
            case 0: { uint64_t b = next(); double d; memcpy( &d, &b, 8 ); return d; }
            case 1: return (double)edgy();
            case 2: return (double)edgy() + 0.5;
            case 3: return std::nextafter( (double)edgy(), chance( 50 ) ? 1e300 : -1e300 );
            case 4: { uint32_t b = (uint32_t)next(); float f; memcpy( &f, &b, 4 ); return f; }
            case 5: return pick<double>( { 0.0, -0.0, 1e-310, 3.4028234663852886e38, -3.4028234663852886e38, 3.5e38, 1.7976931348623157e308, HUGE_VAL, -HUGE_VAL, 2147483648.0, 4294967296.0, 9223372036854775808.0, -9223372036854775808.0 } );
            default: return ( (double)range( -1000000, 1000000 ) ) / ( 1 << below( 20 ) );
         }
      }
      std::string bytes( size_t n )
      {
         std::string s( n, 0 );
         for ( auto &c : s ) c = (char)next();
         return s;
      }
   };

   inline std::string scratch;     // scratch directory, removed at exit
   inline std::string current;     // description of the running case
   inline uint64_t seed = 1, index = 0;
   inline std::set<size_t> shapes; // distinct case shapes
   inline std::vector<std::string> samples;

   inline void onDeath()
   {
      char b[512];
      int n = snprintf( b, sizeof b, "\nCASE %llu:%llu %.380s\nFAIL sanitizer report while running this case\n", (unsigned long long)seed,
                        (unsigned long long)index, current.c_str() );
      if ( n > 0 ) { ssize_t r = ::write( 1, b, (size_t)n < sizeof b ? n : sizeof b ); (void)r; }
   }

   inline void cleanup()
   {
      if ( scratch.empty() ) return;
      if ( DIR *d = opendir( scratch.c_str() ) )
      {
         while ( dirent *e = readdir( d ) )
            if ( e->d_name[0] != '.' ) ::unlink( ( scratch + "/" + e->d_name ).c_str() );
         closedir( d );
      }
      rmdir( scratch.c_str() );
   }

   [[noreturn]] inline void fail( const std::string &what )
   {
      printf( "CASE %llu:%llu %s\nFAIL %s\n", (unsigned long long)seed, (unsigned long long)index, current.c_str(), what.c_str() );
      fflush( stdout );
      cleanup();
      _exit( 1 );
   }
   inline void check( bool ok, const std::string &what )
   {
      if ( !ok ) fail( what );
   }
   template <class... A> std::string str( const A &...a )
   {
      std::ostringstream o;
      o.precision( 17 );
      ( (void)( o << a << ' ' ), ... );
      return o.str();
   }
   inline void note( const std::string &shape ) { current = shape; shapes.insert( std::hash<std::string>()( shape ) ); }

   inline void write_file( const std::string &p, const std::string &d )
   {
      FILE *f = fopen( p.c_str(), "wb" );
      fwrite( d.data(), 1, d.size(), f );
      fclose( f );
   }
   inline std::string read_file( const std::string &p )
   {
      std::string r;
      FILE *f = fopen( p.c_str(), "rb" );
      if ( !f ) return r;
      char b[65536];
      size_t n;
      while ( ( n = fread( b, 1, sizeof b, f ) ) > 0 ) r.append( b, n );
      fclose( f );
      return r;
   }

   inline void onAlarm( int )
   {
      char b[512];
      int n = snprintf( b, sizeof b, "\nCASE %llu:%llu %.380s\nFAIL HANG: case did not finish\n", (unsigned long long)seed, (unsigned long long)index, current.c_str() );
      if ( n > 0 ) { ssize_t r = ::write( 1, b, (size_t)n < sizeof b ? n : sizeof b ); (void)r; }
      _exit( 1 );
   }

   inline std::string describe( const std::exception &e )
   {
#ifdef E57_EXCEPTION_H_SEEN
      if ( auto *x = dynamic_cast<const e57::E57Exception *>( &e ) )
         return x->what() + str( " ", e57::Utilities::errorCodeToString( x->errorCode() ), x->context(), "at", x->sourceFileName(), x->sourceLineNumber() );
#endif
      return e.what();
   }

   // custom: run one explicitly described case ("case <text>"), return false if not understood
   inline int run( int argc, char **argv, const std::function<void( Rng & )> &one, const std::function<void()> &fixed = nullptr,
                   const std::function<bool( const std::string & )> &custom = nullptr, int caseSeconds = 60 )
   {
      char dir[] = "/tmp/e57natXXXXXX";
      scratch = mkdtemp( dir );
      __sanitizer_set_death_callback( onDeath );
      signal( SIGALRM, onAlarm );
      setvbuf( stdout, nullptr, _IOLBF, 0 );
      if ( argc > 2 && std::string( argv[1] ) == "case" )
      {
         current = argv[2];
         alarm( caseSeconds );
         bool ok = custom && custom( argv[2] );
         cleanup();
         printf( ok ? "CASES 1 DISTINCT 1\n" : "not understood\n" );
         return ok ? 0 : 2;
      }
      seed = argc > 1 ? strtoull( argv[1], nullptr, 10 ) : 1;
      double ms = argc > 2 ? atof( argv[2] ) : 2000;
      uint64_t first = argc > 3 ? strtoull( argv[3], nullptr, 10 ) : 0, last = argc > 3 ? first : ~0ull;
      auto t0 = std::chrono::steady_clock::now();
      uint64_t n = 0;
      try
      {
         if ( fixed && argc <= 3 )
         {
            alarm( 300 );
            current = "fixed cases";
            fixed();
            n++;
         }
         for ( index = first; index <= last; ++index )
         {
            if ( std::chrono::duration<double, std::milli>( std::chrono::steady_clock::now() - t0 ).count() > ms && argc <= 3 ) break;
            alarm( caseSeconds );
            Rng r( seed * 1000003 + index );
            one( r );
            if ( index % 97 == 0 && samples.size() < 6 ) samples.push_back( current );
            ++n;
         }
      }
      catch ( std::exception &e )
      {
         fail( std::string( "unexpected exception: " ) + describe( e ) );
      }
      alarm( 0 );
      for ( auto &s : samples ) printf( "SAMPLE %s\n", s.substr( 0, 200 ).c_str() );
      printf( "CASES %llu DISTINCT %zu\n", (unsigned long long)n, shapes.size() );
      cleanup();
      return 0;
   }
}
