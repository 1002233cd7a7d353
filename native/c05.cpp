// C05: real and string fields through their encoders and decoders, alone and in whole files, against an independent encoder.
#include "common.h"
#include "codec.h"
using namespace e57;
using namespace nat;
static void one( Rng &r )
{
   if ( r.chance( 8 ) ) cv::roundTrip( r, r.chance( 50 ) ? 16 : 28 );
   else cv::codec( r, r.chance( 50 ) ? 16 : 28 );
}
int main( int argc, char **argv ) { return run( argc, argv, one ); }
