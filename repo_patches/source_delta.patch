From a4cf2c6c33d1455d913018b1d626dd3d6f78b7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:00:07 +0000
Subject: [PATCH 01/27] fix: report a short page write instead of ignoring it

write(2) may store fewer bytes than asked, for example on a full disk.
writePhysicalPage() only looked for a negative result, so a truncated page
went unnoticed. It now raises ErrorWriteFailed, as readPhysicalPage() does
for short reads.
---
 src/CheckedFile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CheckedFile.cpp b/src/CheckedFile.cpp
index 84222fc..198a7ac 100644
--- a/src/CheckedFile.cpp
+++ b/src/CheckedFile.cpp
@@ -821,7 +821,7 @@ void CheckedFile::writePhysicalPage( char *page_buffer, uint64_t page )
 #error "no supported compiler defined"
 #endif
 
-   if ( result < 0 )
+   if ( result < 0 || static_cast<size_t>( result ) != physicalPageSize )
    {
       throw E57_EXCEPTION2( ErrorWriteFailed,
                             "fileName=" + fileName_ + " result=" + toString( result ) );
-- 
2.43.0


From cac16d0dfaefecaae1e0fd4767327b9d39af2afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:26 +0000
Subject: [PATCH 02/27] fix: do not invert values stored in a bool buffer

A non-zero value read into a bool destination buffer was stored as false,
and zero as true.
---
 src/SourceDestBufferImpl.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/SourceDestBufferImpl.cpp b/src/SourceDestBufferImpl.cpp
index 9da1777..ee779e2 100644
--- a/src/SourceDestBufferImpl.cpp
+++ b/src/SourceDestBufferImpl.cpp
@@ -238,7 +238,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         *reinterpret_cast<bool *>( p ) = ( inValue ? false : true );
+         *reinterpret_cast<bool *>( p ) = ( inValue ? true : false );
          break;
       case Real32:
          if ( std::is_same<T, double>::value )
@@ -781,7 +781,7 @@ void SourceDestBufferImpl::setNextInt64( int64_t value )
          *reinterpret_cast<int64_t *>( p ) = static_cast<int64_t>( value );
          break;
       case Bool:
-         *reinterpret_cast<bool *>( p ) = ( value ? false : true );
+         *reinterpret_cast<bool *>( p ) = ( value ? true : false );
          break;
       case Real32:
          if ( !doConversion_ )
@@ -908,7 +908,7 @@ void SourceDestBufferImpl::setNextInt64( int64_t value, double scale, double off
          *reinterpret_cast<int64_t *>( p ) = static_cast<int64_t>( scaledValue );
          break;
       case Bool:
-         *reinterpret_cast<bool *>( p ) = ( scaledValue ? false : true );
+         *reinterpret_cast<bool *>( p ) = ( scaledValue ? true : false );
          break;
       case Real32:
          if ( !doConversion_ )
-- 
2.43.0


From a565741619a42aee5a9b55854117c47d656e3d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:26 +0000
Subject: [PATCH 03/27] fix: reject reals that do not fit the integer buffer
 they are read into

NaN passed every range test. Because INT32_MAX, UINT32_MAX and INT64_MAX are
rounded up when converted to the type of the value, 2^31 and 2^32 (as float)
and 2^63 passed too. The conversion that follows is then undefined.
---
 src/SourceDestBufferImpl.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/SourceDestBufferImpl.cpp b/src/SourceDestBufferImpl.cpp
index ee779e2..089c048 100644
--- a/src/SourceDestBufferImpl.cpp
+++ b/src/SourceDestBufferImpl.cpp
@@ -154,7 +154,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
          }
          //??? fault if get special value: NaN, NegInf...  (all other ints below
          // too)
-         if ( inValue < INT8_MIN || INT8_MAX < inValue )
+         if ( !( inValue >= INT8_MIN && inValue <= INT8_MAX ) )
          {
             throw E57_EXCEPTION2( ErrorValueNotRepresentable,
                                   "pathName=" + pathName_ + " value=" + toString( inValue ) );
@@ -166,7 +166,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         if ( inValue < UINT8_MIN || UINT8_MAX < inValue )
+         if ( !( inValue >= UINT8_MIN && inValue <= UINT8_MAX ) )
          {
             throw E57_EXCEPTION2( ErrorValueNotRepresentable,
                                   "pathName=" + pathName_ + " value=" + toString( inValue ) );
@@ -178,7 +178,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         if ( inValue < INT16_MIN || INT16_MAX < inValue )
+         if ( !( inValue >= INT16_MIN && inValue <= INT16_MAX ) )
          {
             throw E57_EXCEPTION2( ErrorValueNotRepresentable,
                                   "pathName=" + pathName_ + " value=" + toString( inValue ) );
@@ -190,7 +190,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         if ( inValue < UINT16_MIN || UINT16_MAX < inValue )
+         if ( !( inValue >= UINT16_MIN && inValue <= UINT16_MAX ) )
          {
             throw E57_EXCEPTION2( ErrorValueNotRepresentable,
                                   "pathName=" + pathName_ + " value=" + toString( inValue ) );
@@ -202,7 +202,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         if ( inValue < INT32_MIN || ( inValue > static_cast<T>( INT32_MAX ) ) )
+         if ( !( inValue >= INT32_MIN && inValue <= static_cast<double>( INT32_MAX ) ) )
          {
             throw E57_EXCEPTION2( ErrorValueNotRepresentable,
                                   "pathName=" + pathName_ + " value=" + toString( inValue ) );
@@ -214,7 +214,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         if ( inValue < UINT32_MIN || ( inValue > ( static_cast<T>( UINT32_MAX ) ) ) )
+         if ( !( inValue >= UINT32_MIN && inValue <= static_cast<double>( UINT32_MAX ) ) )
          {
             throw E57_EXCEPTION2( ErrorValueNotRepresentable,
                                   "pathName=" + pathName_ + " value=" + toString( inValue ) );
@@ -226,7 +226,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         if ( inValue < INT64_MIN || ( inValue > ( static_cast<T>( INT64_MAX ) ) ) )
+         if ( !( inValue >= INT64_MIN && inValue < -static_cast<T>( INT64_MIN ) ) )
          {
             throw E57_EXCEPTION2( ErrorValueNotRepresentable,
                                   "pathName=" + pathName_ + " value=" + toString( inValue ) );
-- 
2.43.0


From 375589fa4cd249c18dd925ac05b952a3554d88a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:26 +0000
Subject: [PATCH 04/27] fix: reject scaled values that do not fit an integer

The scaled value was not range checked at all for an Int64 buffer, NaN passed
the check for the other integer types, and when unscaling a value of 2^63
passed the check against INT64_MAX.
---
 src/SourceDestBufferImpl.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/SourceDestBufferImpl.cpp b/src/SourceDestBufferImpl.cpp
index 089c048..fd5e2c4 100644
--- a/src/SourceDestBufferImpl.cpp
+++ b/src/SourceDestBufferImpl.cpp
@@ -492,7 +492,7 @@ int64_t SourceDestBufferImpl::getNextInt64( double scale, double offset )
    }
 
    /// Make sure that value is representable in an int64_t
-   if ( doubleRawValue < INT64_MIN || ( doubleRawValue > ( static_cast<double>( INT64_MAX ) ) ) )
+   if ( !( doubleRawValue >= INT64_MIN && doubleRawValue < -static_cast<double>( INT64_MIN ) ) )
    {
       throw E57_EXCEPTION2( ErrorScaledValueNotRepresentable,
                             "pathName=" + pathName_ + " value=" + toString( doubleRawValue ) );
@@ -851,7 +851,7 @@ void SourceDestBufferImpl::setNextInt64( int64_t value, double scale, double off
    switch ( memoryRepresentation_ )
    {
       case Int8:
-         if ( scaledValue < INT8_MIN || INT8_MAX < scaledValue )
+         if ( !( scaledValue >= INT8_MIN && scaledValue <= INT8_MAX ) )
          {
             throw E57_EXCEPTION2( ErrorScaledValueNotRepresentable,
                                   "pathName=" + pathName_ +
@@ -860,7 +860,7 @@ void SourceDestBufferImpl::setNextInt64( int64_t value, double scale, double off
          *reinterpret_cast<int8_t *>( p ) = static_cast<int8_t>( scaledValue );
          break;
       case UInt8:
-         if ( scaledValue < UINT8_MIN || UINT8_MAX < scaledValue )
+         if ( !( scaledValue >= UINT8_MIN && scaledValue <= UINT8_MAX ) )
          {
             throw E57_EXCEPTION2( ErrorScaledValueNotRepresentable,
                                   "pathName=" + pathName_ +
@@ -869,7 +869,7 @@ void SourceDestBufferImpl::setNextInt64( int64_t value, double scale, double off
          *reinterpret_cast<uint8_t *>( p ) = static_cast<uint8_t>( scaledValue );
          break;
       case Int16:
-         if ( scaledValue < INT16_MIN || INT16_MAX < scaledValue )
+         if ( !( scaledValue >= INT16_MIN && scaledValue <= INT16_MAX ) )
          {
             throw E57_EXCEPTION2( ErrorScaledValueNotRepresentable,
                                   "pathName=" + pathName_ +
@@ -878,7 +878,7 @@ void SourceDestBufferImpl::setNextInt64( int64_t value, double scale, double off
          *reinterpret_cast<int16_t *>( p ) = static_cast<int16_t>( scaledValue );
          break;
       case UInt16:
-         if ( scaledValue < UINT16_MIN || UINT16_MAX < scaledValue )
+         if ( !( scaledValue >= UINT16_MIN && scaledValue <= UINT16_MAX ) )
          {
             throw E57_EXCEPTION2( ErrorScaledValueNotRepresentable,
                                   "pathName=" + pathName_ +
@@ -887,7 +887,7 @@ void SourceDestBufferImpl::setNextInt64( int64_t value, double scale, double off
          *reinterpret_cast<uint16_t *>( p ) = static_cast<uint16_t>( scaledValue );
          break;
       case Int32:
-         if ( scaledValue < INT32_MIN || INT32_MAX < scaledValue )
+         if ( !( scaledValue >= INT32_MIN && scaledValue <= INT32_MAX ) )
          {
             throw E57_EXCEPTION2( ErrorScaledValueNotRepresentable,
                                   "pathName=" + pathName_ +
@@ -896,7 +896,7 @@ void SourceDestBufferImpl::setNextInt64( int64_t value, double scale, double off
          *reinterpret_cast<int32_t *>( p ) = static_cast<int32_t>( scaledValue );
          break;
       case UInt32:
-         if ( scaledValue < UINT32_MIN || UINT32_MAX < scaledValue )
+         if ( !( scaledValue >= UINT32_MIN && scaledValue <= UINT32_MAX ) )
          {
             throw E57_EXCEPTION2( ErrorScaledValueNotRepresentable,
                                   "pathName=" + pathName_ +
@@ -905,6 +905,12 @@ void SourceDestBufferImpl::setNextInt64( int64_t value, double scale, double off
          *reinterpret_cast<uint32_t *>( p ) = static_cast<uint32_t>( scaledValue );
          break;
       case Int64:
+         if ( !( scaledValue >= INT64_MIN && scaledValue < -static_cast<double>( INT64_MIN ) ) )
+         {
+            throw E57_EXCEPTION2( ErrorScaledValueNotRepresentable,
+                                  "pathName=" + pathName_ +
+                                     " scaledValue=" + toString( scaledValue ) );
+         }
          *reinterpret_cast<int64_t *>( p ) = static_cast<int64_t>( scaledValue );
          break;
       case Bool:
-- 
2.43.0


From 44ed3a66953d99158264fcdc215aef7099ae893f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:26 +0000
Subject: [PATCH 05/27] fix: compare with the single precision range before
 converting to float

Doubles beyond the float range were silently stored as infinity because the
checks compared with the limits of double.
---
 src/SourceDestBufferImpl.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/SourceDestBufferImpl.cpp b/src/SourceDestBufferImpl.cpp
index fd5e2c4..29c266e 100644
--- a/src/SourceDestBufferImpl.cpp
+++ b/src/SourceDestBufferImpl.cpp
@@ -246,7 +246,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
             /// Does this count as conversion?  It loses information.
             /// Check for really large exponents that can't fit in a single
             /// precision
-            if ( inValue < DOUBLE_MIN || DOUBLE_MAX < inValue )
+            if ( inValue < FLOAT_MIN || FLOAT_MAX < inValue )
             {
                throw E57_EXCEPTION2( ErrorValueNotRepresentable,
                                      "pathName=" + pathName_ + " value=" + toString( inValue ) );
@@ -588,7 +588,7 @@ float SourceDestBufferImpl::getNextFloat()
          double d = *reinterpret_cast<double *>( p );
 
          ///??? silently limit here?
-         if ( d < DOUBLE_MIN || DOUBLE_MAX < d )
+         if ( d < FLOAT_MIN || FLOAT_MAX < d )
          {
             throw E57_EXCEPTION2( ErrorReal64TooLarge,
                                   "pathName=" + pathName_ + " value=" + toString( d ) );
@@ -923,7 +923,7 @@ void SourceDestBufferImpl::setNextInt64( int64_t value, double scale, double off
          }
          /// Check that exponent of result is not too big for single precision
          /// float
-         if ( scaledValue < DOUBLE_MIN || DOUBLE_MAX < scaledValue )
+         if ( scaledValue < FLOAT_MIN || FLOAT_MAX < scaledValue )
          {
             throw E57_EXCEPTION2( ErrorScaledValueNotRepresentable,
                                   "pathName=" + pathName_ +
-- 
2.43.0


From 54d32afd86b85082534e32bac13f7dac4e2368ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:35 +0000
Subject: [PATCH 06/27] fix: reject reals that do not fit when written as
 integers

Writing NaN, infinity or a value outside the 64-bit range from a real buffer
into an integer field converted it without a check, which is undefined and
stored an arbitrary number.
---
 src/SourceDestBufferImpl.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/SourceDestBufferImpl.cpp b/src/SourceDestBufferImpl.cpp
index 29c266e..b8a7df9 100644
--- a/src/SourceDestBufferImpl.cpp
+++ b/src/SourceDestBufferImpl.cpp
@@ -33,6 +33,20 @@
 
 using namespace e57;
 
+namespace
+{
+   /// Convert a real to an integer, refusing values (including NaN) that an int64_t can't hold
+   int64_t int64FromReal( double value, const ustring &pathName )
+   {
+      if ( !( value >= INT64_MIN && value < -static_cast<double>( INT64_MIN ) ) )
+      {
+         throw E57_EXCEPTION2( ErrorValueNotRepresentable,
+                               "pathName=" + pathName + " value=" + toString( value ) );
+      }
+      return static_cast<int64_t>( value );
+   }
+}
+
 SourceDestBufferImpl::SourceDestBufferImpl( ImageFileImplWeakPtr destImageFile,
                                             const ustring &pathName, const size_t capacity,
                                             bool doConversion, bool doScaling ) :
@@ -364,16 +378,14 @@ int64_t SourceDestBufferImpl::getNextInt64()
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         //??? fault if get special value: NaN, NegInf...
-         value = static_cast<int64_t>( *reinterpret_cast<float *>( p ) );
+         value = int64FromReal( *reinterpret_cast<float *>( p ), pathName_ );
          break;
       case Real64:
          if ( !doConversion_ )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         //??? fault if get special value: NaN, NegInf...
-         value = static_cast<int64_t>( *reinterpret_cast<double *>( p ) );
+         value = int64FromReal( *reinterpret_cast<double *>( p ), pathName_ );
          break;
       case UString:
          throw E57_EXCEPTION2( ErrorExpectingNumeric, "pathName=" + pathName_ );
-- 
2.43.0


From 6a5972e8926cdf0d5db01b8469c9261a888f5e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:48 +0000
Subject: [PATCH 07/27] fix: reject blob ranges with a negative start or an end
 that overflows

A negative start plus a count could wrap around to a small number and pass the
range check. The access then went to bytes before the blob in the file.
---
 src/BlobNodeImpl.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/BlobNodeImpl.cpp b/src/BlobNodeImpl.cpp
index 12ba879..301370f 100644
--- a/src/BlobNodeImpl.cpp
+++ b/src/BlobNodeImpl.cpp
@@ -123,10 +123,9 @@ namespace e57
 
    void BlobNodeImpl::read( uint8_t *buf, int64_t start, size_t count )
    {
-      //??? check start not negative
-
       checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
-      if ( static_cast<uint64_t>( start ) + count > blobLogicalLength_ )
+      if ( start < 0 || static_cast<uint64_t>( start ) > blobLogicalLength_ ||
+           count > blobLogicalLength_ - static_cast<uint64_t>( start ) )
       {
          throw E57_EXCEPTION2( ErrorBadAPIArgument,
                                "this->pathName=" + this->pathName() +
@@ -142,7 +141,6 @@ namespace e57
 
    void BlobNodeImpl::write( uint8_t *buf, int64_t start, size_t count )
    {
-      //??? check start not negative
       checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
 
       ImageFileImplSharedPtr destImageFile( destImageFile_ );
@@ -156,7 +154,8 @@ namespace e57
          throw E57_EXCEPTION2( ErrorNodeUnattached, "fileName=" + destImageFile->fileName() );
       }
 
-      if ( static_cast<uint64_t>( start ) + count > blobLogicalLength_ )
+      if ( start < 0 || static_cast<uint64_t>( start ) > blobLogicalLength_ ||
+           count > blobLogicalLength_ - static_cast<uint64_t>( start ) )
       {
          throw E57_EXCEPTION2( ErrorBadAPIArgument,
                                "this->pathName=" + this->pathName() +
-- 
2.43.0


From c730264f90c60b9a23ebcb6d4fe43ced25888802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:48 +0000
Subject: [PATCH 08/27] fix: reject a negative byte count for a new blob

The count was used as unsigned. The file space reserved so far shrank by the
corresponding amount, so later sections overwrote earlier ones.
---
 src/BlobNodeImpl.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/BlobNodeImpl.cpp b/src/BlobNodeImpl.cpp
index 301370f..0e28fa1 100644
--- a/src/BlobNodeImpl.cpp
+++ b/src/BlobNodeImpl.cpp
@@ -38,6 +38,12 @@ namespace e57
    {
       // don't checkImageFileOpen, NodeImpl() will do it
 
+      // A negative count would move the end of the allocated file space backwards
+      if ( byteCount < 0 )
+      {
+         throw E57_EXCEPTION2( ErrorBadAPIArgument, "byteCount=" + toString( byteCount ) );
+      }
+
       ImageFileImplSharedPtr imf( destImageFile );
 
       // This what caller thinks blob length is
-- 
2.43.0


From be2c63ebb818c1bb58074104b00a903bd1dd5984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:41 +0000
Subject: [PATCH 09/27] fix: compute integer ranges without signed overflow

The difference between the bounds of an integer field, and between a value and
its minimum, can exceed the signed 64-bit range.
---
 src/Encoder.cpp       | 2 +-
 src/ImageFileImpl.cpp | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Encoder.cpp b/src/Encoder.cpp
index e0c403f..1c274f0 100644
--- a/src/Encoder.cpp
+++ b/src/Encoder.cpp
@@ -746,7 +746,7 @@ uint64_t BitpackIntegerEncoder<RegisterT>::processRecords( size_t recordCount )
                                                          " maximum=" + toString( maximum_ ) );
       }
 
-      auto uValue = static_cast<uint64_t>( rawValue - minimum_ );
+      auto uValue = static_cast<uint64_t>( rawValue ) - static_cast<uint64_t>( minimum_ );
 
 #ifdef E57_VERBOSE
       std::cout << "encoding integer rawValue=" << binaryString( rawValue ) << " = "
diff --git a/src/ImageFileImpl.cpp b/src/ImageFileImpl.cpp
index 0187868..c78b63e 100644
--- a/src/ImageFileImpl.cpp
+++ b/src/ImageFileImpl.cpp
@@ -786,7 +786,8 @@ namespace e57
       // position of the first 1 (from left) in the binary form of stateCountMinus1.
       //??? move to E57Utility?
 
-      uint64_t stateCountMinus1 = maximum - minimum;
+      uint64_t stateCountMinus1 =
+         static_cast<uint64_t>( maximum ) - static_cast<uint64_t>( minimum );
 
       unsigned log2 = 0;
 
-- 
2.43.0


From ba6505f4472e3334db7ddea8eed86a0a8108b0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:41 +0000
Subject: [PATCH 10/27] fix: allow padding to fill a data packet to its maximum
 size

A packet of 65533 to 65535 bytes could not be padded to 65536, so writing failed.
---
 src/CompressedVectorWriterImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CompressedVectorWriterImpl.cpp b/src/CompressedVectorWriterImpl.cpp
index 7099adf..619b2ec 100644
--- a/src/CompressedVectorWriterImpl.cpp
+++ b/src/CompressedVectorWriterImpl.cpp
@@ -565,7 +565,7 @@ namespace e57
       {
          // Double check we aren't accidentally going to write off end of
          // vector<char>
-         if ( p >= &packet[DATA_PACKET_MAX - 1] )
+         if ( p >= &packet[DATA_PACKET_MAX] )
          {
             throw E57_EXCEPTION1( ErrorInternal );
          }
-- 
2.43.0


From ce5136cce6bc0af9fdadffd67199e6a887d68979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:41 +0000
Subject: [PATCH 11/27] fix: stop decoding strings when the destination buffer
 is full

Reading strings in blocks smaller than the number of strings in the input
threw an internal error.
---
 src/Decoder.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Decoder.cpp b/src/Decoder.cpp
index 2024cfe..713869c 100644
--- a/src/Decoder.cpp
+++ b/src/Decoder.cpp
@@ -512,9 +512,10 @@ size_t BitpackStringDecoder::inputProcessAligned( const char *inbuf, const size_
    size_t nBytesAvailable = ( endBit - firstBit ) >> 3;
    size_t nBytesRead = 0;
 
-   // Loop until we've finished all the records, or ran out of input currently
-   // available
-   while ( currentRecordIndex_ < maxRecordCount_ && nBytesRead < nBytesAvailable )
+   // Loop until we've finished all the records, filled the dest buffer, or ran out of input
+   // currently available
+   while ( currentRecordIndex_ < maxRecordCount_ && nBytesRead < nBytesAvailable &&
+           destBuffer_->nextIndex() < destBuffer_->capacity() )
    {
 #ifdef E57_VERBOSE
       std::cout << "read string loop1: readingPrefix=" << readingPrefix_
-- 
2.43.0


From ea067750e8a0fd184a2286709125cfd1410d44bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:10 +0000
Subject: [PATCH 12/27] fix: give every compressed vector section a usable data
 packet

Writing zero records put a packet without bytestreams in the section, which made
records written before or after it unreadable. A section whose records are all
constant, or that was closed without a write, got no data packet at all.
---
 src/CompressedVectorWriterImpl.cpp | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/CompressedVectorWriterImpl.cpp b/src/CompressedVectorWriterImpl.cpp
index 619b2ec..bae06d2 100644
--- a/src/CompressedVectorWriterImpl.cpp
+++ b/src/CompressedVectorWriterImpl.cpp
@@ -26,6 +26,7 @@
  */
 
 #include <cmath>
+#include <cstring>
 #include <numeric>
 
 #include "CheckedFile.h"
@@ -183,6 +184,12 @@ namespace e57
          flush();
       }
 
+      // A section has at least one data packet, even if there is nothing to put in it.
+      if ( dataPacketsCount_ == 0 )
+      {
+         packetWriteZeroRecords();
+      }
+
       // Write one index packet (required by standard).
       packetWriteIndex();
 
@@ -290,9 +297,9 @@ namespace e57
       checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
       checkWriterOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
 
+      // Nothing to do. If no records are ever written, close() writes a packet without data.
       if ( requestedRecordCount == 0 )
       {
-         packetWriteZeroRecords();
          return;
       }
 
@@ -616,7 +623,8 @@ namespace e57
       return ( packetPhysicalOffset ); //??? needed
    }
 
-   // If we don't have any records, write a packet which is only the header + zero padding.
+   // If we don't have any data, write a packet which is only the header + zero padding. If there are
+   // records (with all fields constant), the packet has an empty buffer for each bytestream.
    // Code is a simplified version of packetWrite().
    void CompressedVectorWriterImpl::packetWriteZeroRecords()
    {
@@ -629,8 +637,22 @@ namespace e57
 
       auto packetLength = static_cast<unsigned int>( sizeof( DataPacketHeader ) );
 
-      // packetLength must be multiple of 4, add zero padding
       auto data = reinterpret_cast<char *>( &packet[sizeof( DataPacketHeader )] );
+
+      // Write a zero bytestreamBufferLength for each bytestream
+      if ( recordCount_ > 0 )
+      {
+         const size_t cLengthsSize = bytestreams_.size() * sizeof( uint16_t );
+
+         memset( data, 0, cLengthsSize );
+
+         data += cLengthsSize;
+         packetLength += static_cast<unsigned int>( cLengthsSize );
+
+         dataPacket_.header.bytestreamCount = static_cast<uint16_t>( bytestreams_.size() );
+      }
+
+      // packetLength must be multiple of 4, add zero padding
       while ( packetLength % 4 )
       {
          *data++ = 0;
-- 
2.43.0


From 4b1bbc74435e2b8c6f54bd184541cf05dc37cb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:54:41 +0000
Subject: [PATCH 13/27] fix: refuse scaled values whose raw integer does not
 fit 64 bits

The ScaledIntegerNode constructor that takes scaled numbers cast the
computed raw value to int64_t without a range check. A value, minimum or
maximum too large for the scale silently became an arbitrary integer.
Throw ErrorValueOutOfBounds instead.
---
 src/ScaledIntegerNodeImpl.cpp | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/ScaledIntegerNodeImpl.cpp b/src/ScaledIntegerNodeImpl.cpp
index 1c284b6..8fdedff 100644
--- a/src/ScaledIntegerNodeImpl.cpp
+++ b/src/ScaledIntegerNodeImpl.cpp
@@ -33,6 +33,24 @@
 
 namespace e57
 {
+   // Raw integer that represents the given scaled value. Throws if there is none.
+   static int64_t scaledToRaw( double scaledValue, double scale, double offset )
+   {
+      const double rawValue = std::floor( ( scaledValue - offset ) / scale + .5 );
+
+      // The limits are -2^63 and 2^63. Both are exact as doubles. A NaN fails the test, too.
+      constexpr double limit = 9223372036854775808.0;
+      if ( !( rawValue >= -limit && rawValue < limit ) )
+      {
+         throw E57_EXCEPTION2( ErrorValueOutOfBounds,
+                               "scaledValue=" + toString( scaledValue ) +
+                                  " scale=" + toString( scale ) +
+                                  " offset=" + toString( offset ) );
+      }
+
+      return static_cast<int64_t>( rawValue );
+   }
+
    ScaledIntegerNodeImpl::ScaledIntegerNodeImpl( ImageFileImplWeakPtr destImageFile,
                                                  int64_t rawValue, int64_t minimum, int64_t maximum,
                                                  double scale, double offset ) :
@@ -45,11 +63,9 @@ namespace e57
                                                  double scaledValue, double scaledMinimum,
                                                  double scaledMaximum, double scale,
                                                  double offset ) :
-      NodeImpl( destImageFile ),
-      value_( static_cast<int64_t>( std::floor( ( scaledValue - offset ) / scale + .5 ) ) ),
-      minimum_( static_cast<int64_t>( std::floor( ( scaledMinimum - offset ) / scale + .5 ) ) ),
-      maximum_( static_cast<int64_t>( std::floor( ( scaledMaximum - offset ) / scale + .5 ) ) ),
-      scale_( scale ), offset_( offset )
+      NodeImpl( destImageFile ), value_( scaledToRaw( scaledValue, scale, offset ) ),
+      minimum_( scaledToRaw( scaledMinimum, scale, offset ) ),
+      maximum_( scaledToRaw( scaledMaximum, scale, offset ) ), scale_( scale ), offset_( offset )
    {
    }
 
-- 
2.43.0


From 0dd95cb090ca387da379728f38c2d43a138bf423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:06:17 +0000
Subject: [PATCH 14/27] fix: packet cache forgets an entry before overwriting
 its buffer

When reading or verifying a packet failed, the cache entry kept its old
offset although its buffer already held other bytes. A later request for
the old offset was then served the wrong data.
---
 src/Packet.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Packet.cpp b/src/Packet.cpp
index 03482a5..80ae512 100644
--- a/src/Packet.cpp
+++ b/src/Packet.cpp
@@ -181,6 +181,10 @@ void PacketReadCache::readPacket( unsigned oldestEntry, uint64_t packetLogicalOf
 
    auto &entry = entries_.at( oldestEntry );
 
+   // The buffer is about to be overwritten, so the entry no longer holds its old packet. If the read
+   // or the verification below throws, nothing must match this entry.
+   entry.logicalOffset_ = 0;
+
    // Now read in whole packet into preallocated buffer_.  Note buffer is
    cFile_->seek( packetLogicalOffset, CheckedFile::Logical );
    cFile_->read( entry.buffer_, packetLength );
-- 
2.43.0


From fdb262f5e4dd114b48c7349ac6502249b379f9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:25:12 +0000
Subject: [PATCH 15/27] fix: close readers and writers once, and refuse to use
 them after the file is closed

---
 src/CompressedVectorReaderImpl.cpp | 18 +++++++-----------
 src/CompressedVectorWriterImpl.cpp | 18 ++++++++----------
 2 files changed, 15 insertions(+), 21 deletions(-)

diff --git a/src/CompressedVectorReaderImpl.cpp b/src/CompressedVectorReaderImpl.cpp
index 21eed23..fb04d2b 100644
--- a/src/CompressedVectorReaderImpl.cpp
+++ b/src/CompressedVectorReaderImpl.cpp
@@ -565,34 +565,30 @@ namespace e57
 
    void CompressedVectorReaderImpl::close()
    {
-      // Before anything that can throw, decrement reader count
-      ImageFileImplSharedPtr imf( cVector_->destImageFile_ );
-      imf->decrReaderCount();
-
-      checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
-
       // No error if reader not open
       if ( !isOpen_ )
       {
          return;
       }
 
+      isOpen_ = false;
+
       // Destroy decoders
       channels_.clear();
 
       delete cache_;
       cache_ = nullptr;
 
-      isOpen_ = false;
+      ImageFileImplSharedPtr imf( cVector_->destImageFile_ );
+      imf->decrReaderCount();
+
+      checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
    }
 
    void CompressedVectorReaderImpl::checkImageFileOpen( const char *srcFileName, int srcLineNumber,
                                                         const char *srcFunctionName ) const
    {
-      // unimplemented...
-      E57_UNUSED( srcFileName );
-      E57_UNUSED( srcLineNumber );
-      E57_UNUSED( srcFunctionName );
+      cVector_->checkImageFileOpen( srcFileName, srcLineNumber, srcFunctionName );
    }
 
    void CompressedVectorReaderImpl::checkReaderOpen( const char *srcFileName, int srcLineNumber,
diff --git a/src/CompressedVectorWriterImpl.cpp b/src/CompressedVectorWriterImpl.cpp
index bae06d2..3da5289 100644
--- a/src/CompressedVectorWriterImpl.cpp
+++ b/src/CompressedVectorWriterImpl.cpp
@@ -156,12 +156,6 @@ namespace e57
 #ifdef E57_VERBOSE
       std::cout << "CompressedVectorWriterImpl::close() called" << std::endl; //???
 #endif
-      ImageFileImplSharedPtr imf( cVector_->destImageFile_ );
-
-      // Before anything that can throw, decrement writer count
-      imf->decrWriterCount();
-
-      checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
       // don't call checkWriterOpen();
 
       if ( !isOpen_ )
@@ -173,6 +167,13 @@ namespace e57
       // try to close again.
       isOpen_ = false;
 
+      ImageFileImplSharedPtr imf( cVector_->destImageFile_ );
+
+      // Before anything that can throw, decrement writer count
+      imf->decrWriterCount();
+
+      checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
+
       // If have any data, write packet
       // Write all remaining ioBuffers and internal encoder register cache into
       // file. Know we are done when totalOutputAvailable() returns 0 after a
@@ -719,10 +720,7 @@ namespace e57
    void CompressedVectorWriterImpl::checkImageFileOpen( const char *srcFileName, int srcLineNumber,
                                                         const char *srcFunctionName ) const
    {
-      // unimplemented...
-      E57_UNUSED( srcFileName );
-      E57_UNUSED( srcLineNumber );
-      E57_UNUSED( srcFunctionName );
+      cVector_->checkImageFileOpen( srcFileName, srcLineNumber, srcFunctionName );
    }
 
    void CompressedVectorWriterImpl::checkWriterOpen( const char *srcFileName, int srcLineNumber,
-- 
2.43.0


From 354a8c14ed63d69e5d180a476c7e4f3baa893f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:26:03 +0000
Subject: [PATCH 16/27] fix: apply scale and offset when checking values of a
 constant scaled integer field

---
 src/Encoder.cpp | 15 +++++++++------
 src/Encoder.h   |  7 ++++++-
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/Encoder.cpp b/src/Encoder.cpp
index 1c274f0..f9d851d 100644
--- a/src/Encoder.cpp
+++ b/src/Encoder.cpp
@@ -83,7 +83,7 @@ std::shared_ptr<Encoder> Encoder::EncoderFactory( unsigned bytestreamNumber,
          if ( bitsPerRecord == 0 )
          {
             std::shared_ptr<Encoder> encoder(
-               new ConstantIntegerEncoder( bytestreamNumber, sbuf, ini->minimum() ) );
+               new ConstantIntegerEncoder( false, bytestreamNumber, sbuf, ini->minimum(), 1.0, 0.0 ) );
 
             return encoder;
          }
@@ -138,7 +138,8 @@ std::shared_ptr<Encoder> Encoder::EncoderFactory( unsigned bytestreamNumber,
          if ( bitsPerRecord == 0 )
          {
             std::shared_ptr<Encoder> encoder(
-               new ConstantIntegerEncoder( bytestreamNumber, sbuf, sini->minimum() ) );
+               new ConstantIntegerEncoder( true, bytestreamNumber, sbuf, sini->minimum(),
+                                           sini->scale(), sini->offset() ) );
 
             return encoder;
          }
@@ -893,10 +894,11 @@ void BitpackIntegerEncoder<RegisterT>::dump( int indent, std::ostream &os ) cons
 
 //================================================================
 
-ConstantIntegerEncoder::ConstantIntegerEncoder( unsigned bytestreamNumber, SourceDestBuffer &sbuf,
-                                                int64_t minimum ) :
+ConstantIntegerEncoder::ConstantIntegerEncoder( bool isScaledInteger, unsigned bytestreamNumber,
+                                                SourceDestBuffer &sbuf, int64_t minimum,
+                                                double scale, double offset ) :
    Encoder( bytestreamNumber ), sourceBuffer_( sbuf.impl() ), currentRecordIndex_( 0 ),
-   minimum_( minimum )
+   isScaledInteger_( isScaledInteger ), minimum_( minimum ), scale_( scale ), offset_( offset )
 {
 }
 
@@ -911,7 +913,8 @@ uint64_t ConstantIntegerEncoder::processRecords( size_t recordCount )
    // Check that all source values are == minimum_
    for ( unsigned i = 0; i < recordCount; i++ )
    {
-      int64_t nextInt64 = sourceBuffer_->getNextInt64();
+      int64_t nextInt64 = isScaledInteger_ ? sourceBuffer_->getNextInt64( scale_, offset_ )
+                                           : sourceBuffer_->getNextInt64();
       if ( nextInt64 != minimum_ )
       {
          throw E57_EXCEPTION2( ErrorValueOutOfBounds, "nextInt64=" + toString( nextInt64 ) +
diff --git a/src/Encoder.h b/src/Encoder.h
index 5806f6a..9f2ece6 100644
--- a/src/Encoder.h
+++ b/src/Encoder.h
@@ -176,7 +176,9 @@ namespace e57
    class ConstantIntegerEncoder : public Encoder
    {
    public:
-      ConstantIntegerEncoder( unsigned bytestreamNumber, SourceDestBuffer &sbuf, int64_t minimum );
+      ConstantIntegerEncoder( bool isScaledInteger, unsigned bytestreamNumber,
+                              SourceDestBuffer &sbuf, int64_t minimum, double scale,
+                              double offset );
       uint64_t processRecords( size_t recordCount ) override;
       unsigned sourceBufferNextIndex() override;
       uint64_t currentRecordIndex() override;
@@ -198,6 +200,9 @@ namespace e57
    protected:
       std::shared_ptr<SourceDestBufferImpl> sourceBuffer_;
       uint64_t currentRecordIndex_;
+      bool isScaledInteger_;
       int64_t minimum_;
+      double scale_;
+      double offset_;
    };
 }
-- 
2.43.0


From 9bba153fec95e47cdd2376e2ccca1dc73296824c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:26:26 +0000
Subject: [PATCH 17/27] fix: write single precision values with enough digits
 to read back the same

---
 src/CheckedFile.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CheckedFile.cpp b/src/CheckedFile.cpp
index 198a7ac..321f9e9 100644
--- a/src/CheckedFile.cpp
+++ b/src/CheckedFile.cpp
@@ -478,8 +478,8 @@ CheckedFile &CheckedFile::operator<<( uint64_t i )
 
 CheckedFile &CheckedFile::operator<<( float f )
 {
-   //??? is 7 digits right number?
-   return writeFloatingPoint( f, 7 );
+   // 9 significant digits are needed to tell all single precision values apart
+   return writeFloatingPoint( f, 8 );
 }
 
 CheckedFile &CheckedFile::operator<<( double d )
-- 
2.43.0


From 4b52b922dcfee6e40f3e0c96c400129cd0627ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:27:14 +0000
Subject: [PATCH 18/27] fix: use the buffers given to a read or write call
 instead of the previous ones

---
 src/CompressedVectorReaderImpl.cpp |  9 +++++++++
 src/CompressedVectorWriterImpl.cpp | 16 ++++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/src/CompressedVectorReaderImpl.cpp b/src/CompressedVectorReaderImpl.cpp
index fb04d2b..a21ded3 100644
--- a/src/CompressedVectorReaderImpl.cpp
+++ b/src/CompressedVectorReaderImpl.cpp
@@ -220,6 +220,15 @@ namespace e57
       }
 
       dbufs_ = dbufs;
+
+      // Decoders must deliver their values to the new dbufs (channels_ is in the order of dbufs_)
+      for ( size_t i = 0; i < channels_.size(); i++ )
+      {
+         std::vector<SourceDestBuffer> theDbuf{ dbufs_[i] };
+
+         channels_[i].dbuf = dbufs_[i];
+         channels_[i].decoder->destBufferSetNew( theDbuf );
+      }
    }
 
    unsigned CompressedVectorReaderImpl::read( std::vector<SourceDestBuffer> &dbufs )
diff --git a/src/CompressedVectorWriterImpl.cpp b/src/CompressedVectorWriterImpl.cpp
index 3da5289..99a964e 100644
--- a/src/CompressedVectorWriterImpl.cpp
+++ b/src/CompressedVectorWriterImpl.cpp
@@ -278,6 +278,22 @@ namespace e57
       proto_->checkBuffers( sbufs, false );
 
       sbufs_ = sbufs;
+
+      // Encoders must take their values from the new sbufs
+      for ( auto &bytestream : bytestreams_ )
+      {
+         for ( auto &sbuf : sbufs_ )
+         {
+            uint64_t bytestreamNumber = 0;
+            proto_->findTerminalPosition( proto_->get( sbuf.pathName() ), bytestreamNumber );
+
+            if ( bytestreamNumber == bytestream->bytestreamNumber() )
+            {
+               std::vector<SourceDestBuffer> vTemp{ sbuf };
+               bytestream->sourceBufferSetNew( vTemp );
+            }
+         }
+      }
    }
 
    void CompressedVectorWriterImpl::write( std::vector<SourceDestBuffer> &sbufs,
-- 
2.43.0


From 6f318674ef6cdb720fd41ec55fb6095a9675d7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:28:46 +0000
Subject: [PATCH 19/27] fix: check the first character of the local part of an
 extended element name

---
 src/ImageFileImpl.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ImageFileImpl.cpp b/src/ImageFileImpl.cpp
index c78b63e..89cc38f 100644
--- a/src/ImageFileImpl.cpp
+++ b/src/ImageFileImpl.cpp
@@ -749,6 +749,14 @@ namespace e57
                                                              " prefix=" + prefix +
                                                              " localPart=" + localPart );
          }
+
+         // The localPart is a name of its own, so the rules for the first char apply to it too
+         c = localPart[0];
+
+         if ( c < 128 && !( ( 'a' <= c && c <= 'z' ) || ( 'A' <= c && c <= 'Z' ) || c == '_' ) )
+         {
+            throw E57_EXCEPTION2( ErrorPathNameMalformed, "elementName=" + elementName );
+         }
       }
       else
       {
-- 
2.43.0


From e581efc26a7cd87ad1f0f281643c907c6571dd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:28:52 +0000
Subject: [PATCH 20/27] fix: refuse path names that end in a slash

---
 src/ImageFileImpl.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ImageFileImpl.cpp b/src/ImageFileImpl.cpp
index 89cc38f..5d7069d 100644
--- a/src/ImageFileImpl.cpp
+++ b/src/ImageFileImpl.cpp
@@ -606,11 +606,10 @@ namespace e57
             break;
          }
 
-         // Handle case when pathname ends in /, e.g. "/foo/", add empty field at end of list
+         // A pathname can't end in /, e.g. "/foo/", since an empty element name isn't legal
          if ( slash == pathName.size() - 1 )
          {
-            fields.emplace_back( "" );
-            break;
+            throw E57_EXCEPTION2( ErrorPathNameMalformed, "pathName=" + pathName );
          }
 
          // Skip over the slash and keep going
-- 
2.43.0


From d8e4898cb971c0e9fb2299fddb3516a38f0a2efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:28:58 +0000
Subject: [PATCH 21/27] fix: refuse to attach an element of another file by
 path name

---
 src/StructureNodeImpl.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/StructureNodeImpl.cpp b/src/StructureNodeImpl.cpp
index e64f7e9..8422910 100644
--- a/src/StructureNodeImpl.cpp
+++ b/src/StructureNodeImpl.cpp
@@ -296,6 +296,16 @@ void StructureNodeImpl::set( const std::vector<ustring> &fields, unsigned level,
    // index, else throw
    // bad_path
 
+   // Verify that child is destined for same ImageFile as this is
+   ImageFileImplSharedPtr thisDest( destImageFile() );
+   ImageFileImplSharedPtr niDest( ni->destImageFile() );
+   if ( thisDest != niDest )
+   {
+      throw E57_EXCEPTION2( ErrorDifferentDestImageFile,
+                            "this->destImageFile" + thisDest->fileName() + " ni->destImageFile" +
+                               niDest->fileName() );
+   }
+
    // Check if trying to set the root node "/", which is illegal
    if ( level == 0 && fields.empty() )
    {
-- 
2.43.0


From fcab7f5b4050637ab3e8f2ada4e7a045240da51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:29:04 +0000
Subject: [PATCH 22/27] fix: setting a vector child by path name keeps indices
 and homogeneity

---
 src/VectorNodeImpl.cpp | 29 +++++++++++++++++++++++++++++
 src/VectorNodeImpl.h   |  2 ++
 2 files changed, 31 insertions(+)

diff --git a/src/VectorNodeImpl.cpp b/src/VectorNodeImpl.cpp
index fda9f27..c7cd15f 100644
--- a/src/VectorNodeImpl.cpp
+++ b/src/VectorNodeImpl.cpp
@@ -100,6 +100,35 @@ namespace e57
       StructureNodeImpl::set( index64, ni );
    }
 
+   void VectorNodeImpl::set( const StringList &fields, unsigned level, NodeImplSharedPtr ni,
+                             bool autoPathCreate )
+   {
+      checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
+
+      // The only new child that can be set is the one at the next index
+      if ( level < fields.size() && !isDefined( fields.at( level ) ) )
+      {
+         if ( level != fields.size() - 1 )
+         {
+            throw E57_EXCEPTION2( ErrorPathUndefined, "this->pathName=" + this->pathName() +
+                                                         " field=" + fields.at( level ) );
+         }
+
+         if ( fields.at( level ) != toString( childCount() ) )
+         {
+            throw E57_EXCEPTION2( ErrorChildIndexOutOfBounds,
+                                  "this->pathName=" + this->pathName() +
+                                     " field=" + fields.at( level ) +
+                                     " size=" + toString( childCount() ) );
+         }
+
+         set( childCount(), ni );
+         return;
+      }
+
+      StructureNodeImpl::set( fields, level, ni, autoPathCreate );
+   }
+
    void VectorNodeImpl::writeXml( ImageFileImplSharedPtr imf, CheckedFile &cf, int indent,
                                   const char *forcedFieldName )
    {
diff --git a/src/VectorNodeImpl.h b/src/VectorNodeImpl.h
index f6602a1..2088f52 100644
--- a/src/VectorNodeImpl.h
+++ b/src/VectorNodeImpl.h
@@ -45,6 +45,8 @@ namespace e57
       bool allowHeteroChildren() const;
 
       void set( int64_t index, NodeImplSharedPtr ni ) override;
+      void set( const StringList &fields, unsigned level, NodeImplSharedPtr ni,
+                bool autoPathCreate = false ) override;
 
       void writeXml( ImageFileImplSharedPtr imf, CheckedFile &cf, int indent,
                      const char *forcedFieldName = nullptr ) override;
-- 
2.43.0


From 426caf999ecc074a848fd713c87c6bc0eb7f9b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:29:10 +0000
Subject: [PATCH 23/27] fix: refuse to attach an element below itself

---
 src/NodeImpl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/NodeImpl.cpp b/src/NodeImpl.cpp
index 12c69c4..c516f70 100644
--- a/src/NodeImpl.cpp
+++ b/src/NodeImpl.cpp
@@ -166,7 +166,8 @@ void NodeImpl::setParent( NodeImplSharedPtr parent, const ustring &elementName )
    //    root.set("x", root)) 2) if user attempts to reuse codecs or prototype
    //    trees of a CompressedVectorNode
    //       ??? what if CV not attached yet?
-   if ( !parent_.expired() || isAttached_ )
+   // Also catch an attempt to make a node its own ancestor
+   if ( !parent_.expired() || isAttached_ || parent->getRoot() == shared_from_this() )
    {
       // ??? does caller do setParent first, so state is not messed up when
       // throw?
-- 
2.43.0


From ccf6dd6d8c9eb6bc2f2b22c48763081e56a2a51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:02:25 +0000
Subject: [PATCH 24/27] fix: write integers in the XML section independently of
 the global locale

A global locale with digit grouping made 1234567 be written as 1,234,567,
which reads back as 1.
---
 src/CheckedFile.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/CheckedFile.cpp b/src/CheckedFile.cpp
index 321f9e9..3279395 100644
--- a/src/CheckedFile.cpp
+++ b/src/CheckedFile.cpp
@@ -77,6 +77,7 @@
 #include <cstdio>
 #include <cstring>
 #include <fcntl.h>
+#include <locale>
 
 #include "CRC.h"
 
@@ -465,6 +466,7 @@ CheckedFile &CheckedFile::operator<<( const ustring &s )
 CheckedFile &CheckedFile::operator<<( int64_t i )
 {
    std::stringstream ss;
+   ss.imbue( std::locale::classic() );
    ss << i;
    return ( *this << ss.str() );
 }
@@ -472,6 +474,7 @@ CheckedFile &CheckedFile::operator<<( int64_t i )
 CheckedFile &CheckedFile::operator<<( uint64_t i )
 {
    std::stringstream ss;
+   ss.imbue( std::locale::classic() );
    ss << i;
    return ( *this << ss.str() );
 }
-- 
2.43.0


From 3afcbbeafad98b99dbd3c288da232b1252c55844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:02:25 +0000
Subject: [PATCH 25/27] fix: name vector elements independently of the global
 locale

With a grouping global locale the element after 999 was called 1,000 and
could not be found as 1000.
---
 src/StringFunctions.h     | 2 ++
 src/StructureNodeImpl.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/StringFunctions.h b/src/StringFunctions.h
index b40b119..a932978 100644
--- a/src/StringFunctions.h
+++ b/src/StringFunctions.h
@@ -30,6 +30,7 @@
 #include <cstdint>
 #include <iomanip>
 #include <iostream>
+#include <locale>
 #include <sstream>
 #include <string>
 
@@ -49,6 +50,7 @@ namespace e57
                      "Numeric type required." );
 
       std::ostringstream ss;
+      ss.imbue( std::locale::classic() );
       ss << x;
       return ss.str();
    }
diff --git a/src/StructureNodeImpl.cpp b/src/StructureNodeImpl.cpp
index 8422910..29a5496 100644
--- a/src/StructureNodeImpl.cpp
+++ b/src/StructureNodeImpl.cpp
@@ -26,6 +26,7 @@
  */
 
 #include <climits>
+#include <locale>
 
 #include "CheckedFile.h"
 #include "ImageFileImpl.h"
@@ -237,6 +238,7 @@ void StructureNodeImpl::set( int64_t index64, NodeImplSharedPtr ni )
 
    // Field name is string version of index value, e.g. "14"
    std::stringstream elementName;
+   elementName.imbue( std::locale::classic() );
    elementName << index;
 
    // If this struct is type constrained, can't add new child
-- 
2.43.0


From 53cfc327838af3d72f1d7c9cd7baec5859bf9481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:45:06 +0000
Subject: [PATCH 26/27] fix: escape namespace URIs when writing them as XML
 attributes

A registered extension URI containing '&', '<' or '"' was copied into the
xmlns attribute unescaped. It read back as a different URI, or made the
file unreadable.
---
 src/StructureNodeImpl.cpp | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/StructureNodeImpl.cpp b/src/StructureNodeImpl.cpp
index 29a5496..376ec84 100644
--- a/src/StructureNodeImpl.cpp
+++ b/src/StructureNodeImpl.cpp
@@ -35,6 +35,34 @@
 
 using namespace e57;
 
+namespace
+{
+   // Replace the characters that have a meaning of their own inside an XML attribute value
+   ustring escapeAttribute( const ustring &value )
+   {
+      ustring escaped;
+      for ( const char c : value )
+      {
+         switch ( c )
+         {
+            case '&':
+               escaped += "&amp;";
+               break;
+            case '<':
+               escaped += "&lt;";
+               break;
+            case '"':
+               escaped += "&quot;";
+               break;
+            default:
+               escaped += c;
+               break;
+         }
+      }
+      return escaped;
+   }
+}
+
 StructureNodeImpl::StructureNodeImpl( ImageFileImplWeakPtr destImageFile ) :
    NodeImpl( destImageFile )
 {
@@ -432,7 +460,7 @@ void StructureNodeImpl::writeXml( ImageFileImplSharedPtr imf, CheckedFile &cf, i
 
          cf << "\n"
             << space( numSpaces ) << xmlnsExtension << imf->extensionsPrefix( index ) << "=\""
-            << imf->extensionsUri( index ) << "\"";
+            << escapeAttribute( imf->extensionsUri( index ) ) << "\"";
       }
 
       // If user didn't explicitly declare a default namespace, use the current E57 standard one.
-- 
2.43.0


From b6bc5d1b08b10c62c4ca1200ec0bd4adecf20274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:45:06 +0000
Subject: [PATCH 27/27] fix: read single precision values and limits from XML
 at single precision

The shortest text of a float can round outwards when parsed as a double.
A file holding a single precision element at its limit (e.g. -FLT_MAX)
could then not be reopened because the value was out of bounds.
---
 src/E57XmlParser.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/E57XmlParser.cpp b/src/E57XmlParser.cpp
index 101f470..c931341 100644
--- a/src/E57XmlParser.cpp
+++ b/src/E57XmlParser.cpp
@@ -507,6 +507,13 @@ void E57XmlParser::startElement( const XMLCh *const uri, const XMLCh *const loca
          }
       }
 
+      // The text of a single precision number is only precise enough to identify that number
+      if ( pi.precision == PrecisionSingle )
+      {
+         pi.floatMinimum = static_cast<float>( pi.floatMinimum );
+         pi.floatMaximum = static_cast<float>( pi.floatMaximum );
+      }
+
       stack_.push( pi );
    }
    else if ( node_type == "String" )
@@ -767,6 +774,11 @@ void E57XmlParser::endElement( const XMLCh *const uri, const XMLCh *const localN
          {
             floatValue = strToDouble( pi.childText );
             foundValue = true;
+
+            if ( pi.precision == PrecisionSingle )
+            {
+               floatValue = static_cast<float>( floatValue );
+            }
          }
 
          std::shared_ptr<FloatNodeImpl> f_ni(
-- 
2.43.0

