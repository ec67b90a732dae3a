From d6a29bcf792466a065ecd3c70e202e58db944b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:10:20 +0000
Subject: [PATCH 01/57] fix: fromHex must not write past the end of the output
 array

---
 src/Conversion.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index 7a37261..0e012b8 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -111,6 +111,10 @@ size_t fromHex(const char * hex, size_t hexLen, uint8_t * array, size_t arraySiz
         if((v1 > 0x0F) || (v2 > 0x0F)){ // if invalid char stop parsing
             return i;
         }
+        if(i >= arraySize){ // output array is too small
+            memzero(array, arraySize);
+            return 0;
+        }
         array[i] = (v1<<4) | v2;
     }
     return hexLen/2;
-- 
2.43.0


From af3e49da348492559e2896b2764483175cea5c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:10:20 +0000
Subject: [PATCH 02/57] fix: fromBin put bits in the wrong byte for texts
 longer than 2048 digits

---
 src/Conversion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index 0e012b8..e11c024 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -149,7 +149,7 @@ size_t fromBin(const char * bin, size_t binLen, uint8_t * array, size_t arraySiz
     for(size_t i = 0; i < binLen; i++){
         // we go in reverse order (from the end of the string)
         uint8_t exp = (i%8); // shift
-        uint8_t n = (i/8); // current byte from the end
+        size_t n = (i/8); // current byte from the end
         char c = bin[binLen-i-1];
         if(c == '1'){
             // set bit
-- 
2.43.0


From c10e65601c02935572765c689095d7fdbb79a53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:39 +0000
Subject: [PATCH 03/57] fix: base58 and base43 decoders lost leading zero bytes
 and took NUL for a digit

---
 src/Conversion.cpp | 64 ++++++++++++++++++++++++----------------------
 1 file changed, 34 insertions(+), 30 deletions(-)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index e11c024..5bdb792 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -362,11 +362,15 @@ String toBase58Check(const uint8_t * array, size_t arraySize){
 #endif
 
 
-// TODO: add zero count, fix wrong length
 size_t fromBase58Length(const char * array, size_t arraySize){
     if(array == NULL){ return 0; }
-    size_t size = arraySize * 361 / 493 + 1;
-    return size;
+    // leading zeroes are encoded one to one
+    size_t zeroCount = 0;
+    while(zeroCount < arraySize && array[zeroCount] == BASE58_CHARS[0]){
+        zeroCount++;
+    }
+    size_t size = (arraySize - zeroCount) * 361 / 493 + 1;
+    return size + zeroCount;
 }
 
 size_t fromBase58(const char * encoded, size_t encodedSize, uint8_t * output, size_t outputSize){
@@ -377,7 +381,7 @@ size_t fromBase58(const char * encoded, size_t encodedSize, uint8_t * output, si
     // looking for the end of char array
     for(l=0; l<encodedSize; l++){
         const char * pch = strchr(BASE58_CHARS, encoded[l]);
-        if(pch==NULL){ // char not in the alphabet
+        if(pch==NULL || encoded[l] == 0){ // char not in the alphabet
             break;
         }
     }
@@ -386,7 +390,7 @@ size_t fromBase58(const char * encoded, size_t encodedSize, uint8_t * output, si
     uint8_t * tmp = (uint8_t *) calloc(size, sizeof(uint8_t));
     if(tmp == NULL){ return 0; }
 
-    uint8_t zeroCount = 0;
+    size_t zeroCount = 0;
     for(size_t i = 0; i<encodedSize; i++){
         if(encoded[i] == BASE58_CHARS[0]){
             zeroCount++;
@@ -412,21 +416,19 @@ size_t fromBase58(const char * encoded, size_t encodedSize, uint8_t * output, si
         }
     }
     // shifting array
-    uint8_t shift = 0;
-    for(size_t i = zeroCount; i < size; i++){
-        if(tmp[i] == 0){
-            shift++;
-        }else{
-            break;
-        }
+    size_t shift = 0;
+    while(shift < size && tmp[shift] == 0){
+        shift++;
     }
-    if(size-shift > outputSize){
+    size_t len = zeroCount + size - shift;
+    if(len > outputSize){
         free(tmp);
         return 0;
     }
-    memcpy(output, tmp+shift, size-shift);
+    // leading zeroes are already in the output
+    memcpy(output+zeroCount, tmp+shift, size-shift);
     free(tmp);
-    return size-shift;
+    return len;
 }
 
 size_t fromBase58Check(const char * encoded, size_t encodedSize, uint8_t * output, size_t outputSize){
@@ -559,11 +561,15 @@ String toBase43(const uint8_t * array, size_t arraySize){
     return s;
 }
 #endif
-// TODO: add zero count, fix wrong length
 size_t fromBase43Length(const char * array, size_t arraySize){
     if(array == NULL){ return 0; }
-    size_t size = arraySize * 68 / 100 + 1;
-    return size;
+    // leading zeroes are encoded one to one
+    size_t zeroCount = 0;
+    while(zeroCount < arraySize && array[zeroCount] == BASE43_CHARS[0]){
+        zeroCount++;
+    }
+    size_t size = (arraySize - zeroCount) * 68 / 100 + 1;
+    return size + zeroCount;
 }
 
 size_t fromBase43(const char * encoded, size_t encodedSize, uint8_t * output, size_t outputSize){
@@ -574,7 +580,7 @@ size_t fromBase43(const char * encoded, size_t encodedSize, uint8_t * output, si
     // looking for the end of char array
     for(l=0; l<encodedSize; l++){
         const char * pch = strchr(BASE43_CHARS, encoded[l]);
-        if(pch==NULL){ // char not in the alphabet
+        if(pch==NULL || encoded[l] == 0){ // char not in the alphabet
             break;
         }
     }
@@ -583,7 +589,7 @@ size_t fromBase43(const char * encoded, size_t encodedSize, uint8_t * output, si
     uint8_t * tmp = (uint8_t *) calloc(size, sizeof(uint8_t));
     if(tmp == NULL){ return 0; }
 
-    uint8_t zeroCount = 0;
+    size_t zeroCount = 0;
     for(size_t i = 0; i<encodedSize; i++){
         if(encoded[i] == BASE43_CHARS[0]){
             zeroCount++;
@@ -609,21 +615,19 @@ size_t fromBase43(const char * encoded, size_t encodedSize, uint8_t * output, si
         }
     }
     // shifting array
-    uint8_t shift = 0;
-    for(size_t i = zeroCount; i < size; i++){
-        if(tmp[i] == 0){
-            shift++;
-        }else{
-            break;
-        }
+    size_t shift = 0;
+    while(shift < size && tmp[shift] == 0){
+        shift++;
     }
-    if(size-shift > outputSize){
+    size_t len = zeroCount + size - shift;
+    if(len > outputSize){
         free(tmp);
         return 0;
     }
-    memcpy(output, tmp+shift, size-shift);
+    // leading zeroes are already in the output
+    memcpy(output+zeroCount, tmp+shift, size-shift);
     free(tmp);
-    return size-shift;
+    return len;
 }
 #if (USE_STD_STRING || USE_ARDUINO_STRING)
 size_t fromBase43(String encoded, uint8_t * output, size_t outputSize){
-- 
2.43.0


From d61081c86b79f47843f8e21c6b19e1f532ad327e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:39 +0000
Subject: [PATCH 04/57] fix: toBase58Check read past the end of an all-zero
 array to estimate the length

---
 src/Conversion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index 5bdb792..4f56f7b 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -351,7 +351,7 @@ size_t toBase58Check(const uint8_t * array, size_t arraySize, char * output, siz
 #if USE_ARDUINO_STRING || USE_STD_STRING
 String toBase58Check(const uint8_t * array, size_t arraySize){
     if(array == NULL){ return String(); }
-    size_t len = toBase58Length(array, arraySize + 4) + 1; // +4 checksum +1 for null terminator
+    size_t len = toBase58Length(array, arraySize) + 6 + 1; // +6 for 4 bytes of checksum +1 for null terminator
     char * buf = (char *)malloc(len);
     if(buf == NULL){ return String(); }
     toBase58Check(array, arraySize, buf, len);
-- 
2.43.0


From 4f5818109bdc3ccc1ab21cd76372731f0f138931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:39 +0000
Subject: [PATCH 05/57] fix: base64 of an empty array accessed memory outside
 of the buffers

---
 src/Conversion.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index 4f56f7b..f38b7fc 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -658,7 +658,7 @@ size_t toBase64(const uint8_t * array, size_t arraySize, char * output, size_t o
     if(array == NULL || output == NULL){ return 0; }
     memzero(output, outputSize);
     size_t cur = 0;
-    if(outputSize < toBase64Length(array, arraySize, flags)){
+    if(arraySize == 0 || outputSize < toBase64Length(array, arraySize, flags)){
         return 0;
     }
     while(3 * cur + 3 < arraySize){
@@ -715,7 +715,7 @@ String toBase64(const uint8_t * array, size_t arraySize, uint8_t flags){
 }
 #endif
 size_t fromBase64Length(const char * array, size_t arraySize, uint8_t flags){
-    if(array == NULL){ return 0; }
+    if(array == NULL || arraySize == 0){ return 0; }
     if(arraySize % 4 != 0 && (flags & BASE64_NOPADDING) == 0){ return 0; }
     size_t v = (arraySize / 4) * 3;
     if(flags & BASE64_NOPADDING){
-- 
2.43.0


From 0e2f66dd38299e0445743c06aa5cf2e31c732863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:39 +0000
Subject: [PATCH 06/57] fix: fromBase64 read past the end of the text and
 accepted NUL and data after padding

---
 src/Conversion.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index f38b7fc..464631b 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -746,7 +746,8 @@ size_t fromBase64(const char * encoded, size_t encodedSize, uint8_t * output, si
         }
         uint32_t val = 0;
         for(size_t i=0; i<4; i++){
-            char c = encoded[cur*4+i];
+            // without padding the last group can be shorter than 4 characters
+            char c = (cur*4+i < encodedSize) ? encoded[cur*4+i] : 0;
             // replace characters for urlsafe version
             if(c=='-' && (flags & BASE64_URLSAFE)){
                 c = '+';
@@ -755,8 +756,10 @@ size_t fromBase64(const char * encoded, size_t encodedSize, uint8_t * output, si
                 c = '/';
             }
             const char * pch = strchr(BASE64_CHARS, c);
-            if(pch==NULL || ((flags & BASE64_NOPADDING) && (c == 0))){
-                if((encoded[cur*4+i] == '=') || (c == 0 && (flags & BASE64_NOPADDING))){
+            if(pch==NULL || c == 0){
+                // padding is valid only at the very end
+                bool isPadding = (c == '=') && (cur*4+4 == encodedSize) && (encoded[cur*4+3] == '=');
+                if(isPadding || (c == 0 && (flags & BASE64_NOPADDING))){
                     if(i==3){
                         val = (val >> 2);
                         if(outputSize < 3*cur+2){
-- 
2.43.0


From 5282d8950c769c4f654abbc5c29c14b75e7cb227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:39 +0000
Subject: [PATCH 07/57] fix: readVarInt read one byte from an empty array

---
 src/Conversion.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index 464631b..f18bad1 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -871,6 +871,9 @@ uint8_t lenVarInt(uint64_t num){
     return 9;
 }
 uint64_t readVarInt(const uint8_t * array, size_t arraySize){
+    if(arraySize == 0){
+        return 0;
+    }
     if(array[0] < 0xfd){
         return array[0];
     }else{
-- 
2.43.0


From a4708b3478d013de2ebaf6e002ec8b8a3097477c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:35 +0000
Subject: [PATCH 08/57] fix: fromBase64 without padding accepted text with a
 NUL character in it

---
 src/Conversion.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index f18bad1..2adfc89 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -747,7 +747,8 @@ size_t fromBase64(const char * encoded, size_t encodedSize, uint8_t * output, si
         uint32_t val = 0;
         for(size_t i=0; i<4; i++){
             // without padding the last group can be shorter than 4 characters
-            char c = (cur*4+i < encodedSize) ? encoded[cur*4+i] : 0;
+            bool isEnd = (cur*4+i >= encodedSize);
+            char c = isEnd ? 0 : encoded[cur*4+i];
             // replace characters for urlsafe version
             if(c=='-' && (flags & BASE64_URLSAFE)){
                 c = '+';
@@ -759,7 +760,7 @@ size_t fromBase64(const char * encoded, size_t encodedSize, uint8_t * output, si
             if(pch==NULL || c == 0){
                 // padding is valid only at the very end
                 bool isPadding = (c == '=') && (cur*4+4 == encodedSize) && (encoded[cur*4+3] == '=');
-                if(isPadding || (c == 0 && (flags & BASE64_NOPADDING))){
+                if(isPadding || (isEnd && (flags & BASE64_NOPADDING))){
                     if(i==3){
                         val = (val >> 2);
                         if(outputSize < 3*cur+2){
-- 
2.43.0


From 1f6c6087062b6d0ae75c52c00af5f4586c8418bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:21 +0000
Subject: [PATCH 09/57] fix: reading an empty or invalid hex stream ran outside
 the buffer or yielded 0xFF bytes

---
 src/BaseClasses.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/BaseClasses.cpp b/src/BaseClasses.cpp
index ccc51b1..2fe99c0 100644
--- a/src/BaseClasses.cpp
+++ b/src/BaseClasses.cpp
@@ -43,7 +43,7 @@ size_t ParseByteStream::available(){
 };
 int ParseByteStream::read(){
     if(format == HEX_ENCODING){
-        if(cursor < len-1){
+        if(cursor + 1 < len){
             uint8_t c1 = hexToVal(buf[cursor]);
             uint8_t c2 = hexToVal(buf[cursor+1]);
             if(c1 < 0x10 && c2 < 0x10){
@@ -51,6 +51,8 @@ int ParseByteStream::read(){
                 last = (c1<<4) + c2;
                 return last;
             }
+            // not hex - nothing else can be read from this stream
+            cursor = len;
         }
     }else{
         if(cursor < len){
-- 
2.43.0


From 22d6ccb905f1e0b54f3ed1b3fe240e751f196fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:21 +0000
Subject: [PATCH 10/57] fix: serialising to a string with an offset past the
 end underflowed

---
 src/BaseClasses.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BaseClasses.cpp b/src/BaseClasses.cpp
index 2fe99c0..924fb96 100644
--- a/src/BaseClasses.cpp
+++ b/src/BaseClasses.cpp
@@ -156,7 +156,7 @@ String Readable::toString() const{
 #if USE_ARDUINO_STRING || USE_STD_STRING
 String Streamable::serialize(size_t offset, size_t len) const{
     if(len == 0){
-        len = (length()-offset);
+        len = (offset < length()) ? (length()-offset) : 0;
     }
     char * arr = (char *)calloc(2*len+1, sizeof(char));
     serialize(arr, 2*len, offset, HEX_ENCODING);
-- 
2.43.0


From ce2b730e6b473eb6cd32e69144a51892978f58c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:38 +0000
Subject: [PATCH 11/57] fix: bech32_decode of text without a separator wrote
 past the hrp buffer

---
 src/utility/segwit_addr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utility/segwit_addr.c b/src/utility/segwit_addr.c
index 337968f..96b3d04 100755
--- a/src/utility/segwit_addr.c
+++ b/src/utility/segwit_addr.c
@@ -96,10 +96,10 @@ int bech32_decode(char* hrp, uint8_t *data, size_t *data_len, const char *input)
     while (*data_len < input_len && input[(input_len - 1) - *data_len] != '1') {
         ++(*data_len);
     }
-    hrp_len = input_len - (1 + *data_len);
-    if (hrp_len < 1 || *data_len < 6) {
+    if (1 + *data_len >= input_len || *data_len < 6) {
         return 0;
     }
+    hrp_len = input_len - (1 + *data_len);
     *(data_len) -= 6;
     for (i = 0; i < hrp_len; ++i) {
         int ch = input[i];
-- 
2.43.0


From 4b0fca9f3decbb860dafa933fe2878f732b6cb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:38 +0000
Subject: [PATCH 12/57] fix: segwit addresses longer than 90 characters overran
 the decoder's buffers

---
 src/utility/segwit_addr.c | 3 +++
 src/utility/segwit_addr.h | 1 +
 2 files changed, 4 insertions(+)

diff --git a/src/utility/segwit_addr.c b/src/utility/segwit_addr.c
index 96b3d04..2e57689 100755
--- a/src/utility/segwit_addr.c
+++ b/src/utility/segwit_addr.c
@@ -171,6 +171,7 @@ int segwit_addr_encode(char *output, const char *hrp, int witver, const uint8_t
     data[0] = witver;
     convert_bits(data + 1, &datalen, 5, witprog, witprog_len, 8, 1);
     ++datalen;
+    if (strlen(hrp) + 7 + datalen > MAX_SEGWIT_ADDR_SIZE) return 0;
     return bech32_encode(output, hrp, data, datalen);
 }
 
@@ -178,6 +179,8 @@ int segwit_addr_decode(int* witver, uint8_t* witdata, size_t* witdata_len, const
     uint8_t data[84];
     char hrp_actual[84];
     size_t data_len;
+    /* BIP-173 limit, also keeps the decoded parts within the buffers above */
+    if (strlen(addr) > MAX_SEGWIT_ADDR_SIZE) return 0;
     if (!bech32_decode(hrp_actual, data, &data_len, addr)) return 0;
     if (data_len == 0 || data_len > 65) return 0;
     if (strncmp(hrp, hrp_actual, 84) != 0) return 0;
diff --git a/src/utility/segwit_addr.h b/src/utility/segwit_addr.h
index e167059..1afdf64 100755
--- a/src/utility/segwit_addr.h
+++ b/src/utility/segwit_addr.h
@@ -29,6 +29,7 @@ extern "C"
 #endif
 
 #define MAX_BECH32_SIZE 1000 // for lightning
+#define MAX_SEGWIT_ADDR_SIZE 90 // BIP-173
 
 /** Encode a SegWit address
  *
-- 
2.43.0


From 426541bc252ff60b594172184e40b92ef364553b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:37 +0000
Subject: [PATCH 13/57] fix: sortedmulti did not sort the keys and point
 comparison was inverted

---
 src/BitcoinCurve.cpp |  2 +-
 src/Script.cpp       | 13 ++++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/BitcoinCurve.cpp b/src/BitcoinCurve.cpp
index 941b47f..97170f8 100644
--- a/src/BitcoinCurve.cpp
+++ b/src/BitcoinCurve.cpp
@@ -266,7 +266,7 @@ bool ECPoint::operator<(const ECPoint& other) const{
 	uint8_t sec2[65];
 	sec(sec1, sizeof(sec1));
 	other.sec(sec2, sizeof(sec2));
-	return memcmp(sec1, sec2, sizeof(sec1)) > 0;
+	return memcmp(sec1, sec2, sizeof(sec1)) < 0;
 }
 ECPoint operator*(const ECScalar& scalar, const ECPoint& point){
 	ECPoint r;
diff --git a/src/Script.cpp b/src/Script.cpp
index 4fb5eb5..58dc64c 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -103,9 +103,16 @@ static void quickSort(PublicKey array[], int low, int high) {
 }
 
 Script sortedmulti(uint8_t threshold, const PublicKey * pubkeys, uint8_t pubkeys_len){
-    // sort first
-    PublicKey * sortedkeys = (PublicKey *) pubkeys;
-    // TODO: the most
+    PublicKey sortedkeys[16];
+    if(pubkeys_len > 16){
+        // returning empty script
+        return Script();
+    }
+    // sort a copy first
+    for(int i=0; i<pubkeys_len; i++){
+        sortedkeys[i] = pubkeys[i];
+    }
+    quickSort(sortedkeys, 0, pubkeys_len-1);
     return multi(threshold, sortedkeys, pubkeys_len);
 }
 
-- 
2.43.0


From 63c6df2b2c1df2f42ee4d035e71c3203e88bd29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:37 +0000
Subject: [PATCH 14/57] fix: pushing a script used a varint instead of a push
 opcode and leaked a buffer

---
 src/Script.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/Script.cpp b/src/Script.cpp
index 58dc64c..ab225c5 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -443,6 +443,9 @@ size_t Script::push(uint8_t code){
     return scriptLen;
 }
 size_t Script::push(const uint8_t * data, size_t len){
+    if(len == 0){
+        return scriptLen;
+    }
     if(scriptLen+len > MAX_SCRIPT_SIZE){
         clear();
         return 0;
@@ -475,12 +478,21 @@ size_t Script::push(const Signature sig, SigHashType sigType){
     return scriptLen;
 }
 size_t Script::push(const Script sc){
-    size_t len = sc.length();
-    uint8_t * tmp;
-    tmp = (uint8_t *)calloc(len, sizeof(uint8_t));
-    if(tmp == NULL){ return 0; }
-    sc.serialize(tmp, len);
-    push(tmp, len);
+    size_t len = sc.scriptLen;
+    // length as a push opcode, not as a varint
+    uint8_t prefix[3] = { (uint8_t)len, 0, 0 };
+    size_t prefixLen = 1;
+    if(len > 0xff){
+        prefix[0] = OP_PUSHDATA2;
+        intToLittleEndian(len, prefix+1, 2);
+        prefixLen = 3;
+    }else if(len >= OP_PUSHDATA1){
+        prefix[0] = OP_PUSHDATA1;
+        prefix[1] = len;
+        prefixLen = 2;
+    }
+    if(push(prefix, prefixLen) == 0){ return 0; }
+    push(sc.scriptArray, len);
     return scriptLen;
 }
 Script Script::scriptPubkey(ScriptType type) const{
-- 
2.43.0


From b32ded99ef1426e2f8e7b0dd3db30188a52b5e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:12 +0000
Subject: [PATCH 15/57] fix: pushing a key or signature into a full script left
 part of it behind

---
 src/Script.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Script.cpp b/src/Script.cpp
index ab225c5..b50d196 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -465,15 +465,15 @@ size_t Script::push(const uint8_t * data, size_t len){
 size_t Script::push(const PublicKey pubkey){
     uint8_t sec[65];
     uint8_t len = pubkey.sec(sec, sizeof(sec));
-    push(len);
+    if(push(len) == 0){ return 0; }
     push(sec, len);
     return scriptLen;
 }
 size_t Script::push(const Signature sig, SigHashType sigType){
     uint8_t der[75];
     uint8_t len = sig.der(der, sizeof(der));
-    push(len+1);
-    push(der, len);
+    if(push(len+1) == 0){ return 0; }
+    if(push(der, len) == 0){ return 0; }
     push(sigType);
     return scriptLen;
 }
-- 
2.43.0


From 2dbc691105c00a786d5274726fcea101c598407b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:12 +0000
Subject: [PATCH 16/57] fix: script parser failed on empty chunks, broke long
 lengths and leaked its array

---
 src/Script.cpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/Script.cpp b/src/Script.cpp
index b50d196..550f3f7 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -261,12 +261,12 @@ Script::Script(const Script &other, ScriptType type){
     }
 }
 void Script::clear(){
-    if(scriptLen > 0 && scriptArray != NULL){
+    if(scriptArray != NULL){
         free(scriptArray);
         scriptArray = NULL;
-        scriptLen = 0;
-        lenLen = 0;
     }
+    scriptLen = 0;
+    lenLen = 0;
 }
 size_t Script::from_stream(ParseStream *s){
     if(status == PARSING_FAILED){
@@ -284,19 +284,17 @@ size_t Script::from_stream(ParseStream *s){
         bytes_read++;
         if(lenLen < 0xfd){
             scriptLen = lenLen;
-            if(scriptLen > 0){
-                scriptArray = (uint8_t *) calloc( scriptLen, sizeof(uint8_t));
-            }
             lenLen = 1;
         }else{
             scriptLen = 0;
             lenLen = 1+(1 << (lenLen - 0xfc));
-            scriptArray = (uint8_t *) calloc( 255, sizeof(uint8_t));
         }
-        if(scriptArray == NULL && scriptLen > 0){ status = PARSING_FAILED; scriptLen = 0; return 0; }
+    }
+    if(bytes_parsed+bytes_read == 0){ // nothing is available yet
+        return 0;
     }
     while(s->available() > 0 && bytes_parsed+bytes_read < lenLen){
-        scriptLen += (s->read() << (8*(bytes_parsed+bytes_read-1)));
+        scriptLen += ((size_t)s->read() << (8*(bytes_parsed+bytes_read-1)));
         bytes_read++;
     }
     if(bytes_parsed+bytes_read == lenLen && scriptLen > 0){
-- 
2.43.0


From 6c0fc41542e4ce9e4f24a9b3b0326259fdbe5355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:12 +0000
Subject: [PATCH 17/57] fix: cleared witness kept a pointer to freed memory

---
 src/Script.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/Script.cpp b/src/Script.cpp
index 550f3f7..3790691 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -523,10 +523,11 @@ Script::Script(const Script &other){
 
 void Witness::clear(){
     numElements = 0;
-    if(witnessLen > 0){
+    if(witnessArray != NULL){
         free(witnessArray);
-        witnessLen = 0;
+        witnessArray = NULL;
     }
+    witnessLen = 0;
 }
 void Witness::init(){
     numElements = 0;
@@ -619,7 +620,7 @@ size_t Witness::from_stream(ParseStream *s){
                 writeVarInt(cur_element_len, witnessArray, lenVarInt(cur_element_len));
             }else{
                 uint8_t * ptr = (uint8_t *)realloc( witnessArray, (witnessLen + cur_element_len + lenVarInt(cur_element_len)) * sizeof(uint8_t));
-                if(ptr == NULL){ free(witnessArray); witnessLen = 0; status=PARSING_FAILED; return 0;}
+                if(ptr == NULL){ clear(); status=PARSING_FAILED; return 0;}
                 witnessArray = ptr;
                 witnessLen += cur_element_len+lenVarInt(cur_element_len);
                 writeVarInt(cur_element_len, witnessArray+offset, lenVarInt(cur_element_len));
@@ -675,7 +676,7 @@ size_t Witness::push(const uint8_t * data, size_t len){
         if(witnessArray == NULL){ witnessLen = 0; return 0; }
     }else{
         uint8_t * ptr = (uint8_t *) realloc( witnessArray, (witnessLen + len + lenVarInt(len)) * sizeof(uint8_t));
-        if(ptr == NULL){ free(witnessArray); witnessLen = 0; return 0; }
+        if(ptr == NULL){ clear(); return 0; }
         witnessArray = ptr;
     }
     writeVarInt(len, witnessArray+witnessLen, lenVarInt(len));
-- 
2.43.0


From 1faa31e19e8810c88f0986b38aef0dd42c22b268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:12 +0000
Subject: [PATCH 18/57] fix: witness parser took truncated input for complete
 and lost elements at chunk borders

---
 src/Bitcoin.h  |  2 +-
 src/Script.cpp | 18 +++++++++++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/Bitcoin.h b/src/Bitcoin.h
index 2fcc15d..b56e78d 100644
--- a/src/Bitcoin.h
+++ b/src/Bitcoin.h
@@ -571,7 +571,7 @@ public:
     Witness(const Witness &other); // copy
     ~Witness(){ if(witnessArray){ free(witnessArray); } };
     /** \brief returns number of elements in the witness */
-    uint8_t count() const{ return numElements; };
+    uint32_t count() const{ return numElements; };
     /** \brief adds `<len><data>` to the witness */
     size_t push(const uint8_t * data, size_t len);
     /** \brief adds `<len><sec>` to the witness */
diff --git a/src/Script.cpp b/src/Script.cpp
index 3790691..03ac669 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -572,6 +572,9 @@ size_t Witness::from_stream(ParseStream *s){
         if(lenLen < 0xfd){
             numElements = lenLen;
             lenLen = 1;
+        }else if(lenLen < 0xff){
+            numElements = 0;
+            lenLen = 1+(1 << (lenLen - 0xfc));
         }else{
             numElements = 0;
             status = PARSING_FAILED;
@@ -579,6 +582,14 @@ size_t Witness::from_stream(ParseStream *s){
             return bytes_read;
         }
     }
+    while(s->available() && bytes_parsed+bytes_read < lenLen){
+        numElements += ((uint32_t)s->read() << (8*(bytes_parsed+bytes_read-1)));
+        bytes_read++;
+    }
+    if(bytes_parsed+bytes_read == 0 || bytes_parsed+bytes_read < lenLen){ // number of elements is not known yet
+        bytes_parsed += bytes_read;
+        return bytes_read;
+    }
     if(bytes_parsed+bytes_read == lenLen && lenVarInt(numElements) != lenLen){
         status = PARSING_FAILED;
         bytes_parsed+=bytes_read;
@@ -602,9 +613,14 @@ size_t Witness::from_stream(ParseStream *s){
             }
         }
         while(s->available() && cur_bytes_parsed+cur_bytes_read < curLen){
-            cur_element_len += (s->read() << (8*(cur_bytes_parsed+cur_bytes_read-1)));
+            cur_element_len += ((size_t)s->read() << (8*(cur_bytes_parsed+cur_bytes_read-1)));
             cur_bytes_read++;
         }
+        if(cur_bytes_parsed+cur_bytes_read < curLen){ // length of the element is not known yet
+            cur_bytes_parsed += cur_bytes_read;
+            bytes_read += cur_bytes_read;
+            break;
+        }
         if(lenVarInt(cur_element_len) != curLen && cur_bytes_parsed+cur_bytes_read == curLen){
             status = PARSING_FAILED;
             cur_bytes_parsed+=cur_bytes_read;
-- 
2.43.0


From 7963b7428fd3c8c2c75404e60f5df21f883df412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:12 +0000
Subject: [PATCH 19/57] fix: assigning a witness kept the parsing state of the
 old content

---
 src/Script.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Script.cpp b/src/Script.cpp
index 03ac669..8b4616c 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -737,6 +737,7 @@ Witness::Witness(const Witness &other){
 };
 Witness &Witness::operator=(Witness const &other){
     if (this == &other){ return *this; } // self-assignment
+    reset();
     clear();
     numElements = other.numElements;
     if(other.witnessLen > 0){
-- 
2.43.0


From ccfc1e936e8a59f044a9080f03051de4355c0016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:41 +0000
Subject: [PATCH 20/57] fix: element lengths close to 2^64 overflowed the size
 of the witness buffer

---
 src/Script.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/Script.cpp b/src/Script.cpp
index 8b4616c..7ad88db 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -10,6 +10,8 @@ using std::string;
 #endif
 
 #define MAX_SCRIPT_SIZE 10000
+// Same limit for length prefixes as in Bitcoin Core
+#define MAX_PARSED_SIZE 0x02000000
 
 //------------------------------------------------------------ Script-generating functions
 
@@ -297,6 +299,12 @@ size_t Script::from_stream(ParseStream *s){
         scriptLen += ((size_t)s->read() << (8*(bytes_parsed+bytes_read-1)));
         bytes_read++;
     }
+    if(bytes_parsed+bytes_read == lenLen && scriptLen > MAX_PARSED_SIZE){
+        status = PARSING_FAILED;
+        scriptLen = 0;
+        bytes_parsed+=bytes_read;
+        return bytes_read;
+    }
     if(bytes_parsed+bytes_read == lenLen && scriptLen > 0){
         free(scriptArray);
         scriptArray = (uint8_t *) calloc( scriptLen, sizeof(uint8_t));
@@ -621,7 +629,7 @@ size_t Witness::from_stream(ParseStream *s){
             bytes_read += cur_bytes_read;
             break;
         }
-        if(lenVarInt(cur_element_len) != curLen && cur_bytes_parsed+cur_bytes_read == curLen){
+        if((lenVarInt(cur_element_len) != curLen || cur_element_len > MAX_PARSED_SIZE) && cur_bytes_parsed+cur_bytes_read == curLen){
             status = PARSING_FAILED;
             cur_bytes_parsed+=cur_bytes_read;
             bytes_read+=cur_bytes_read;
-- 
2.43.0


From 8e7666503694deed39d75f6792f7f365086f76a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:41 +0000
Subject: [PATCH 21/57] fix: scripts from segwit addresses overflowed a buffer,
 missed regtest and pushed wrong version opcodes

---
 src/Script.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/Script.cpp b/src/Script.cpp
index 7ad88db..5c5997d 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -156,7 +156,9 @@ void Script::fromAddress(const char * address){
     ScriptType type = UNKNOWN_TYPE;
     const Network * network;
     for(int i=0; i<networks_len; i++){
-        if(memcmp(address, networks[i]->bech32, strlen(networks[i]->bech32))==0){
+        // prefix followed by the separator, "bc1" is not a prefix of "bcrt1"
+        size_t prefixLen = strlen(networks[i]->bech32);
+        if(strncmp(address, networks[i]->bech32, prefixLen)==0 && address[prefixLen]=='1'){
             type = P2WPKH;
             network = networks[i];
             break;
@@ -165,7 +167,7 @@ void Script::fromAddress(const char * address){
     // segwit
     if(type == P2WPKH){
         int ver = 0;
-        uint8_t prog[32];
+        uint8_t prog[40];
         size_t prog_len = 0;
         int r = segwit_addr_decode(&ver, prog, &prog_len, network->bech32, address);
         if(r != 1){ // decoding failed
@@ -174,8 +176,8 @@ void Script::fromAddress(const char * address){
         scriptLen = prog_len + 2;
         scriptArray = (uint8_t *) calloc( scriptLen, sizeof(uint8_t));
         if(scriptArray == NULL){ scriptLen = 0; return; }
-        scriptArray[0] = ver;
-        scriptArray[1] = prog_len; // varint?
+        scriptArray[0] = (ver == 0) ? 0 : (OP_1+ver-1);
+        scriptArray[1] = prog_len; // at most 40, single byte push
         memcpy(scriptArray+2, prog, prog_len);
     }else{ // legacy or nested segwit
         int l = fromBase58Check(address, len, addr, sizeof(addr));
-- 
2.43.0


From 3c48e0a616c385a7a51b9bf01d302ab1a7977570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:41 +0000
Subject: [PATCH 22/57] fix: copies of transactions without inputs or outputs
 leaked memory

---
 src/Transaction.cpp | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index 39d74b9..0c67df2 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -230,12 +230,8 @@ Tx::Tx(const Tx & other){
 Tx& Tx::operator=(Tx const &other){ // copy-paste =(
     if (this == &other){ return *this; } // self-assignment
     version = other.version;
-    if(inputsNumber > 0){
-        delete [] txIns;
-    }
-    if(outputsNumber > 0){
-        delete [] txOuts;
-    }
+    delete [] txIns;
+    delete [] txOuts;
     inputsNumber = other.inputsNumber;
     outputsNumber = other.outputsNumber;
     txIns = new TxIn[inputsNumber];
@@ -256,16 +252,12 @@ Tx::~Tx(){
     clear();
 }
 void Tx::clear(){
-    if(inputsNumber > 0){
-        inputsNumber = 0;
-        delete [] txIns;
-        txIns = NULL;
-    }
-    if(outputsNumber > 0){
-        outputsNumber = 0;
-        delete [] txOuts;
-        txOuts = NULL;
-    }
+    inputsNumber = 0;
+    delete [] txIns;
+    txIns = NULL;
+    outputsNumber = 0;
+    delete [] txOuts;
+    txOuts = NULL;
 }
 size_t Tx::length() const{
     bool is_segwit = isSegwit();
@@ -604,9 +596,7 @@ uint8_t Tx::addInput(const TxIn txIn){
         arr[i] = txIns[i];
     }
     arr[inputsNumber] = txIn;
-    if(inputsNumber > 0){
-        delete [] txIns;
-    }
+    delete [] txIns;
     txIns = arr;
     inputsNumber++;
     return inputsNumber;
@@ -617,9 +607,7 @@ uint8_t Tx::addOutput(const TxOut txOut){
         arr[i] = txOuts[i];
     }
     arr[outputsNumber] = txOut;
-    if(outputsNumber > 0){
-        delete [] txOuts;
-    }
+    delete [] txOuts;
     txOuts = arr;
     outputsNumber++;
     return outputsNumber;
-- 
2.43.0


From b074b7254eb813e7f024e0139a420dc871e5af3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:41 +0000
Subject: [PATCH 23/57] fix: inputs built from an invalid transaction id text
 had an uninitialised hash

---
 src/Transaction.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index 0c67df2..107e9a4 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -50,19 +50,20 @@ TxIn::TxIn(const char * prev_id, uint32_t prev_index, uint32_t sequence_number){
     }
     outputIndex = prev_index;
     sequence = sequence_number;
-    uint8_t arr[32];
+    uint8_t arr[32] = { 0 };
     fromHex(prev_id, 64, arr, 32);
     for(int i=0; i<32; i++){
         hash[i] = arr[31-i];
     }
 }
 TxIn::TxIn(const char * prev_id, uint32_t prev_index, const Script script, uint32_t sequence_number){
+    init();
     outputIndex = prev_index;
     sequence = sequence_number;
     if(strlen(prev_id) < 64){
         return;
     }
-    uint8_t tmp[32];
+    uint8_t tmp[32] = { 0 };
     fromHex(prev_id, 64, tmp, 32);
     for(int i=0; i<32; i++){
         hash[i] = tmp[31-i];
-- 
2.43.0


From 7ad7a7acf7f547877ef1362967e364d578355bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:49 +0000
Subject: [PATCH 24/57] fix: transactions with more than 252 inputs or outputs
 were serialised and parsed wrongly

---
 src/Bitcoin.h       |  4 +++
 src/Transaction.cpp | 73 +++++++++++++++++++++++++++++++++++++--------
 2 files changed, 65 insertions(+), 12 deletions(-)

diff --git a/src/Bitcoin.h b/src/Bitcoin.h
index b56e78d..37355d9 100644
--- a/src/Bitcoin.h
+++ b/src/Bitcoin.h
@@ -663,6 +663,10 @@ protected:
     virtual size_t from_stream(ParseStream *s);
     virtual size_t to_stream(SerializeStream *s, size_t offset = 0) const;
     uint8_t segwit_flag;
+    // used for parsing only:
+    uint8_t inputsLenLen; // length of the varint with the number of inputs, 0 if not known yet
+    uint8_t outputsLenLen; // length of the varint with the number of outputs, 0 if not known yet
+    size_t curNumber; // number of inputs or outputs that is being parsed
     void clear();
     void init();
 public:
diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index 107e9a4..e8d7cc8 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -15,6 +15,9 @@ using std::string;
 #define UBTC_ERR_TX_OUTPUT 3
 #define UBTC_ERR_TX_SCRIPT 4
 
+// more inputs or outputs don't fit in a valid transaction
+#define MAX_TX_ITEMS 0x20000
+
 //-------------------------------------------------------------------------------------- Transaction Input
 void TxIn::init(){
     outputIndex = 0;
@@ -204,6 +207,9 @@ void Tx::init(){
     txOuts = NULL;
     locktime = 0;
     segwit_flag = 1;
+    inputsLenLen = 0;
+    outputsLenLen = 0;
+    curNumber = 0;
     status = PARSING_DONE;
     bytes_parsed = 0;
 }
@@ -225,6 +231,9 @@ Tx::Tx(const Tx & other){
     }
     locktime = other.locktime;
     segwit_flag = other.segwit_flag;
+    inputsLenLen = other.inputsLenLen;
+    outputsLenLen = other.outputsLenLen;
+    curNumber = other.curNumber;
     status = other.status;
     bytes_parsed = other.bytes_parsed;
 }
@@ -245,6 +254,9 @@ Tx& Tx::operator=(Tx const &other){ // copy-paste =(
     }
     locktime = other.locktime;
     segwit_flag = other.segwit_flag;
+    inputsLenLen = other.inputsLenLen;
+    outputsLenLen = other.outputsLenLen;
+    curNumber = other.curNumber;
     status = other.status;
     bytes_parsed = other.bytes_parsed;
     return *this;
@@ -301,7 +313,7 @@ size_t Tx::to_stream(SerializeStream *s, size_t offset) const{
     }
     size_t cur_offset = 4+2*is_segwit;
     size_t l = writeVarInt(inputsNumber, arr, 10);
-    if(s->available() && bytes_written+offset < cur_offset+l){
+    while(s->available() && bytes_written+offset < cur_offset+l){
         s->write(arr[bytes_written+offset-cur_offset]);
         bytes_written++;
     }
@@ -314,7 +326,7 @@ size_t Tx::to_stream(SerializeStream *s, size_t offset) const{
         cur_offset+=l;
     }
     l = writeVarInt(outputsNumber, arr, 10);
-    if(s->available() && bytes_written+offset < cur_offset+l){
+    while(s->available() && bytes_written+offset < cur_offset+l){
         s->write(arr[bytes_written+offset-cur_offset]);
         bytes_written++;
     }
@@ -342,6 +354,15 @@ size_t Tx::to_stream(SerializeStream *s, size_t offset) const{
     }
     return bytes_written;
 }
+// interprets first byte of the varint, returns length of the varint
+static uint8_t startVarInt(uint8_t c, size_t * num){
+    if(c < 0xfd){
+        *num = c;
+        return 1;
+    }
+    *num = 0;
+    return 1+(1 << (c - 0xfc));
+}
 size_t Tx::from_stream(ParseStream *s){
     if(status == PARSING_FAILED){
         return 0;
@@ -352,6 +373,9 @@ size_t Tx::from_stream(ParseStream *s){
         version = 0;
         locktime = 0;
         segwit_flag = 0; // keep segwit flag during parsing...
+        inputsLenLen = 0;
+        outputsLenLen = 0;
+        curNumber = 0;
     }
     status = PARSING_INCOMPLETE;
     size_t bytes_read = 0;
@@ -366,11 +390,7 @@ size_t Tx::from_stream(ParseStream *s){
         if(c == 0x00){ // segwit!
             segwit_flag = 1;
         }else{
-            inputsNumber = c; // FIXME: should be varint, but 255 inputs will kill the MCU...
-            txIns = new TxIn[inputsNumber];
-            for(unsigned int i=0; i<inputsNumber; i++){ // this will at least set all txins to PARSING_INCOMPLETE
-                bytes_read += s->parse(&txIns[i]);
-            }
+            inputsLenLen = startVarInt(c, &curNumber);
         }
     }
     if(s->available() && segwit_flag > 0 && bytes_read+bytes_parsed == 5){
@@ -383,8 +403,21 @@ size_t Tx::from_stream(ParseStream *s){
         }
     }
     if(s->available() && segwit_flag > 0 && bytes_read+bytes_parsed == 6){
-        inputsNumber = s->read();
+        inputsLenLen = startVarInt(s->read(), &curNumber);
+        bytes_read++;
+    }
+    size_t current_offset = 4+2*segwit_flag;
+    while(s->available() && bytes_read+bytes_parsed < current_offset+inputsLenLen){
+        curNumber += ((size_t)s->read() << (8*(bytes_read+bytes_parsed-current_offset-1)));
         bytes_read++;
+    }
+    if(txIns == NULL && inputsLenLen > 0 && bytes_read+bytes_parsed == current_offset+inputsLenLen){
+        if(lenVarInt(curNumber) != inputsLenLen || curNumber > MAX_TX_ITEMS){
+            status = PARSING_FAILED;
+            bytes_parsed+=bytes_read;
+            return bytes_read;
+        }
+        inputsNumber = curNumber;
         txIns = new TxIn[inputsNumber];
         for(unsigned int i=0; i<inputsNumber; i++){ // this will at least set all txins to PARSING_INCOMPLETE
             bytes_read += s->parse(&txIns[i]);
@@ -400,13 +433,29 @@ size_t Tx::from_stream(ParseStream *s){
             return bytes_read;
         }
     }
-    size_t current_offset = 5+2*segwit_flag;
+    current_offset += inputsLenLen;
+    bool inputs_parsed = (txIns != NULL);
     for(unsigned int i=0; i<inputsNumber; i++){
         current_offset += txIns[i].length();
+        if(txIns[i].getStatus() != PARSING_DONE){
+            inputs_parsed = false;
+        }
     }
-    if(s->available() && bytes_read+bytes_parsed == current_offset){
-        outputsNumber = s->read();
+    if(s->available() && inputs_parsed && bytes_read+bytes_parsed == current_offset){
+        outputsLenLen = startVarInt(s->read(), &curNumber);
         bytes_read++;
+    }
+    while(s->available() && bytes_read+bytes_parsed < current_offset+outputsLenLen){
+        curNumber += ((size_t)s->read() << (8*(bytes_read+bytes_parsed-current_offset-1)));
+        bytes_read++;
+    }
+    if(txOuts == NULL && outputsLenLen > 0 && bytes_read+bytes_parsed == current_offset+outputsLenLen){
+        if(lenVarInt(curNumber) != outputsLenLen || curNumber > MAX_TX_ITEMS){
+            status = PARSING_FAILED;
+            bytes_parsed+=bytes_read;
+            return bytes_read;
+        }
+        outputsNumber = curNumber;
         txOuts = new TxOut[outputsNumber];
         for(unsigned int i=0; i<outputsNumber; i++){ // this will at least set all txouts to PARSING_INCOMPLETE
             bytes_read += s->parse(&txOuts[i]);
@@ -422,7 +471,7 @@ size_t Tx::from_stream(ParseStream *s){
             return bytes_read;
         }
     }
-    current_offset++;
+    current_offset += (outputsLenLen > 0) ? outputsLenLen : 1;
     for(unsigned int i=0; i<outputsNumber; i++){
         current_offset += txOuts[i].length();
     }
-- 
2.43.0


From 988f29626c87dd28c5c5a919c7d0d6a85b563d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:11 +0000
Subject: [PATCH 25/57] fix: signature hashes of types NONE and SINGLE
 committed to the wrong data

---
 src/Transaction.cpp | 45 ++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index e8d7cc8..f90e36f 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -527,6 +527,12 @@ size_t Tx::from_stream(ParseStream *s){
     return bytes_read;
 }
 int Tx::sigHash(uint8_t h[32], uint8_t inputIndex, const Script scriptPubkey, SigHashType sighash) const{
+    if(sighash == SIGHASH_SINGLE && inputIndex >= outputsNumber){
+        // there is no corresponding output, the protocol signs number 1 in this case
+        memset(h, 0, 32);
+        h[0] = 1;
+        return 32;
+    }
     Script empty;
     DoubleSha s;
     s.begin();
@@ -543,13 +549,28 @@ int Tx::sigHash(uint8_t h[32], uint8_t inputIndex, const Script scriptPubkey, Si
             t.scriptSig = scriptPubkey;
         }else{
             t.scriptSig = empty;
+            if(sighash != SIGHASH_ALL){
+                t.sequence = 0;
+            }
         }
         s.serialize(&t, 0);
     }
-    l = writeVarInt(outputsNumber, arr, 10);
+    size_t outputsToSign = outputsNumber;
+    if(sighash == SIGHASH_NONE){
+        outputsToSign = 0;
+    }
+    if(sighash == SIGHASH_SINGLE){
+        outputsToSign = (size_t)inputIndex + 1;
+    }
+    l = writeVarInt(outputsToSign, arr, 10);
     s.write(arr, l);
-    for(size_t i=0; i<outputsNumber; i++){
-        s.serialize(&txOuts[i], 0);
+    for(size_t i=0; i<outputsToSign; i++){
+        if(sighash == SIGHASH_SINGLE && i != inputIndex){
+            TxOut blank(0xFFFFFFFFFFFFFFFF, empty);
+            s.serialize(&blank, 0);
+        }else{
+            s.serialize(&txOuts[i], 0);
+        }
     }
     intToLittleEndian(locktime, arr, 4);
     s.write(arr, 4);
@@ -708,7 +729,11 @@ int Tx::sigHashSegwit(uint8_t h[32], uint8_t inputIndex, const Script scriptPubK
     hashPrevouts(h);
     s.write(h, 32);
 
-    hashSequence(h);
+    if(sighash == SIGHASH_ALL){
+        hashSequence(h);
+    }else{
+        memset(h, 0, 32);
+    }
     s.write(h, 32);
 
     s.write(txIns[inputIndex].hash, 32);
@@ -721,7 +746,17 @@ int Tx::sigHashSegwit(uint8_t h[32], uint8_t inputIndex, const Script scriptPubK
     intToLittleEndian(txIns[inputIndex].sequence, arr, 4);
     s.write(arr, 4);
 
-    hashOutputs(h);
+    if(sighash == SIGHASH_ALL){
+        hashOutputs(h);
+    }else{
+        memset(h, 0, 32);
+        if(sighash == SIGHASH_SINGLE && inputIndex < outputsNumber){
+            DoubleSha so;
+            so.begin();
+            so.serialize(&txOuts[inputIndex], 0);
+            so.end(h);
+        }
+    }
     s.write(h, 32);
 
     intToLittleEndian(locktime, arr, 4);
-- 
2.43.0


From 77be2dc0c0e66a59a79c0cc38af1531b55ad3f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:11 +0000
Subject: [PATCH 26/57] fix: signatures were appended with hash type ALL
 whatever type was signed

---
 src/Transaction.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index f90e36f..b4604c6 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -776,7 +776,7 @@ Signature Tx::signInput(uint8_t inputIndex, const PrivateKey pk, const Script re
     Signature sig = pk.sign(h);
 
     Script sc;
-    sc.push(sig);
+    sc.push(sig, sighash);
     sc.push(pubkey);
     // push script itself for timelocks and other single-key things if P2SH
     if(redeemScript.type() != P2PKH){
@@ -816,7 +816,7 @@ Signature Tx::signSegwitInput(uint8_t inputIndex, const PrivateKey pk, const Scr
     }
 
     Witness w;
-    w.push(sig);
+    w.push(sig, sighash);
     w.push(pubkey);
     if(redeem_type != P2WPKH){
         w.push(redeemScript);
-- 
2.43.0


From e7563d56f9530d4a496115a31fde16c67f380746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:44 +0000
Subject: [PATCH 27/57] fix: DER parser ignored the total length and failed on
 chunks, der() overran short buffers

---
 src/Bitcoin.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index 419a2fe..a399548 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -174,6 +174,10 @@ size_t Signature::from_stream(ParseStream *stream){
         r[bytes_parsed+bytes_read-4+32-tot[1]] = stream->read();
         bytes_read++;
     }
+    if(bytes_parsed+bytes_read < 4 || bytes_parsed+bytes_read < (size_t)4+tot[1]){ // r is not complete yet
+        bytes_parsed+=bytes_read;
+        return bytes_read;
+    }
     if(rlen() != tot[1]){ status = PARSING_FAILED; return bytes_read; }
     // s
     if(stream->available() && bytes_parsed+bytes_read < (size_t)4+tot[1]+1){
@@ -195,10 +199,13 @@ size_t Signature::from_stream(ParseStream *stream){
         s[bytes_parsed+bytes_read-4-tot[1]-2-tot[2]+32] = stream->read();
         bytes_read++;
     }
-    if(slen() != tot[2]){ status = PARSING_FAILED; return bytes_read; }
-    if(bytes_parsed+bytes_read == (size_t)4+tot[1]+2+tot[2]){
-        status = PARSING_DONE;
+    if(bytes_parsed+bytes_read < (size_t)4+tot[1]+2 || bytes_parsed+bytes_read < (size_t)4+tot[1]+2+tot[2]){ // s is not complete yet
+        bytes_parsed+=bytes_read;
+        return bytes_read;
     }
+    // total length should match the content
+    if(slen() != tot[2] || tot[0] != 4+tot[1]+tot[2]){ status = PARSING_FAILED; return bytes_read; }
+    status = PARSING_DONE;
     bytes_parsed+=bytes_read;
     return bytes_read;
 }
@@ -253,6 +260,9 @@ size_t Signature::fromDer(const uint8_t * raw, size_t rawLen){
 }
 size_t Signature::der(uint8_t * bytes, size_t len) const{
     memzero(bytes, len);
+    if(len < Signature::length()){
+        return 0;
+    }
     uint8_t _rlen = rlen();
     uint8_t _slen = slen();
     bytes[0] = 0x30;
-- 
2.43.0


From 33ec284f743fef279fc43d164644df0ec4cf7ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:00 +0000
Subject: [PATCH 28/57] fix: parsing a public key kept its first byte in a
 static variable and used uninitialised memory for invalid points

---
 src/BitcoinCurve.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/BitcoinCurve.cpp b/src/BitcoinCurve.cpp
index 97170f8..9e9ec6b 100644
--- a/src/BitcoinCurve.cpp
+++ b/src/BitcoinCurve.cpp
@@ -8,7 +8,6 @@ const ECPoint InfinityPoint;
 const ECPoint GeneratorPoint("0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798");
 
 size_t ECPoint::from_stream(ParseStream *s){
-	static uint8_t first_byte;
 	if(status == PARSING_FAILED){
 		return 0;
 	}
@@ -29,7 +28,7 @@ size_t ECPoint::from_stream(ParseStream *s){
 				bytes_parsed += bytes_read;
 				return bytes_read;
 			}
-			first_byte = c;
+			point[63] = c; // keeps parity of y until we know x
 			if(c == 0x04){ // uncompressed
 				bytes_to_read += 32;
 				compressed = false;
@@ -45,10 +44,14 @@ size_t ECPoint::from_stream(ParseStream *s){
 	if(bytes_to_read==0){
 		if(compressed){
 			uint8_t buf[33];
-			buf[0] = first_byte;
+			buf[0] = 0x02 + (point[63] & 0x01);
 			memcpy(buf+1, point, 32);
             uint8_t arr[65];
-            ecdsa_uncompress_pubkey(&secp256k1, buf, arr);
+            if(!ecdsa_uncompress_pubkey(&secp256k1, buf, arr)){ // not on the curve
+                status = PARSING_FAILED;
+                bytes_parsed += bytes_read;
+                return bytes_read;
+            }
             memcpy(point, arr+1, 64);
 		}
 		status = PARSING_DONE;
@@ -89,10 +92,12 @@ size_t ECPoint::fromSec(const uint8_t * arr, size_t len){
 }
 
 ECPoint::ECPoint(const uint8_t pubkeyArr[64], bool use_compressed){ 
+	reset();
 	memcpy(point, pubkeyArr, 64);
 	compressed = use_compressed;
 };
 ECPoint::ECPoint(const uint8_t * secArr){ 
+	reset();
 	if(secArr[0] == 0x04){
 		ECPoint::fromSec(secArr, 65);
 	}else{
-- 
2.43.0


From 70bdecc2efcf869c285d7957ade87c474f84a2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:00 +0000
Subject: [PATCH 29/57] fix: importing a private key accepted malformed
 compression flags and secrets out of range, failed imports kept an old key

---
 src/Bitcoin.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index a399548..e2ae5d4 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -569,11 +569,11 @@ String PrivateKey::wif() const{
 int PrivateKey::fromWIF(const char * wifArr, size_t wifSize){
     uint8_t arr[40] = { 0 };
     size_t l = fromBase58Check(wifArr, wifSize, arr, sizeof(arr));
-    if( (l < 33) || (l > 34) ){
+    if( (l < 33) || (l > 34) || (l == 34 && arr[33] != 0x01) ){
         memzero(num, 32);
         return 0;
     }
-    bool compressed;
+    bool compressed = (l == 34);
     network = &DEFAULT_NETWORK;
     bool found = false;
     for(int i=0; i<networks_len; i++){
@@ -583,16 +583,14 @@ int PrivateKey::fromWIF(const char * wifArr, size_t wifSize){
             break;
         }
     }
-    if(!found){
+    bignum256 n;
+    bn_read_be(arr+1, &n);
+    bool valid = found && !bn_is_zero(&n) && bn_is_less(&n, &secp256k1.order);
+    memzero(&n, sizeof(n));
+    if(!valid){
+        memzero(num, 32);
         return 0;
     }
-
-    if(l == 34){
-        compressed = (arr[33] > 0);
-    }
-    if(l == 33){
-        compressed = false;
-    }
     memcpy(num, arr+1, 32);
     memzero(arr, 40); // clear memory
 
@@ -710,10 +708,12 @@ SchnorrSignature PrivateKey::schnorr_sign(const uint8_t hash[32]) const{
 }
 #if USE_ARDUINO_STRING || USE_STD_STRING
 PrivateKey::PrivateKey(const String wifString){
+    network = &DEFAULT_NETWORK;
     fromWIF(wifString.c_str());
 }
 #else
 PrivateKey::PrivateKey(const char * wifArr){
+    network = &DEFAULT_NETWORK;
     fromWIF(wifArr);
 }
 #endif
-- 
2.43.0


From e7ddbb8454b0b6f1c4c573695ee690912a8b316d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:44 +0000
Subject: [PATCH 30/57] fix: derivation paths were read outside the text,
 indexes overflowed and malformed paths were accepted

---
 src/HDWallet.cpp | 70 ++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 59 insertions(+), 11 deletions(-)

diff --git a/src/HDWallet.cpp b/src/HDWallet.cpp
index f822fc4..2ffdbc6 100644
--- a/src/HDWallet.cpp
+++ b/src/HDWallet.cpp
@@ -478,14 +478,24 @@ HDPrivateKey HDPrivateKey::derive(const char * path) const{
     static const char VALID_CHARS[] = "0123456789/'h";
     size_t len = strlen(path);
     const char * cur = path;
+    HDPrivateKey pk; // invalid private key to return if something failed
     if(path[0] == 'm'){ // remove leading "m/"
-        cur+=2;
-        len-=2;
+        cur++;
+        len--;
+        if(len > 0){
+            if(cur[0] != '/'){
+                return pk;
+            }
+            cur++;
+            len--;
+        }
     }
-    if(cur[len-1] == '/'){ // remove trailing "/"
+    if(len > 1 && cur[len-1] == '/'){ // remove trailing "/"
         len--;
     }
-    HDPrivateKey pk; // invalid private key to return if something failed
+    if(len == 0){ // nothing to derive
+        return *this;
+    }
     size_t derivationLen = 1;
     // checking if all chars are valid and counting derivation length
     for(size_t i=0; i<len; i++){
@@ -500,9 +510,15 @@ HDPrivateKey HDPrivateKey::derive(const char * path) const{
     uint32_t * derivation = (uint32_t *)calloc(derivationLen, sizeof(uint32_t));
     if(derivation == NULL){ return pk; }
     size_t current = 0;
+    bool empty = true; // no digits in the current component yet
     for(size_t i=0; i<len; i++){
+        if(empty && (cur[i] < '0' || cur[i] > '9')){ // should start with a digit
+            free(derivation);
+            return pk;
+        }
         if(cur[i] == '/'){ // next
             current++;
+            empty = true;
             continue;
         }
         const char * pch = strchr(VALID_CHARS, cur[i]);
@@ -512,11 +528,21 @@ HDPrivateKey HDPrivateKey::derive(const char * path) const{
             return pk;
         }
         if(val < 10){
-            derivation[current] = derivation[current]*10 + val;
+            uint64_t next = (uint64_t)derivation[current]*10 + val;
+            if(next >= HARDENED_INDEX){ // too large
+                free(derivation);
+                return pk;
+            }
+            derivation[current] = next;
+            empty = false;
         }else{ // h or ' -> hardened
             derivation[current] += HARDENED_INDEX;
         }
     }
+    if(empty){
+        free(derivation);
+        return pk;
+    }
     pk = derive(derivation, derivationLen);
     free(derivation);
     return pk;
@@ -817,14 +843,24 @@ HDPublicKey HDPublicKey::derive(const char * path) const{
     static const char VALID_CHARS[] = "0123456789/";
     size_t len = strlen(path);
     const char * cur = path;
+    HDPublicKey pk; // dummy to return if something failed
     if(path[0] == 'm'){ // remove leading "m/"
-        cur+=2;
-        len-=2;
+        cur++;
+        len--;
+        if(len > 0){
+            if(cur[0] != '/'){
+                return pk;
+            }
+            cur++;
+            len--;
+        }
     }
-    if(cur[len-1] == '/'){ // remove trailing "/"
+    if(len > 1 && cur[len-1] == '/'){ // remove trailing "/"
         len--;
     }
-    HDPublicKey pk; // dummy to return if something failed
+    if(len == 0){ // nothing to derive
+        return *this;
+    }
     size_t derivationLen = 1;
     // checking if all chars are valid and counting derivation length
     for(size_t i=0; i<len; i++){
@@ -839,18 +875,30 @@ HDPublicKey HDPublicKey::derive(const char * path) const{
     uint32_t * derivation = (uint32_t *)calloc(derivationLen, sizeof(uint32_t));
     if(derivation == NULL){ return pk; }
     size_t current = 0;
+    bool empty = true; // no digits in the current component yet
     for(size_t i=0; i<len; i++){
         if(cur[i] == '/'){ // next
-            if(derivation[current] >= HARDENED_INDEX){ // can't be hardened
+            if(empty){
                 free(derivation);
                 return pk;
             }
             current++;
+            empty = true;
             continue;
         }
         const char * pch = strchr(VALID_CHARS, cur[i]);
         uint32_t val = pch-VALID_CHARS;
-        derivation[current] = derivation[current]*10 + val;
+        uint64_t next = (uint64_t)derivation[current]*10 + val;
+        if(next >= HARDENED_INDEX){ // can't be hardened
+            free(derivation);
+            return pk;
+        }
+        derivation[current] = next;
+        empty = false;
+    }
+    if(empty){
+        free(derivation);
+        return pk;
     }
     pk = derive(derivation, derivationLen);
     free(derivation);
-- 
2.43.0


From 3e7dcf08d83357c9363b27fc7e6ebe8be426cc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:44 +0000
Subject: [PATCH 31/57] fix: hardened children of public keys were derived with
 a meaningless result

---
 src/HDWallet.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/HDWallet.cpp b/src/HDWallet.cpp
index 2ffdbc6..2d419f8 100644
--- a/src/HDWallet.cpp
+++ b/src/HDWallet.cpp
@@ -801,6 +801,9 @@ String HDPublicKey::fingerprint() const{
 
 HDPublicKey HDPublicKey::child(uint32_t index) const{
     HDPublicKey child;
+    if(index >= HARDENED_INDEX){ // can't derive hardened child from the public key
+        return child;
+    }
 
     uint8_t secArr[65] = { 0 };
     int l = sec(secArr, sizeof(secArr));
@@ -835,6 +838,9 @@ HDPublicKey HDPublicKey::child(uint32_t index) const{
 HDPublicKey HDPublicKey::derive(uint32_t * index, size_t len) const{
     HDPublicKey pk = *this;
     for(size_t i=0; i<len; i++){
+        if(index[i] >= HARDENED_INDEX){ // can't derive hardened child from the public key
+            return HDPublicKey();
+        }
         pk = pk.child(index[i]);
     }
     return pk;
-- 
2.43.0


From 0e90e039cdf574253b5dac5e732171ab4dee85c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:44 +0000
Subject: [PATCH 32/57] fix: extended keys of wrong length were accepted, xpubs
 without a point used uninitialised memory

---
 src/HDWallet.cpp | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/src/HDWallet.cpp b/src/HDWallet.cpp
index 2d419f8..0bb03f5 100644
--- a/src/HDWallet.cpp
+++ b/src/HDWallet.cpp
@@ -214,14 +214,13 @@ size_t HDPrivateKey::from_stream(ParseStream *s){
     }
     if(bytes_parsed+bytes_read == 78){
         status = PARSING_DONE;
-        uint8_t zero[32] = { 0 };
-        if(memcmp(num, zero, 32)==0){ // should we add something else here?
-            status = PARSING_FAILED;
-        }
         bignum256 n;
         bn_read_be(num, &n);
-        bn_mod(&n, &secp256k1.order);
-        bn_write_be(&n, num);
+        if(bn_is_zero(&n) || !bn_is_less(&n, &secp256k1.order)){ // not a valid private key
+            status = PARSING_FAILED;
+            memzero(num, 32);
+        }
+        memzero(&n, sizeof(n));
         pubKey = *this * GeneratorPoint;
         pubKey.compressed = true;
     }
@@ -232,10 +231,10 @@ size_t HDPrivateKey::from_str(const char * xprvArr, size_t xprvLen){
     init();
     uint8_t arr[85] = { 0 };
     size_t l = fromBase58Check(xprvArr, xprvLen, arr, sizeof(arr));
-    if(l == 0){
+    if(l != 78){
         return 0; // decoding error
     }
-    ParseByteStream s(arr, sizeof(arr));
+    ParseByteStream s(arr, l);
     HDPrivateKey::from_stream(&s);
     return xprvLen;
 }
@@ -671,23 +670,24 @@ size_t HDPublicKey::from_stream(ParseStream *s){
         status = PARSING_DONE;
         uint8_t arr[33];
         memcpy(arr, point, 33);
-        uint8_t buf[65];
-        ecdsa_uncompress_pubkey(&secp256k1, arr, buf);
-        memcpy(point, buf+1, 64);
-        if(!isValid()){
+        uint8_t buf[65] = { 0 };
+        if((arr[0] != 0x02 && arr[0] != 0x03) || !ecdsa_uncompress_pubkey(&secp256k1, arr, buf)){
             status = PARSING_FAILED;
         }
+        memcpy(point, buf+1, 64);
+        compressed = true;
     }
     bytes_parsed += bytes_read;
     return bytes_read;
 }
 size_t HDPublicKey::from_str(const char * xpubArr, size_t xpubLen){
+    reset();
     uint8_t arr[85] = { 0 };
     size_t l = fromBase58Check(xpubArr, xpubLen, arr, sizeof(arr));
-    if(l == 0){
+    if(l != 78){
         return 0; // decoding error
     }
-    ParseByteStream s(arr, sizeof(arr));
+    ParseByteStream s(arr, l);
     HDPublicKey::from_stream(&s);
     return xpubLen;
 }
@@ -736,11 +736,7 @@ HDPublicKey &HDPublicKey::operator=(const HDPublicKey &other){
     memcpy(parentFingerprint, other.parentFingerprint, 4);
     return *this;
 };*/
-HDPublicKey::HDPublicKey(const char * xpubArr){
-    reset();
-    memzero(prefix, 4);
-    childNumber = 0;
-    network = &DEFAULT_NETWORK;
+HDPublicKey::HDPublicKey(const char * xpubArr):HDPublicKey(){
     from_str(xpubArr, strlen(xpubArr));
 }
 HDPublicKey::~HDPublicKey(void) {
-- 
2.43.0


From 361e6b7c2883dcd44fc2ca0c6e15045018685a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:55 +0000
Subject: [PATCH 33/57] fix: descriptorChecksum accepted the NUL character as
 part of the descriptor alphabet

---
 src/PSBT.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index a262a08..489300c 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -55,7 +55,7 @@ size_t descriptorChecksum(const char * span, size_t spanLen, char * output, size
     for(size_t i=0; i<spanLen; i++){
         char ch = span[i];
         const char * pch = strchr(INPUT_CHARSET, ch);
-        if(pch==NULL){ // char not in the alphabet
+        if(ch == 0 || pch==NULL){ // char not in the alphabet
             return 0;
         }
         size_t pos = pch - INPUT_CHARSET;
-- 
2.43.0


From 765d1933150d1c6eff691e4435263b4fb0f22ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:58 +0000
Subject: [PATCH 34/57] fix: valid recovery phrases of 15 and 21 words were
 rejected

---
 src/utility/trezor/bip39.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/utility/trezor/bip39.c b/src/utility/trezor/bip39.c
index e02422f..4cd9767 100755
--- a/src/utility/trezor/bip39.c
+++ b/src/utility/trezor/bip39.c
@@ -116,7 +116,7 @@ int mnemonic_to_entropy(const char *mnemonic, uint8_t *entropy)
 	n++;
 
 	// check number of words
-	if (n != 12 && n != 18 && n != 24) {
+	if (n % 3 || n < 12 || n > 24) {
 		return 0;
 	}
 
@@ -167,7 +167,7 @@ int mnemonic_check(const char *mnemonic)
 {
 	uint8_t bits[32 + 1];
 	int seed_len = mnemonic_to_entropy(mnemonic, bits);
-	if (seed_len != (12 * 11) && seed_len != (18 * 11) && seed_len != (24 * 11)) {
+	if (seed_len == 0) {
 		return 0;
 	}
 	int words = seed_len / 11;
@@ -176,8 +176,12 @@ int mnemonic_check(const char *mnemonic)
 	sha256_Raw(bits, words * 4 / 3, bits);
 	if (words == 12) {
 		return (bits[0] & 0xF0) == (checksum & 0xF0); // compare first 4 bits
+	} else if (words == 15) {
+		return (bits[0] & 0xF8) == (checksum & 0xF8); // compare first 5 bits
 	} else if (words == 18) {
 		return (bits[0] & 0xFC) == (checksum & 0xFC); // compare first 6 bits
+	} else if (words == 21) {
+		return (bits[0] & 0xFE) == (checksum & 0xFE); // compare first 7 bits
 	} else if (words == 24) {
 		return bits[0] == checksum; // compare 8 bits
 	}
-- 
2.43.0


From 6d97d6e141e4dce2c1b777ab7b8abf43fc8514f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:58 +0000
Subject: [PATCH 35/57] fix: mnemonic_to_seed overflowed its salt buffer for
 passphrases longer than 256 characters

---
 src/utility/trezor/bip39.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utility/trezor/bip39.c b/src/utility/trezor/bip39.c
index 4cd9767..3a403ce 100755
--- a/src/utility/trezor/bip39.c
+++ b/src/utility/trezor/bip39.c
@@ -193,6 +193,9 @@ void mnemonic_to_seed(const char *mnemonic, const char *passphrase, uint8_t seed
 {
 	int mnemoniclen = strlen(mnemonic);
 	int passphraselen = strlen(passphrase);
+	if (passphraselen > 256) {
+		passphraselen = 256;
+	}
 #if USE_BIP39_CACHE
 	// check cache
 	if (mnemoniclen < 256 && passphraselen < 64) {
-- 
2.43.0


From 0eabdbb7b58033a8aeb6797aad1f2bed3787637f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:58 +0000
Subject: [PATCH 36/57] fix: mnemonicToEntropy ignored the length it was given

---
 src/Bitcoin.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index e2ae5d4..ebd7698 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -41,9 +41,14 @@ const char * mnemonicFromEntropy(const uint8_t * entropy_data, size_t dataLen){
     return mnemonic_from_data(entropy_data, dataLen);
 }
 size_t mnemonicToEntropy(const char * mnemonic, size_t mnemonicLen, uint8_t * output, size_t outputLen){
+    char phrase[24*10] = {0}; // longer than any valid phrase
+    if(mnemonicLen >= sizeof(phrase)){
+        return 0;
+    }
+    memcpy(phrase, mnemonic, mnemonicLen);
     int num_words = 1;
-    for (size_t i = 0; i < strlen(mnemonic); i++){
-        if(mnemonic[i] == ' '){
+    for (size_t i = 0; i < strlen(phrase); i++){
+        if(phrase[i] == ' '){
             num_words ++;
         }
     }
@@ -52,7 +57,8 @@ size_t mnemonicToEntropy(const char * mnemonic, size_t mnemonicLen, uint8_t * ou
         return 0;
     }
     uint8_t res[33] = {0};
-    int r = mnemonic_to_entropy(mnemonic, res);
+    int r = mnemonic_to_entropy(phrase, res);
+    memzero(phrase, sizeof(phrase));
     if(r == 0){
         return 0;
     }
-- 
2.43.0


From 7a9ff54e3f8192576f7b251de17900b04128a206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:13 +0000
Subject: [PATCH 37/57] fix: ecdsa_verify_digest rejected valid signatures of a
 digest that is zero modulo the group order

---
 src/utility/trezor/ecdsa.c | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/utility/trezor/ecdsa.c b/src/utility/trezor/ecdsa.c
index b123b91..829c7dd 100755
--- a/src/utility/trezor/ecdsa.c
+++ b/src/utility/trezor/ecdsa.c
@@ -1099,13 +1099,8 @@ int ecdsa_verify_digest(const ecdsa_curve *curve, const uint8_t *pub_key, const
 	bn_mod(&s, &curve->order);
 
 	int result = 0;
-	if (bn_is_zero(&z)) {
-		// our message hashes to zero
-		// I don't expect this to happen any time soon
-		result = 3;
-	} else {
-		scalar_multiply(curve, &z, &res);
-	}
+	// our message can hash to zero, then the result is infinity
+	scalar_multiply(curve, &z, &res);
 
 	if (result == 0) {
 		// both pub and res can be infinity, can have y = 0 OR can be equal -> false negative
-- 
2.43.0


From 6a39daffed75f78dfa399b762f0f0bb00a9241bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:13 +0000
Subject: [PATCH 38/57] fix: verify used the 78-byte form of extended public
 keys as a curve point

---
 src/Bitcoin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index ebd7698..68197fe 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -454,7 +454,7 @@ bool PublicKey::verify(const Signature sig, const uint8_t hash[32]) const{
     uint8_t signature[64] = {0};
     sig.bin(signature, 64);
     uint8_t pub[65];
-    serialize(pub, 65);
+    sec(pub, 65);
     return (ecdsa_verify_digest(&secp256k1, pub, signature, hash)==0);
 }
 bool PublicKey::schnorr_verify(const SchnorrSignature sig, const uint8_t hash[32]) const{
-- 
2.43.0


From ea58b29f363d7cb98c62e67b9c796659ab8c3f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:13 +0000
Subject: [PATCH 39/57] fix: scalar operators were wrong for large 32-bit
 operands and for the negation of zero

---
 src/BitcoinCurve.cpp | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/src/BitcoinCurve.cpp b/src/BitcoinCurve.cpp
index 9e9ec6b..27d9bff 100644
--- a/src/BitcoinCurve.cpp
+++ b/src/BitcoinCurve.cpp
@@ -211,30 +211,19 @@ ECScalar ECScalar::operator+(const ECScalar& other) const{
 	return sum;
 }
 ECScalar ECScalar::operator+(const uint32_t& i) const{
-	bignum256 a;
-	bn_read_be(this->num, &a);
-	bn_addi(&a, i);
-	bn_mod(&a, &secp256k1.order);
-	ECScalar sum;
-	bn_write_be(&a, sum.num);
-	return sum;
+	return *this + ECScalar(i);
 }
 ECScalar ECScalar::operator-() const{
     bignum256 a, b;
 	bn_read_be(this->num, &a);
 	bn_subtract(&secp256k1.order, &a, &b);
+	bn_mod(&b, &secp256k1.order); // -0 = 0
 	ECScalar neg;
 	bn_write_be(&b, neg.num);
 	return neg;
 }
 ECScalar ECScalar::operator-(const uint32_t& i) const{
-    bignum256 a;
-	bn_read_be(this->num, &a);
-	bn_subi(&a, i, &secp256k1.order);
-    bn_mod(&a, &secp256k1.order);
-	ECScalar sum;
-	bn_write_be(&a, sum.num);
-	return sum;
+	return *this - ECScalar(i);
 }
 ECScalar ECScalar::operator-(const ECScalar& other) const{
 	return (*this+(-other));
-- 
2.43.0


From a9b2c94353aab05bc1b097490c82334419cd2de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:13 +0000
Subject: [PATCH 40/57] fix: schnorr_verify accepted negated s, s out of range
 and r that is not an x coordinate

---
 src/Bitcoin.cpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index 68197fe..a7841bd 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -458,14 +458,27 @@ bool PublicKey::verify(const Signature sig, const uint8_t hash[32]) const{
     return (ecdsa_verify_digest(&secp256k1, pub, signature, hash)==0);
 }
 bool PublicKey::schnorr_verify(const SchnorrSignature sig, const uint8_t hash[32]) const{
+    if(!ECPoint::isValid()){
+        return false;
+    }
     PublicKey pub = *this;
     if(!pub.isEven()){
         pub = -pub;
     }
     uint8_t rs[64];
     sig.serialize(rs, sizeof(rs));
+    // s has to be less than the group order
+    bignum256 sbn;
+    bn_read_be(rs+32, &sbn);
+    if(!bn_is_less(&sbn, &secp256k1.order)){
+        return false;
+    }
+    // r has to be an x coordinate of a point on the curve
     PublicKey R;
     R.from_x(rs, 32);
+    if(!R.isValid()){
+        return false;
+    }
     // calculate hash using tagged hash with "BIP0340/challenge" prefix
     uint8_t e[32];
     uint8_t tmp[32];
@@ -478,12 +491,10 @@ bool PublicKey::schnorr_verify(const SchnorrSignature sig, const uint8_t hash[32
     // write message
     tch.write(hash, 32);
     tch.end(e);
-    PrivateKey challenge(e);
-    PublicKey S = challenge*pub + R;
-    S.x(tmp, sizeof(tmp));
-    PrivateKey s(rs+32);
-    s.publicKey().x(e, 32);
-    return memcmp(tmp, e, 32) == 0;
+    ECScalar challenge(e, sizeof(e));
+    ECScalar s(rs+32, 32);
+    // s*G = R + e*P, y coordinates have to match as well
+    return s*GeneratorPoint == challenge*pub + R;
 };
 
 // ---------------------------------------------------------------- PrivateKey class
-- 
2.43.0


From acf4342d0a658f16df910e91e50eca3014a9d82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:13 +0000
Subject: [PATCH 41/57] fix: schnorr_sign did not reduce nonce and challenge
 modulo the group order

---
 src/Bitcoin.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index a7841bd..3bb4e9c 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -698,7 +698,7 @@ SchnorrSignature PrivateKey::schnorr_sign(const uint8_t hash[32]) const{
     tnonce.write(tmp, sizeof(tmp));
     tnonce.write(hash, 32);
     tnonce.end(nonce);
-    PrivateKey k(nonce);
+    PrivateKey k(ECScalar(nonce, sizeof(nonce))); // nonce mod n
     PublicKey R = k.publicKey();
     // flip k if r is not even
     if(!R.isEven()){
@@ -715,7 +715,7 @@ SchnorrSignature PrivateKey::schnorr_sign(const uint8_t hash[32]) const{
     tch.write(tmp, sizeof(tmp));
     tch.write(hash, 32);
     tch.end(e);
-    PrivateKey challenge(e);
+    ECScalar challenge(e, sizeof(e)); // e mod n
     // calculate s
     PrivateKey S = k + challenge*prv;
     S.getSecret(s);
-- 
2.43.0


From 14655c4fa1e093390fb48b4eba4d72d2aff7e9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:49 +0000
Subject: [PATCH 42/57] fix: intToBigEndian and intToLittleEndian shifted by
 more than the width for fields longer than 8 bytes (ECScalar(uint32_t) was
 wrong)

---
 src/Conversion.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index 2adfc89..bded38d 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -838,7 +838,7 @@ uint64_t littleEndianToInt(const uint8_t * array, size_t arraySize){
 
 void intToLittleEndian(uint64_t num, uint8_t * array, size_t arraySize){
     for(size_t i = 0; i < arraySize; i++){
-        array[i] = ((num >> (8*i)) & 0xFF);
+        array[i] = (i < sizeof(num)) ? ((num >> (8*i)) & 0xFF) : 0;
     }
 }
 
@@ -853,7 +853,7 @@ uint64_t bigEndianToInt(const uint8_t * array, size_t arraySize){
 
 void intToBigEndian(uint64_t num, uint8_t * array, size_t arraySize){
     for(size_t i = 0; i < arraySize; i++){
-        array[arraySize-i-1] = ((num >> (8*i)) & 0xFF);
+        array[arraySize-i-1] = (i < sizeof(num)) ? ((num >> (8*i)) & 0xFF) : 0;
     }
 }
 
-- 
2.43.0


From c18fe96c4bc5815c967e4061bde99634fef18043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:41 +0000
Subject: [PATCH 43/57] fix: PSBT that failed to parse its transaction was
 freed through null metadata

---
 src/PSBT.cpp | 76 +++++++++-------------------------------------------
 src/PSBT.h   |  1 +
 2 files changed, 13 insertions(+), 64 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 489300c..2ad94c2 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -90,36 +90,7 @@ size_t PSBT::from_stream(ParseStream *s){
         return 0;
     }
     if(status == PARSING_DONE){
-        // free memory
-        if(tx.inputsNumber > 0){
-            for(size_t i=0; i<tx.inputsNumber; i++){
-                if(txInsMeta[i].derivationsLen > 0){
-                    for(size_t j=0; j<txInsMeta[i].derivationsLen; j++){
-                        if(txInsMeta[i].derivations[j].derivationLen > 0){
-                            free(txInsMeta[i].derivations[j].derivation);
-                        }
-                    }
-                    delete [] txInsMeta[i].derivations;
-                }
-                if(txInsMeta[i].signaturesLen > 0){
-                    delete [] txInsMeta[i].signatures;
-                }
-            }
-            delete [] txInsMeta;
-        }
-        if(tx.outputsNumber > 0){
-            for(size_t i=0; i<tx.outputsNumber; i++){
-                if(txOutsMeta[i].derivationsLen > 0){
-                    for(size_t j=0; j<txOutsMeta[i].derivationsLen; j++){
-                        if(txOutsMeta[i].derivations[j].derivationLen > 0){
-                            free(txOutsMeta[i].derivations[j].derivation);
-                        }
-                    }
-                    delete [] txOutsMeta[i].derivations;
-                }
-            }
-            delete [] txOutsMeta;
-        }
+        freeMeta();
         tx.reset();
         bytes_parsed = 0;
         current_section = 0;
@@ -566,9 +537,9 @@ PSBT::PSBT(PSBT const &other){
     }
 }
 
-PSBT::~PSBT(){
-    // free memory
-    if(tx.inputsNumber > 0){
+// frees the metadata; the number of inputs and outputs should be the one it was allocated for
+void PSBT::freeMeta(){
+    if(txInsMeta != NULL){
         for(size_t i=0; i<tx.inputsNumber; i++){
             if(txInsMeta[i].derivationsLen > 0){
                 for(size_t j=0; j<txInsMeta[i].derivationsLen; j++){
@@ -583,8 +554,9 @@ PSBT::~PSBT(){
             }
         }
         delete [] txInsMeta;
+        txInsMeta = NULL;
     }
-    if(tx.outputsNumber > 0){
+    if(txOutsMeta != NULL){
         for(size_t i=0; i<tx.outputsNumber; i++){
             if(txOutsMeta[i].derivationsLen > 0){
                 for(size_t j=0; j<txOutsMeta[i].derivationsLen; j++){
@@ -596,9 +568,14 @@ PSBT::~PSBT(){
             }
         }
         delete [] txOutsMeta;
+        txOutsMeta = NULL;
     }
 }
 
+PSBT::~PSBT(){
+    freeMeta();
+}
+
 uint8_t PSBT::sign(const HDPrivateKey root){
     uint8_t fingerprint[4];
     root.fingerprint(fingerprint);
@@ -739,36 +716,7 @@ bool PSBT::isMine(uint8_t outputNumber, const HDPrivateKey xprv) const{
 
 PSBT& PSBT::operator=(PSBT const &other){
     if (this == &other){ return *this; } // self-assignment
-    // free memory
-    if(tx.inputsNumber > 0){
-        for(size_t i=0; i<tx.inputsNumber; i++){
-            if(txInsMeta[i].derivationsLen > 0){
-                for(size_t j=0; j<txInsMeta[i].derivationsLen; j++){
-                    if(txInsMeta[i].derivations[j].derivationLen > 0){
-                        free(txInsMeta[i].derivations[j].derivation);
-                    }
-                }
-                delete [] txInsMeta[i].derivations;
-            }
-            if(txInsMeta[i].signaturesLen > 0){
-                delete [] txInsMeta[i].signatures;
-            }
-        }
-        delete [] txInsMeta;
-    }
-    if(tx.outputsNumber > 0){
-        for(size_t i=0; i<tx.outputsNumber; i++){
-            if(txOutsMeta[i].derivationsLen > 0){
-                for(size_t j=0; j<txOutsMeta[i].derivationsLen; j++){
-                    if(txOutsMeta[i].derivations[j].derivationLen > 0){
-                        free(txOutsMeta[i].derivations[j].derivation);
-                    }
-                }
-                delete [] txOutsMeta[i].derivations;
-            }
-        }
-        delete [] txOutsMeta;
-    }
+    freeMeta();
     // copy
     tx = other.tx;
     status = other.status;
diff --git a/src/PSBT.h b/src/PSBT.h
index 60073a2..1debc47 100644
--- a/src/PSBT.h
+++ b/src/PSBT.h
@@ -74,6 +74,7 @@ protected:
     Script value; // value for parsing
     uint8_t current_section;
     size_t last_key_pos;
+    void freeMeta();
 public:
     virtual size_t length() const;
     PSBT(){ txInsMeta = NULL; txOutsMeta = NULL; status = PARSING_DONE; current_section = 0; last_key_pos = 0; };
-- 
2.43.0


From b15312845d7cccacfc4e5590000a8150984d4a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:41 +0000
Subject: [PATCH 44/57] fix: PSBT derivations with short values, invalid keys
 or more than 255 entries read or freed foreign memory; leaks

---
 src/PSBT.cpp | 50 ++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 36 insertions(+), 14 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 2ad94c2..75d6720 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -291,6 +291,10 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                     res = -2;
                     break;
                 }
+                if(txInsMeta[input].signaturesLen == 255){ // the number is kept in one byte
+                    res = -2;
+                    break;
+                }
                 if(txInsMeta[input].signaturesLen == 0){
                     txInsMeta[input].signaturesLen = 1;
                     txInsMeta[input].signatures = new PSBTPartialSignature[txInsMeta[input].signaturesLen];
@@ -335,6 +339,18 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                     res = -1;
                     break;
                 }
+                size_t l = lenVarInt(v->length());
+                PublicKey pub;
+                pub.parse(key_arr+2, k->length()-2);
+                if(pub.getStatus() != PARSING_DONE){
+                    res = -1;
+                    break;
+                }
+                // fingerprint and whole indexes, both lengths are kept in one byte
+                if(v->length() < l+4 || (v->length()-l) % 4 != 0 || (v->length()-l)/4 > 256 || txInsMeta[input].derivationsLen == 255){
+                    res = -2;
+                    break;
+                }
                 if(txInsMeta[input].derivationsLen == 0){
                     txInsMeta[input].derivationsLen = 1;
                     txInsMeta[input].derivations = new PSBTDerivation[txInsMeta[input].derivationsLen];
@@ -348,11 +364,7 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                     delete [] p;
                 }
                 PSBTDerivation * der = &txInsMeta[input].derivations[txInsMeta[input].derivationsLen-1];
-                der->pubkey.parse(key_arr+2, k->length()-2);
-                if(der->pubkey.getStatus() != PARSING_DONE){
-                    res = -1;
-                    break;
-                }
+                der->pubkey = pub;
                 memcpy(der->fingerprint, val_arr+lenVarInt(v->length()), 4);
                 der->derivationLen = (v->length()-lenVarInt(v->length())-4)/sizeof(uint32_t);
                 der->derivation = (uint32_t *)calloc(der->derivationLen, sizeof(uint32_t));
@@ -377,7 +389,8 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
         switch(key_code){
             case 0: { // PSBT_OUT_REDEEM_SCRIPT
                 if(k->length() != 2){
-                    return -1;
+                    res = -1;
+                    break;
                 }
                 txOutsMeta[output].redeemScript.parse(val_arr, v->length());
                 res = 1;
@@ -385,7 +398,8 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
             }
             case 1: { // PSBT_OUT_WITNESS_SCRIPT
                 if(k->length() != 2){
-                    return -1;
+                    res = -1;
+                    break;
                 }
                 txOutsMeta[output].witnessScript.parse(val_arr, v->length());
                 res = 1;
@@ -397,6 +411,18 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                     res = -1;
                     break;
                 }
+                size_t l = lenVarInt(v->length());
+                PublicKey pub;
+                pub.parse(key_arr+2, k->length()-2);
+                if(pub.getStatus() != PARSING_DONE){
+                    res = -1;
+                    break;
+                }
+                // fingerprint and whole indexes, both lengths are kept in one byte
+                if(v->length() < l+4 || (v->length()-l) % 4 != 0 || (v->length()-l)/4 > 256 || txOutsMeta[output].derivationsLen == 255){
+                    res = -2;
+                    break;
+                }
                 if(txOutsMeta[output].derivationsLen == 0){
                     txOutsMeta[output].derivationsLen = 1;
                     txOutsMeta[output].derivations = new PSBTDerivation[txOutsMeta[output].derivationsLen];
@@ -410,11 +436,7 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                     delete [] p;
                 }
                 PSBTDerivation * der = &txOutsMeta[output].derivations[txOutsMeta[output].derivationsLen-1];
-                der->pubkey.parse(key_arr+2, k->length()-2);
-                if(der->pubkey.getStatus() != PARSING_DONE){
-                    res = -1;
-                    break;
-                }
+                der->pubkey = pub;
                 memcpy(der->fingerprint, val_arr+lenVarInt(v->length()), 4);
                 der->derivationLen = (v->length()-lenVarInt(v->length())-4)/sizeof(uint32_t);
                 der->derivation = (uint32_t *)calloc(der->derivationLen, sizeof(uint32_t));
@@ -543,7 +565,7 @@ void PSBT::freeMeta(){
         for(size_t i=0; i<tx.inputsNumber; i++){
             if(txInsMeta[i].derivationsLen > 0){
                 for(size_t j=0; j<txInsMeta[i].derivationsLen; j++){
-                    if(txInsMeta[i].derivations[j].derivationLen > 0){
+                    if(txInsMeta[i].derivations[j].derivation != NULL){
                         free(txInsMeta[i].derivations[j].derivation);
                     }
                 }
@@ -560,7 +582,7 @@ void PSBT::freeMeta(){
         for(size_t i=0; i<tx.outputsNumber; i++){
             if(txOutsMeta[i].derivationsLen > 0){
                 for(size_t j=0; j<txOutsMeta[i].derivationsLen; j++){
-                    if(txOutsMeta[i].derivations[j].derivationLen > 0){
+                    if(txOutsMeta[i].derivations[j].derivation != NULL){
                         free(txOutsMeta[i].derivations[j].derivation);
                     }
                 }
-- 
2.43.0


From 48f79abad598adcdb9b4018813e4a0affe917671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:41 +0000
Subject: [PATCH 45/57] fix: copies of a PSBT leaked, crashed on failed ones
 and could not continue parsing

---
 src/PSBT.cpp | 48 ++++++++++--------------------------------------
 1 file changed, 10 insertions(+), 38 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 75d6720..1c2d600 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -521,42 +521,8 @@ size_t PSBT::length() const{
 }
 
 PSBT::PSBT(PSBT const &other){
-    reset();
-    txInsMeta = NULL; txOutsMeta = NULL; status = PARSING_DONE; current_section = 0; last_key_pos = 0;
-    tx = other.tx;
-    status = other.status;
-    txInsMeta = new PSBTInputMetadata[tx.inputsNumber];
-    txOutsMeta = new PSBTOutputMetadata[tx.outputsNumber];
-    for(size_t i=0; i<tx.inputsNumber; i++){
-        txInsMeta[i] = other.txInsMeta[i];
-        txInsMeta[i].derivations = new PSBTDerivation[txInsMeta[i].derivationsLen];
-        for(size_t j=0; j<txInsMeta[i].derivationsLen; j++){
-            txInsMeta[i].derivations[j] = other.txInsMeta[i].derivations[j];
-            txInsMeta[i].derivations[j].derivation = (uint32_t *)calloc(txInsMeta[i].derivations[j].derivationLen, sizeof(uint32_t));
-            if(txInsMeta[i].derivations[j].derivation == NULL){
-                txInsMeta[i].derivations[j].derivationLen = 0;
-            }else{
-                memcpy(txInsMeta[i].derivations[j].derivation, other.txInsMeta[i].derivations[j].derivation, txInsMeta[i].derivations[j].derivationLen*sizeof(uint32_t));
-            }
-        }
-        txInsMeta[i].signatures = new PSBTPartialSignature[txInsMeta[i].signaturesLen];
-        for(size_t j=0; j<txInsMeta[i].signaturesLen; j++){
-            txInsMeta[i].signatures[j] = other.txInsMeta[i].signatures[j];
-        }
-    }
-    for(size_t i=0; i<tx.outputsNumber; i++){
-        txOutsMeta[i] = other.txOutsMeta[i];
-        txOutsMeta[i].derivations = new PSBTDerivation[txOutsMeta[i].derivationsLen];
-        for(size_t j=0; j<txOutsMeta[i].derivationsLen; j++){
-            txOutsMeta[i].derivations[j] = other.txOutsMeta[i].derivations[j];
-            txOutsMeta[i].derivations[j].derivation = (uint32_t *)calloc(txOutsMeta[i].derivations[j].derivationLen, sizeof(uint32_t));
-            if(txOutsMeta[i].derivations[j].derivation == NULL){
-                txOutsMeta[i].derivations[j].derivationLen = 0;
-            }else{
-                memcpy(txOutsMeta[i].derivations[j].derivation, other.txOutsMeta[i].derivations[j].derivation, txOutsMeta[i].derivations[j].derivationLen*sizeof(uint32_t));
-            }
-        }
-    }
+    txInsMeta = NULL; txOutsMeta = NULL;
+    *this = other;
 }
 
 // frees the metadata; the number of inputs and outputs should be the one it was allocated for
@@ -742,7 +708,12 @@ PSBT& PSBT::operator=(PSBT const &other){
     // copy
     tx = other.tx;
     status = other.status;
-    if(tx.inputsNumber > 0){
+    bytes_parsed = other.bytes_parsed;
+    key = other.key;
+    value = other.value;
+    current_section = other.current_section;
+    last_key_pos = other.last_key_pos;
+    if(other.txInsMeta != NULL){
         txInsMeta = new PSBTInputMetadata[tx.inputsNumber];
         for(size_t i=0; i<tx.inputsNumber; i++){
             txInsMeta[i] = other.txInsMeta[i];
@@ -766,10 +737,11 @@ PSBT& PSBT::operator=(PSBT const &other){
             }
         }
     }
-    if(tx.outputsNumber > 0){
+    if(other.txOutsMeta != NULL){
         txOutsMeta = new PSBTOutputMetadata[tx.outputsNumber];
         for(size_t i=0; i<tx.outputsNumber; i++){
             txOutsMeta[i] = other.txOutsMeta[i];
+            if(txOutsMeta[i].derivationsLen == 0){ continue; }
             txOutsMeta[i].derivations = new PSBTDerivation[txOutsMeta[i].derivationsLen];
             for(size_t j=0; j<txOutsMeta[i].derivationsLen; j++){
                 txOutsMeta[i].derivations[j] = other.txOutsMeta[i].derivations[j];
-- 
2.43.0


From 269b08ca51884cca0efaa722f24b1aec28908b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:01 +0000
Subject: [PATCH 46/57] fix: PSBT keys and values of 252 bytes were cut at the
 wrong place

---
 src/PSBT.cpp | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 1c2d600..54cbce0 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -85,6 +85,11 @@ String descriptorChecksum(String descriptor){
 }
 #endif
 
+// size of the length prefix that starts with this byte
+static size_t prefixLen(uint8_t c){
+    return (c < 0xfd) ? 1 : 1+((size_t)1 << (c - 0xfc));
+}
+
 size_t PSBT::from_stream(ParseStream *s){
     if(status == PARSING_FAILED){
         return 0;
@@ -148,7 +153,7 @@ size_t PSBT::from_stream(ParseStream *s){
         arr = (uint8_t *)calloc(value.length(), sizeof(uint8_t));
         if(arr == NULL){ status = PARSING_FAILED; return 0; }
         value.serialize(arr, value.length());
-        size_t l = lenVarInt(value.length());
+        size_t l = prefixLen(arr[0]);
         tx.parse(arr+l, value.length()-l);
         if(tx.getStatus() != PARSING_DONE){
             status = PARSING_FAILED;
@@ -229,7 +234,7 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
     uint8_t * val_arr = (uint8_t *)calloc(v->length(), sizeof(uint8_t));
     if(val_arr == NULL){ free(key_arr); return 0; }
     v->serialize(val_arr, v->length());
-    uint8_t key_code = key_arr[lenVarInt(k->length())];
+    uint8_t key_code = key_arr[prefixLen(key_arr[0])];
     int res = 0;
 
     if(section < 1+tx.inputsNumber){ // input section
@@ -243,7 +248,7 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                     break;
                 }
                 Tx tempTx;
-                tempTx.parse(val_arr+lenVarInt(v->length()), v->length()-lenVarInt(v->length()));
+                tempTx.parse(val_arr+prefixLen(val_arr[0]), v->length()-prefixLen(val_arr[0]));
                 if(tempTx.getStatus() != PARSING_DONE){
                     res = -2;
                     break;
@@ -267,7 +272,7 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                     res = -1;
                     break;
                 }
-                txInsMeta[input].txOut.parse(val_arr+lenVarInt(v->length()), v->length()-lenVarInt(v->length()));
+                txInsMeta[input].txOut.parse(val_arr+prefixLen(val_arr[0]), v->length()-prefixLen(val_arr[0]));
                 if(txInsMeta[input].txOut.getStatus() != PARSING_DONE){
                     res = -2;
                     break;
@@ -286,7 +291,7 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                     res = -1;
                     break;
                 }
-                psig.signature.parse(val_arr+1, v->length()-1);
+                psig.signature.parse(val_arr+prefixLen(val_arr[0]), v->length()-prefixLen(val_arr[0]));
                 if(psig.signature.getStatus() != PARSING_DONE){
                     res = -2;
                     break;
@@ -339,7 +344,7 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                     res = -1;
                     break;
                 }
-                size_t l = lenVarInt(v->length());
+                size_t l = prefixLen(val_arr[0]);
                 PublicKey pub;
                 pub.parse(key_arr+2, k->length()-2);
                 if(pub.getStatus() != PARSING_DONE){
@@ -365,12 +370,12 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                 }
                 PSBTDerivation * der = &txInsMeta[input].derivations[txInsMeta[input].derivationsLen-1];
                 der->pubkey = pub;
-                memcpy(der->fingerprint, val_arr+lenVarInt(v->length()), 4);
-                der->derivationLen = (v->length()-lenVarInt(v->length())-4)/sizeof(uint32_t);
+                memcpy(der->fingerprint, val_arr+prefixLen(val_arr[0]), 4);
+                der->derivationLen = (v->length()-prefixLen(val_arr[0])-4)/sizeof(uint32_t);
                 der->derivation = (uint32_t *)calloc(der->derivationLen, sizeof(uint32_t));
                 if(der->derivation == NULL){ der->derivationLen = 0; res = -1; break; }
                 for(size_t i=0; i<der->derivationLen; i++){
-                    der->derivation[i] = littleEndianToInt(val_arr+lenVarInt(v->length())+4*(i+1),4);
+                    der->derivation[i] = littleEndianToInt(val_arr+prefixLen(val_arr[0])+4*(i+1),4);
                 }
                 res = 1;
                 break;
@@ -411,7 +416,7 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                     res = -1;
                     break;
                 }
-                size_t l = lenVarInt(v->length());
+                size_t l = prefixLen(val_arr[0]);
                 PublicKey pub;
                 pub.parse(key_arr+2, k->length()-2);
                 if(pub.getStatus() != PARSING_DONE){
@@ -437,12 +442,12 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                 }
                 PSBTDerivation * der = &txOutsMeta[output].derivations[txOutsMeta[output].derivationsLen-1];
                 der->pubkey = pub;
-                memcpy(der->fingerprint, val_arr+lenVarInt(v->length()), 4);
-                der->derivationLen = (v->length()-lenVarInt(v->length())-4)/sizeof(uint32_t);
+                memcpy(der->fingerprint, val_arr+prefixLen(val_arr[0]), 4);
+                der->derivationLen = (v->length()-prefixLen(val_arr[0])-4)/sizeof(uint32_t);
                 der->derivation = (uint32_t *)calloc(der->derivationLen, sizeof(uint32_t));
                 if(der->derivation == NULL){ der->derivationLen = 0; res = -1; break; }
                 for(size_t i=0; i<der->derivationLen; i++){
-                    der->derivation[i] = littleEndianToInt(val_arr+lenVarInt(v->length())+4*(i+1),4);
+                    der->derivation[i] = littleEndianToInt(val_arr+prefixLen(val_arr[0])+4*(i+1),4);
                 }
                 res = 1;
                 break;
-- 
2.43.0


From 84aa4300bb2d49c45809ae0857b1f38a6402af0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:01 +0000
Subject: [PATCH 47/57] fix: PSBT accepted trailing data after transactions,
 outputs and keys

---
 src/PSBT.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 54cbce0..8078472 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -154,8 +154,8 @@ size_t PSBT::from_stream(ParseStream *s){
         if(arr == NULL){ status = PARSING_FAILED; return 0; }
         value.serialize(arr, value.length());
         size_t l = prefixLen(arr[0]);
-        tx.parse(arr+l, value.length()-l);
-        if(tx.getStatus() != PARSING_DONE){
+        size_t parsed = tx.parse(arr+l, value.length()-l);
+        if(tx.getStatus() != PARSING_DONE || parsed != value.length()-l){
             status = PARSING_FAILED;
         }
         free(arr);
@@ -248,8 +248,8 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                     break;
                 }
                 Tx tempTx;
-                tempTx.parse(val_arr+prefixLen(val_arr[0]), v->length()-prefixLen(val_arr[0]));
-                if(tempTx.getStatus() != PARSING_DONE){
+                size_t parsed = tempTx.parse(val_arr+prefixLen(val_arr[0]), v->length()-prefixLen(val_arr[0]));
+                if(tempTx.getStatus() != PARSING_DONE || parsed != v->length()-prefixLen(val_arr[0])){
                     res = -2;
                     break;
                 }
@@ -272,8 +272,8 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                     res = -1;
                     break;
                 }
-                txInsMeta[input].txOut.parse(val_arr+prefixLen(val_arr[0]), v->length()-prefixLen(val_arr[0]));
-                if(txInsMeta[input].txOut.getStatus() != PARSING_DONE){
+                size_t parsed = txInsMeta[input].txOut.parse(val_arr+prefixLen(val_arr[0]), v->length()-prefixLen(val_arr[0]));
+                if(txInsMeta[input].txOut.getStatus() != PARSING_DONE || parsed != v->length()-prefixLen(val_arr[0])){
                     res = -2;
                     break;
                 }
@@ -286,8 +286,8 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                     break;
                 }
                 PSBTPartialSignature psig;
-                psig.pubkey.parse(key_arr+2, k->length()-2);
-                if(psig.pubkey.getStatus() != PARSING_DONE){
+                size_t parsed = psig.pubkey.parse(key_arr+2, k->length()-2);
+                if(psig.pubkey.getStatus() != PARSING_DONE || parsed != k->length()-2){
                     res = -1;
                     break;
                 }
@@ -346,8 +346,8 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                 }
                 size_t l = prefixLen(val_arr[0]);
                 PublicKey pub;
-                pub.parse(key_arr+2, k->length()-2);
-                if(pub.getStatus() != PARSING_DONE){
+                size_t parsed = pub.parse(key_arr+2, k->length()-2);
+                if(pub.getStatus() != PARSING_DONE || parsed != k->length()-2){
                     res = -1;
                     break;
                 }
@@ -418,8 +418,8 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
                 }
                 size_t l = prefixLen(val_arr[0]);
                 PublicKey pub;
-                pub.parse(key_arr+2, k->length()-2);
-                if(pub.getStatus() != PARSING_DONE){
+                size_t parsed = pub.parse(key_arr+2, k->length()-2);
+                if(pub.getStatus() != PARSING_DONE || parsed != k->length()-2){
                     res = -1;
                     break;
                 }
-- 
2.43.0


From 4cec6cb9d287833a736fc67afd1bf9ddb9f58af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:01 +0000
Subject: [PATCH 48/57] fix: PSBT sections were counted in one byte

---
 src/PSBT.cpp | 18 +++++++++---------
 src/PSBT.h   |  4 ++--
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 8078472..9f3e9b5 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -174,7 +174,7 @@ size_t PSBT::from_stream(ParseStream *s){
         }
         last_key_pos += key.length()+value.length();
     }
-    uint8_t sections_number = 0;
+    size_t sections_number = 0;
     if(last_key_pos > 5){ // tx is already parsed
         sections_number = 1+tx.inputsNumber+tx.outputsNumber;
     }
@@ -224,8 +224,8 @@ size_t PSBT::from_stream(ParseStream *s){
     return bytes_read;
 }
 
-int PSBT::add(uint8_t section, const Script * k, const Script * v){
-    if(section == 0 || section > 1+tx.inputsNumber+tx.outputsNumber){
+int PSBT::add(size_t section, const Script * k, const Script * v){
+    if(section == 0 || section >= 1+tx.inputsNumber+tx.outputsNumber){
         return 0;
     }
     uint8_t * key_arr = (uint8_t *)calloc(k->length(), sizeof(uint8_t));
@@ -238,7 +238,7 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
     int res = 0;
 
     if(section < 1+tx.inputsNumber){ // input section
-        uint8_t input = section-1;
+        size_t input = section-1;
         switch(key_code){
             case 0: { // PSBT_IN_NON_WITNESS_UTXO
                 // we need to verify that tx hashes to prevtx_hash
@@ -390,7 +390,7 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
             }
         }
     }else{ // output section
-        uint8_t output = section-1-tx.inputsNumber;
+        size_t output = section-1-tx.inputsNumber;
         switch(key_code){
             case 0: { // PSBT_OUT_REDEEM_SCRIPT
                 if(k->length() != 2){
@@ -479,11 +479,11 @@ size_t PSBT::to_stream(SerializeStream *s, size_t offset) const{
         bytes_written += s->serialize(&tx, offset+bytes_written-cur);
     }
     cur+=tx.length();
-    uint8_t sections_number = 1 + tx.inputsNumber + tx.outputsNumber;
-    uint8_t section = 0;
+    size_t sections_number = 1 + tx.inputsNumber + tx.outputsNumber;
+    size_t section = 0;
     while(s->available() && section < sections_number){
         if(section > 0 && section < tx.inputsNumber+1){
-            uint8_t input = section-1;
+            size_t input = section-1;
             for(size_t i=0; i<txInsMeta[input].signaturesLen; i++){
                 uint8_t key_arr[67];
                 key_arr[1] = 0x02; // PSBT_IN_PARTIAL_SIG
@@ -514,7 +514,7 @@ size_t PSBT::to_stream(SerializeStream *s, size_t offset) const{
 }
 
 size_t PSBT::length() const{
-    uint8_t sections_number = 1 + tx.inputsNumber + tx.outputsNumber;
+    size_t sections_number = 1 + tx.inputsNumber + tx.outputsNumber;
     size_t len = 7 + lenVarInt(tx.length()) + tx.length() + sections_number;
     for(size_t input=0; input<tx.inputsNumber; input++){
         for(size_t i=0; i<txInsMeta[input].signaturesLen; i++){
diff --git a/src/PSBT.h b/src/PSBT.h
index 1debc47..8606831 100644
--- a/src/PSBT.h
+++ b/src/PSBT.h
@@ -72,7 +72,7 @@ protected:
     virtual size_t to_stream(SerializeStream *s, size_t offset = 0) const;
     Script key; // key for parsing
     Script value; // value for parsing
-    uint8_t current_section;
+    size_t current_section;
     size_t last_key_pos;
     void freeMeta();
 public:
@@ -85,7 +85,7 @@ public:
     PSBTOutputMetadata * txOutsMeta;
 
     /** \brief adds key-value pair to section */
-    int add(uint8_t section, const Script * k, const Script * v);
+    int add(size_t section, const Script * k, const Script * v);
     /** \brief Signes everything it can with keys derived from root HD private key */
     uint8_t sign(const HDPrivateKey root);
     /** \brief parses psbt transaction from base64 encoded string */
-- 
2.43.0


From 7b82e95460a1b0dc81fa6aafcfc85a2d6724f9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:01 +0000
Subject: [PATCH 49/57] fix: PSBT arriving in pieces was misread at the
 boundaries

---
 src/PSBT.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 9f3e9b5..2e9809b 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -114,12 +114,16 @@ size_t PSBT::from_stream(ParseStream *s){
             return bytes_read;
         }
     }
+    if(bytes_read+bytes_parsed < 5){
+        bytes_parsed += bytes_read;
+        return bytes_read;
+    }
     // global scope
-    if(bytes_read+bytes_parsed == last_key_pos){
+    if(last_key_pos == 5 && bytes_read+bytes_parsed == 5){
         bytes_read += s->parse(&key);
         bytes_read += s->parse(&value);
     }
-    while(s->available() && key.getStatus() == PARSING_INCOMPLETE){
+    while(last_key_pos == 5 && s->available() && key.getStatus() == PARSING_INCOMPLETE){
         bytes_read += s->parse(&key);
     }
     if(key.getStatus() == PARSING_FAILED){
@@ -128,7 +132,7 @@ size_t PSBT::from_stream(ParseStream *s){
         bytes_parsed += bytes_read;
         return bytes_read;
     }
-    while(s->available() && value.getStatus() == PARSING_INCOMPLETE){
+    while(last_key_pos == 5 && s->available() && value.getStatus() == PARSING_INCOMPLETE){
         bytes_read += s->parse(&value);
     }
     if(value.getStatus() == PARSING_FAILED){
@@ -180,7 +184,7 @@ size_t PSBT::from_stream(ParseStream *s){
     }
     // parsing keys and values
     while(s->available() && current_section < sections_number){
-        if(key.getStatus() == PARSING_DONE && value.getStatus() == PARSING_DONE){
+        if(value.getStatus() == PARSING_DONE){ // a new key or the rest of it
             bytes_read += s->parse(&key);
         }
         if(key.getStatus() == PARSING_DONE){
@@ -198,12 +202,6 @@ size_t PSBT::from_stream(ParseStream *s){
             bytes_parsed += bytes_read;
             return bytes_read;
         }
-        if(key.getStatus() == PARSING_INCOMPLETE){
-            bytes_read += s->parse(&key);
-        }
-        if(value.getStatus() == PARSING_INCOMPLETE){
-            bytes_read += s->parse(&value);
-        }
         if(key.getStatus() == PARSING_DONE && value.getStatus() == PARSING_DONE){
             int res = add(current_section, &key, &value);
             if(res < 0){
-- 
2.43.0


From 2c3737a11fea45a0f149eb631ab57afec2c0c670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:01 +0000
Subject: [PATCH 50/57] fix: PSBT::sign compared paths beyond the end of a
 shorter one

---
 src/PSBT.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 2e9809b..ef7c0ac 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -594,7 +594,7 @@ uint8_t PSBT::sign(const HDPrivateKey root){
                     }
                     PrivateKey pk;
                     // checking if cached key is ok
-                    if(memcmp(first_derivation, txInsMeta[i].derivations[j].derivation, first_derivation_len*sizeof(uint32_t))==0){
+                    if(txInsMeta[i].derivations[j].derivationLen >= first_derivation_len && memcmp(first_derivation, txInsMeta[i].derivations[j].derivation, first_derivation_len*sizeof(uint32_t))==0){
                         pk = account.derive(txInsMeta[i].derivations[j].derivation+first_derivation_len, txInsMeta[i].derivations[j].derivationLen - first_derivation_len);
                     }else{
                         pk = root.derive(txInsMeta[i].derivations[j].derivation, txInsMeta[i].derivations[j].derivationLen);
-- 
2.43.0


From a27d7460deeb6949172b36a96a31ed1931f85303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:01 +0000
Subject: [PATCH 51/57] fix: PSBT fee of amounts whose sum overflows; fee of a
 failed PSBT

---
 src/PSBT.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index ef7c0ac..377f9a2 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -663,13 +663,19 @@ uint64_t PSBT::fee() const{
     uint64_t input_amount = 0;
     uint64_t output_amount = 0;
     for(size_t i=0; i<tx.inputsNumber; i++){
-        if(txInsMeta[i].txOut.amount == 0){
+        if(txInsMeta == NULL || txInsMeta[i].txOut.amount == 0){
             return 0;
         }
         input_amount += txInsMeta[i].txOut.amount;
+        if(input_amount < txInsMeta[i].txOut.amount){ // overflow
+            return 0;
+        }
     }
     for(size_t i=0; i<tx.outputsNumber; i++){
         output_amount += tx.txOuts[i].amount;
+        if(output_amount < tx.txOuts[i].amount){ // overflow
+            return 0;
+        }
     }
     if(output_amount > input_amount){
         return 0;
-- 
2.43.0


From 0c6a4eb063138b8ef661b86ac33d244f43e11b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:01 +0000
Subject: [PATCH 52/57] fix: PSBT::isMine with a number of no output

---
 src/PSBT.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 377f9a2..245e42b 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -685,7 +685,7 @@ uint64_t PSBT::fee() const{
 
 bool PSBT::isMine(uint8_t outputNumber, const HDPublicKey xpub) const{
     bool mine = false;
-    if(txOutsMeta[outputNumber].derivationsLen > 0){
+    if(txOutsMeta != NULL && outputNumber < tx.outputsNumber && txOutsMeta[outputNumber].derivationsLen > 0){
         for(unsigned int j=0; j<txOutsMeta[outputNumber].derivationsLen; j++){
             HDPublicKey pub = xpub.derive(txOutsMeta[outputNumber].derivations[j].derivation, txOutsMeta[outputNumber].derivations[j].derivationLen);
             if(memcmp(pub.point, txOutsMeta[outputNumber].derivations[j].pubkey.point, 64)==0){
@@ -699,7 +699,7 @@ bool PSBT::isMine(uint8_t outputNumber, const HDPublicKey xpub) const{
 
 bool PSBT::isMine(uint8_t outputNumber, const HDPrivateKey xprv) const{
     bool mine = false;
-    if(txOutsMeta[outputNumber].derivationsLen > 0){
+    if(txOutsMeta != NULL && outputNumber < tx.outputsNumber && txOutsMeta[outputNumber].derivationsLen > 0){
         for(unsigned int j=0; j<txOutsMeta[outputNumber].derivationsLen; j++){
             HDPublicKey pub = xprv.derive(txOutsMeta[outputNumber].derivations[j].derivation, txOutsMeta[outputNumber].derivations[j].derivationLen).xpub();
             if(memcmp(pub.point, txOutsMeta[outputNumber].derivations[j].pubkey.point, 64)==0){
-- 
2.43.0


From 1d8242aa12b8f968811e85d4bf4bee054f9eebc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:01 +0000
Subject: [PATCH 53/57] fix: PSBT serialized in pieces repeated the section
 delimiters

---
 src/PSBT.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 245e42b..28ead1e 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -487,7 +487,7 @@ size_t PSBT::to_stream(SerializeStream *s, size_t offset) const{
                 key_arr[1] = 0x02; // PSBT_IN_PARTIAL_SIG
                 uint8_t key_len = 1+txInsMeta[input].signatures[i].pubkey.serialize(key_arr+2, 65);
                 key_arr[0] = key_len;
-                while(s->available() && bytes_written+offset-cur < (size_t)key_len+1){
+                while(s->available() && bytes_written+offset < cur+key_len+1){
                     s->write(key_arr[bytes_written+offset-cur]);
                     bytes_written++;
                 }
@@ -496,15 +496,17 @@ size_t PSBT::to_stream(SerializeStream *s, size_t offset) const{
                 uint8_t val_len = 1+txInsMeta[input].signatures[i].signature.serialize(val_arr+1, 98);
                 val_arr[0] = val_len;
                 val_arr[val_len] = SIGHASH_ALL;
-                while(s->available() && bytes_written+offset-cur < (size_t)val_len+1){
+                while(s->available() && bytes_written+offset < cur+val_len+1){
                     s->write(val_arr[bytes_written+offset-cur]);
                     bytes_written++;
                 }
                 cur += val_len+1;
             }
         }
-        s->write(0);
-        bytes_written++;
+        if(s->available() && bytes_written+offset == cur){
+            s->write(0);
+            bytes_written++;
+        }
         section++;
         cur++;
     }
-- 
2.43.0


From c540500dcd6356508c32ed3e848436909dbf8a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:16 +0000
Subject: [PATCH 54/57] fix: PSBT could not be parsed again after a failure and
 reset

---
 src/PSBT.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 28ead1e..26c987c 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -100,6 +100,8 @@ size_t PSBT::from_stream(ParseStream *s){
         bytes_parsed = 0;
         current_section = 0;
         last_key_pos = 5;
+        key = Script();
+        value = Script();
     }
     status = PARSING_INCOMPLETE;
     size_t bytes_read = 0;
-- 
2.43.0


From f00e3942f7b835d142c1c2c41030efeaf86ed90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:16 +0000
Subject: [PATCH 55/57] fix: sign, add, length and serialization of a PSBT
 without metadata used a null pointer

---
 src/PSBT.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 26c987c..135c1bd 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -225,7 +225,7 @@ size_t PSBT::from_stream(ParseStream *s){
 }
 
 int PSBT::add(size_t section, const Script * k, const Script * v){
-    if(section == 0 || section >= 1+tx.inputsNumber+tx.outputsNumber){
+    if(txInsMeta == NULL || txOutsMeta == NULL || section == 0 || section >= 1+tx.inputsNumber+tx.outputsNumber){
         return 0;
     }
     uint8_t * key_arr = (uint8_t *)calloc(k->length(), sizeof(uint8_t));
@@ -484,7 +484,7 @@ size_t PSBT::to_stream(SerializeStream *s, size_t offset) const{
     while(s->available() && section < sections_number){
         if(section > 0 && section < tx.inputsNumber+1){
             size_t input = section-1;
-            for(size_t i=0; i<txInsMeta[input].signaturesLen; i++){
+            for(size_t i=0; txInsMeta != NULL && i<txInsMeta[input].signaturesLen; i++){
                 uint8_t key_arr[67];
                 key_arr[1] = 0x02; // PSBT_IN_PARTIAL_SIG
                 uint8_t key_len = 1+txInsMeta[input].signatures[i].pubkey.serialize(key_arr+2, 65);
@@ -519,7 +519,7 @@ size_t PSBT::length() const{
     size_t sections_number = 1 + tx.inputsNumber + tx.outputsNumber;
     size_t len = 7 + lenVarInt(tx.length()) + tx.length() + sections_number;
     for(size_t input=0; input<tx.inputsNumber; input++){
-        for(size_t i=0; i<txInsMeta[input].signaturesLen; i++){
+        for(size_t i=0; txInsMeta != NULL && i<txInsMeta[input].signaturesLen; i++){
             len += 2+txInsMeta[input].signatures[i].pubkey.length();
             len += 2+txInsMeta[input].signatures[i].signature.length();
         }
@@ -579,7 +579,7 @@ uint8_t PSBT::sign(const HDPrivateKey root){
     uint32_t * first_derivation = NULL;
     uint8_t first_derivation_len = 0;
     HDPrivateKey account;
-    for(size_t i=0; i<tx.inputsNumber; i++){
+    for(size_t i=0; txInsMeta != NULL && i<tx.inputsNumber; i++){
         if(txInsMeta[i].derivationsLen > 0){
             for(size_t j=0; j<txInsMeta[i].derivationsLen; j++){
                 if(memcmp(fingerprint, txInsMeta[i].derivations[j].fingerprint, 4) == 0){
-- 
2.43.0


From 9e62cdb1d8a5ac810f35204e785bd40868871f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:16 +0000
Subject: [PATCH 56/57] fix: signature hash of inputs above number 255 was that
 of another input

---
 src/Bitcoin.h       | 4 ++--
 src/Transaction.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Bitcoin.h b/src/Bitcoin.h
index 37355d9..b4690e6 100644
--- a/src/Bitcoin.h
+++ b/src/Bitcoin.h
@@ -709,12 +709,12 @@ public:
     uint8_t addOutput(const TxOut txOut);
 
     /** \brief calculates a hash to sign for certain input */
-    int sigHash(uint8_t h[32], uint8_t inputIndex, const Script scriptPubkey, SigHashType sighash = SIGHASH_ALL) const;
+    int sigHash(uint8_t h[32], size_t inputIndex, const Script scriptPubkey, SigHashType sighash = SIGHASH_ALL) const;
 
     int hashPrevouts(uint8_t h[32]) const;
     int hashSequence(uint8_t h[32]) const;
     int hashOutputs(uint8_t h[32]) const;
-    int sigHashSegwit(uint8_t h[32], uint8_t inputIndex, const Script scriptPubKey, uint64_t amount, SigHashType sighash = SIGHASH_ALL) const;
+    int sigHashSegwit(uint8_t h[32], size_t inputIndex, const Script scriptPubKey, uint64_t amount, SigHashType sighash = SIGHASH_ALL) const;
 
 #if 0
     /** \brief sorts inputs and outputs in alphabetical order */
diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index b4604c6..0929c19 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -526,7 +526,7 @@ size_t Tx::from_stream(ParseStream *s){
     bytes_parsed+=bytes_read;
     return bytes_read;
 }
-int Tx::sigHash(uint8_t h[32], uint8_t inputIndex, const Script scriptPubkey, SigHashType sighash) const{
+int Tx::sigHash(uint8_t h[32], size_t inputIndex, const Script scriptPubkey, SigHashType sighash) const{
     if(sighash == SIGHASH_SINGLE && inputIndex >= outputsNumber){
         // there is no corresponding output, the protocol signs number 1 in this case
         memset(h, 0, 32);
@@ -719,7 +719,7 @@ int Tx::hashOutputs(uint8_t h[32]) const{
     return 32;
 }
 
-int Tx::sigHashSegwit(uint8_t h[32], uint8_t inputIndex, const Script scriptPubKey, uint64_t amount, SigHashType sighash) const{
+int Tx::sigHashSegwit(uint8_t h[32], size_t inputIndex, const Script scriptPubKey, uint64_t amount, SigHashType sighash) const{
     DoubleSha s;
     s.begin();
     uint8_t arr[8];
-- 
2.43.0


From 3fcc90e4e554658b77dc5babf8bf22bb3d8658e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:42 +0000
Subject: [PATCH 57/57] fix: Script keeps a half-received length apart, copies
 of such objects no longer read a null array

---
 src/Bitcoin.h  |  1 +
 src/Script.cpp | 18 ++++++++++++------
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/Bitcoin.h b/src/Bitcoin.h
index b4690e6..cf3b53f 100644
--- a/src/Bitcoin.h
+++ b/src/Bitcoin.h
@@ -477,6 +477,7 @@ protected:
     virtual size_t from_stream(ParseStream *s);
     virtual size_t to_stream(SerializeStream *s, size_t offset = 0) const;
     uint8_t lenLen; // for parsing only, length of the varint
+    size_t partLen; // for parsing only, the part of the varint that has arrived
     void fromAddress(const char * address);
     void init();
 public:
diff --git a/src/Script.cpp b/src/Script.cpp
index 5c5997d..f90f459 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -138,6 +138,7 @@ void Script::init(){
     scriptLen = 0;
     scriptArray = NULL;
     lenLen = 0;
+    partLen = 0;
 }
 Script::Script(void){
     init();
@@ -271,6 +272,7 @@ void Script::clear(){
     }
     scriptLen = 0;
     lenLen = 0;
+    partLen = 0;
 }
 size_t Script::from_stream(ParseStream *s){
     if(status == PARSING_FAILED){
@@ -287,10 +289,10 @@ size_t Script::from_stream(ParseStream *s){
         lenLen = s->read();
         bytes_read++;
         if(lenLen < 0xfd){
-            scriptLen = lenLen;
+            partLen = lenLen;
             lenLen = 1;
         }else{
-            scriptLen = 0;
+            partLen = 0;
             lenLen = 1+(1 << (lenLen - 0xfc));
         }
     }
@@ -298,17 +300,21 @@ size_t Script::from_stream(ParseStream *s){
         return 0;
     }
     while(s->available() > 0 && bytes_parsed+bytes_read < lenLen){
-        scriptLen += ((size_t)s->read() << (8*(bytes_parsed+bytes_read-1)));
+        partLen += ((size_t)s->read() << (8*(bytes_parsed+bytes_read-1)));
         bytes_read++;
     }
-    if(bytes_parsed+bytes_read == lenLen && scriptLen > MAX_PARSED_SIZE){
+    if(bytes_parsed+bytes_read < lenLen){ // length is not known yet
+        bytes_parsed += bytes_read;
+        return bytes_read;
+    }
+    if(bytes_parsed+bytes_read == lenLen && partLen > MAX_PARSED_SIZE){
         status = PARSING_FAILED;
-        scriptLen = 0;
         bytes_parsed+=bytes_read;
         return bytes_read;
     }
-    if(bytes_parsed+bytes_read == lenLen && scriptLen > 0){
+    if(bytes_parsed+bytes_read == lenLen && partLen > 0){
         free(scriptArray);
+        scriptLen = partLen;
         scriptArray = (uint8_t *) calloc( scriptLen, sizeof(uint8_t));
         if(scriptArray == NULL){ status = PARSING_FAILED; scriptLen = 0; return 0; }
     }
-- 
2.43.0

