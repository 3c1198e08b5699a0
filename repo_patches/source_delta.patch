From cb5d74f0e0e368648a807dd6eb7e217173762b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:30 +0000
Subject: [PATCH 01/86] fix: BGEO reader used the particles after an
 unsupported attribute released them

---
 src/lib/io/BGEO.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lib/io/BGEO.cpp b/src/lib/io/BGEO.cpp
index e3406d3..b0d1bae 100644
--- a/src/lib/io/BGEO.cpp
+++ b/src/lib/io/BGEO.cpp
@@ -130,12 +130,12 @@ bool getAttributes(int& particleSize, vector<int>& attrOffsets, vector<TAttribut
         }else if(houdiniType==2){
             if(errorStream) *errorStream <<"Partio: found attr of type 'string', aborting"<<endl;
             delete [] name;
-            simple->release();
+            if(simple) simple->release();
             return 0;
         }else{
             if(errorStream) *errorStream <<"Partio: unknown attribute "<<houdiniType<<" type... aborting"<<endl;
             delete [] name;
-            simple->release();
+            if(simple) simple->release();
             return 0;
         }
         delete[] name;
@@ -163,7 +163,7 @@ bool skipPrimitives(int nPoints, int nPrims, int nPrimAttrib, istream* input,std
     vector<int> primAttrOffsets; // offsets in # of 32 bit offsets
     vector<DummyAttribute> primAttrHandles;
     vector<DummyAccessor> primAccessors;
-    getAttributes(particleSize, primAttrOffsets, primAttrHandles, primAccessors, nPrimAttrib, input, 0, true, errorStream);
+    if(!getAttributes(particleSize, primAttrOffsets, primAttrHandles, primAccessors, nPrimAttrib, input, 0, true, errorStream)) return false;
 
     for(int i=0;i<nPrims;i++) {
         int primType;
@@ -242,7 +242,7 @@ ParticlesDataMutable* readBGEO(const char* filename,const bool headersOnly,std::
     attrOffsets.push_back(0); // pull values from byte offset
     attrHandles.push_back(simple->addAttribute("position",VECTOR,3)); // we always have one
     accessors.push_back(ParticleAccessor(attrHandles[0]));
-    getAttributes(particleSize, attrOffsets, attrHandles, accessors, nPointAttrib, input.get(), simple, headersOnly, errorStream);
+    if(!getAttributes(particleSize, attrOffsets, attrHandles, accessors, nPointAttrib, input.get(), simple, headersOnly, errorStream)) return 0;
 
     if(headersOnly) {
         skip(input.get(),nPoints*particleSize*sizeof(int));
@@ -277,7 +277,7 @@ ParticlesDataMutable* readBGEO(const char* filename,const bool headersOnly,std::
     vector<int> fixedAttrOffsets; // offsets in # of 32 bit offsets
     vector<FixedAttribute> fixedAttrHandles;
     vector<DummyAccessor> fixedAccessors;
-    getAttributes(particleSize, fixedAttrOffsets, fixedAttrHandles, fixedAccessors, nAttrib, input.get(), simple, headersOnly, errorStream);
+    if(!getAttributes(particleSize, fixedAttrOffsets, fixedAttrHandles, fixedAccessors, nAttrib, input.get(), simple, headersOnly, errorStream)) return 0;
 
     if (headersOnly) return simple;
 
-- 
2.43.0


From f49a68e1c93bf644ded70fa8a67cce23f8c4dfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:09 +0000
Subject: [PATCH 02/86] fix: PDB reader leaked the particles when the magic
 number is wrong

---
 src/lib/io/PDB.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/io/PDB.cpp b/src/lib/io/PDB.cpp
index a296535..6ba9f5a 100644
--- a/src/lib/io/PDB.cpp
+++ b/src/lib/io/PDB.cpp
@@ -100,6 +100,7 @@ template<int bits> ParticlesDataMutable* readPDBHelper(const char* filename,cons
     input->read((char*)&header,sizeof(typename PDB_POLICY<bits>::HEADER));
     if(header.magic != PDB_MAGIC){
         if(errorStream) *errorStream<<"Partio: failed to get PDB magic"<<endl;
+        simple->release();
         return 0;
     }
 
-- 
2.43.0


From abc90f1c3e9eb3a5c030017de208d472d099de2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:09 +0000
Subject: [PATCH 03/86] fix: PRT reader leaked the particles on its error
 returns

---
 src/lib/io/PRT.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/io/PRT.cpp b/src/lib/io/PRT.cpp
index cde7e1f..516fac0 100644
--- a/src/lib/io/PRT.cpp
+++ b/src/lib/io/PRT.cpp
@@ -160,6 +160,7 @@ ParticlesDataMutable* readPRT(const char* filename,const bool headersOnly,std::o
 
     if (memcmp(header.magic, magic, sizeof(magic))) {
         if(errorStream) *errorStream<<"Partio: failed to get PRT magic"<<std::endl;
+        simple->release();
         return 0;
     }
     
@@ -235,6 +236,7 @@ ParticlesDataMutable* readPRT(const char* filename,const bool headersOnly,std::o
     z.zalloc = Z_NULL;z.zfree = Z_NULL;z.opaque = Z_NULL;
     if (inflateInit( &z ) != Z_OK) {
         if(errorStream) *errorStream<<"Zlib inflateInit error"<<std::endl;
+        simple->release();
         return 0;
     }
 
@@ -333,6 +335,7 @@ ParticlesDataMutable* readPRT(const char* filename,const bool headersOnly,std::o
     
     if (inflateEnd( &z ) != Z_OK) {
         if(errorStream) *errorStream<<"Zlib inflateEnd error"<<std::endl;
+        simple->release();
         return 0;
     }
 
-- 
2.43.0


From 092aaf61f81114e349904ea50b8823727f0c2d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:09 +0000
Subject: [PATCH 04/86] fix: PTS reader leaked the particles on an unsupported
 column count

---
 src/lib/io/PTS.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/io/PTS.cpp b/src/lib/io/PTS.cpp
index 6c437de..e7f7cbf 100644
--- a/src/lib/io/PTS.cpp
+++ b/src/lib/io/PTS.cpp
@@ -150,6 +150,7 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
 		break;
 		default:
 		{
+			simple->release();
 			return 0;
 		}
 		break;
-- 
2.43.0


From 40942f732a0fd2a4f7c336f9f016578b936a1f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:09 +0000
Subject: [PATCH 05/86] fix: PRT writer leaked the deflate state when
 compression fails

---
 src/lib/io/PRT.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib/io/PRT.cpp b/src/lib/io/PRT.cpp
index 516fac0..dead40b 100644
--- a/src/lib/io/PRT.cpp
+++ b/src/lib/io/PRT.cpp
@@ -409,12 +409,16 @@ bool writePRT(const char* filename,const ParticlesData& p,const bool /*compresse
             for (unsigned int attrIndex=0;attrIndex<attrs.size();attrIndex++) {
                 if (attrs[attrIndex].type==Partio::INT) {
                     const int* data=p.data<int>(attrs[attrIndex],particleIndex);
-                    if (!write_buffer(*output, z, (char*)out_buf, (void*)data, sizeof(int)*attrs[attrIndex].count, false, errorStream))
+                    if (!write_buffer(*output, z, (char*)out_buf, (void*)data, sizeof(int)*attrs[attrIndex].count, false, errorStream)) {
+                        deflateEnd( &z );
                         return false;
+                    }
                 } else if (attrs[attrIndex].type==Partio::FLOAT || attrs[attrIndex].type==Partio::VECTOR) {
                     const float* data=p.data<float>(attrs[attrIndex],particleIndex);
-                    if (!write_buffer(*output, z, (char*)out_buf, (void*)data, sizeof(int)*attrs[attrIndex].count, false, errorStream))
+                    if (!write_buffer(*output, z, (char*)out_buf, (void*)data, sizeof(int)*attrs[attrIndex].count, false, errorStream)) {
+                        deflateEnd( &z );
                         return false;
+                    }
                 }
             }
         }
-- 
2.43.0


From 379d1ce68f55ab787ab8e0175989917588ce3ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:09 +0000
Subject: [PATCH 06/86] fix: zip reader leaked the headers it could not parse

---
 src/lib/io/ZIP.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/io/ZIP.cpp b/src/lib/io/ZIP.cpp
index 5792b23..0a1125d 100644
--- a/src/lib/io/ZIP.cpp
+++ b/src/lib/io/ZIP.cpp
@@ -550,7 +550,8 @@ Find_And_Read_Central_Header()
     for(int i=0;i<num_files;i++){
         ZipFileHeader* header=new ZipFileHeader;
         bool valid=header->Read(istream,true);
-        if(valid) filename_to_header[header->filename]=header;}
+        if(valid) filename_to_header[header->filename]=header;
+        else delete header;}
     return true;
 }
 //#####################################################################
-- 
2.43.0


From d5448e72a5e4b7cd0cf5e6fed3c2aaa9cecdd674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:50 +0000
Subject: [PATCH 07/86] fix: codec tables were checked for initialization
 without holding the lock

---
 src/lib/io/ParticleIO.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/io/ParticleIO.cpp b/src/lib/io/ParticleIO.cpp
index ba4698f..de4bc42 100644
--- a/src/lib/io/ParticleIO.cpp
+++ b/src/lib/io/ParticleIO.cpp
@@ -52,8 +52,8 @@ readers()
 {
     static map<string,READER_FUNCTION> data;
     static bool initialized=false;
+    initializationMutex.lock();
     if(!initialized){
-	initializationMutex.lock();
         data["bgeo"]=readBGEO;
         data["bhclassic"]=readBGEO;
         data["geo"]=readGEO;
@@ -72,8 +72,8 @@ readers()
         data["itbl"]=readBGEO;
         data["atbl"]=readBGEO;
 	initialized=true;
-	initializationMutex.unlock();
     }
+    initializationMutex.unlock();
     return data;
 }
 
@@ -82,8 +82,8 @@ writers()
 {
     static map<string,WRITER_FUNCTION> data;
     static bool initialized=false;
+    initializationMutex.lock();
     if(!initialized){
-	initializationMutex.lock();
         data["bgeo"]=writeBGEO;
         data["bhclassic"]=writeBGEO;
         data["geo"]=writeGEO;
@@ -101,8 +101,8 @@ writers()
         data["itbl"]=writeBGEO;
         data["atbl"]=writeBGEO;
 	initialized=true;
-	initializationMutex.unlock();
     }
+    initializationMutex.unlock();
     return data;
 }
 
-- 
2.43.0


From a5d127aa2863faf816c0c939429d7f9db9ee9349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:50 +0000
Subject: [PATCH 08/86] fix: BGEO reader skipped data into a buffer shared by
 all threads

---
 src/lib/io/BGEO.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/io/BGEO.cpp b/src/lib/io/BGEO.cpp
index b0d1bae..87a5683 100644
--- a/src/lib/io/BGEO.cpp
+++ b/src/lib/io/BGEO.cpp
@@ -148,7 +148,7 @@ bool getAttributes(int& particleSize, vector<int>& attrOffsets, vector<TAttribut
 void skip(istream *input, size_t numChars)
 {
     static const size_t bufferSize = 4096;
-    static char buffer[bufferSize];
+    char buffer[bufferSize];
     while (numChars>0) {
         int toRead=std::min(numChars,bufferSize);
         input->read(buffer,toRead);
-- 
2.43.0


From 7d0b1ec917017a7b268fcd4a3861119cf520ffdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:55 +0000
Subject: [PATCH 09/86] fix: PTS reader tokenized its first line through
 strtok's shared state

---
 src/lib/io/PTS.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib/io/PTS.cpp b/src/lib/io/PTS.cpp
index e7f7cbf..aab189f 100644
--- a/src/lib/io/PTS.cpp
+++ b/src/lib/io/PTS.cpp
@@ -86,7 +86,8 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
 	char * nextLine = NULL;
     char * pch = strtok_s( line, "\t ", &nextLine );
 #else
-	char * pch = strtok( line, "\t " );
+	char * nextToken = NULL;
+	char * pch = strtok_r( line, "\t ", &nextToken );
 #endif
     while ( pch )
     {
@@ -97,7 +98,7 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
 #ifdef PARTIO_WIN32
         pch = strtok_s( NULL, "\t ", &nextLine );
 #else
-		pch = strtok( NULL, "\t " );
+		pch = strtok_r( NULL, "\t ", &nextToken );
 #endif
     }
 
-- 
2.43.0


From 1acd546b7bab8299dfe89b16cacbd60ddb028158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:36 +0000
Subject: [PATCH 10/86] fix: cached read reported errors to stderr instead of
 the caller's stream

---
 src/lib/core/ParticleCaching.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/core/ParticleCaching.cpp b/src/lib/core/ParticleCaching.cpp
index 0d3e69e..25a5a6c 100644
--- a/src/lib/core/ParticleCaching.cpp
+++ b/src/lib/core/ParticleCaching.cpp
@@ -59,7 +59,7 @@ ParticlesData* readCached(const char* filename,const bool sort,const bool verbos
         p=i->second;
         cachedParticlesCount[p]++;
     }else{
-        ParticlesDataMutable* p_rw=read(filename,verbose);
+        ParticlesDataMutable* p_rw=read(filename,verbose,error);
         if(p_rw){
             if(sort) p_rw->sort();
             p=p_rw;
-- 
2.43.0


From 27f0391511f6f0ade7a8589e79d9404a92a1bb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:07 +0000
Subject: [PATCH 11/86] fix: reading a truncated gzip file never ended

---
 src/lib/io/ZIP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/io/ZIP.cpp b/src/lib/io/ZIP.cpp
index 0a1125d..b681180 100644
--- a/src/lib/io/ZIP.cpp
+++ b/src/lib/io/ZIP.cpp
@@ -294,7 +294,7 @@ public:
                 case Z_MEM_ERROR: 
                     std::cerr<<"gzip error "<<strm.msg<<std::endl;
                     valid=false;return -1;}
-            if(ret==Z_STREAM_END) break;}
+            if(ret==Z_STREAM_END || ret==Z_BUF_ERROR) break;} // done, or no more input to make progress with
         int unzip_count=buffer_size-strm.avail_out-4;
         total_uncompressed+=unzip_count;
         return unzip_count;}
-- 
2.43.0


From c3c66f649063c96328c97a40128fc095f2e5fb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:07 +0000
Subject: [PATCH 12/86] fix: gzip streams leaked the zlib state after an error

---
 src/lib/io/ZIP.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib/io/ZIP.cpp b/src/lib/io/ZIP.cpp
index b681180..7406717 100644
--- a/src/lib/io/ZIP.cpp
+++ b/src/lib/io/ZIP.cpp
@@ -288,12 +288,12 @@ public:
             switch(ret){
                 case Z_STREAM_ERROR: 
                     std::cerr<<"libz error Z_STREAM_ERROR"<<std::endl;
-                    valid=false;return -1;
+                    inflateEnd(&strm);valid=false;return -1;
                 case Z_NEED_DICT:
                 case Z_DATA_ERROR:
                 case Z_MEM_ERROR: 
                     std::cerr<<"gzip error "<<strm.msg<<std::endl;
-                    valid=false;return -1;}
+                    inflateEnd(&strm);valid=false;return -1;}
             if(ret==Z_STREAM_END || ret==Z_BUF_ERROR) break;} // done, or no more input to make progress with
         int unzip_count=buffer_size-strm.avail_out-4;
         total_uncompressed+=unzip_count;
@@ -384,6 +384,7 @@ protected:
         if(!(ret!=Z_BUF_ERROR && ret!=Z_STREAM_ERROR)){
             valid=false;
             std::cerr<<"gzip: gzip error "<<strm.msg<<std::endl;;
+            deflateEnd(&strm);
             return -1;}
         int generated_output=static_cast<int>(strm.next_out-(Bytef*)out);
         ostream.write((char*)out,generated_output);
-- 
2.43.0


From a731d3dcab986d5f97d6e9dba5fac0a2b4bd3cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:07 +0000
Subject: [PATCH 13/86] fix: gzip reader left an invalid get area after a
 decoding error

---
 src/lib/io/ZIP.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/io/ZIP.cpp b/src/lib/io/ZIP.cpp
index 7406717..302770c 100644
--- a/src/lib/io/ZIP.cpp
+++ b/src/lib/io/ZIP.cpp
@@ -311,6 +311,7 @@ public:
     if(put_back_count>4) put_back_count=4;
     std::memmove(out+(4-put_back_count),gptr()-put_back_count,put_back_count);
     int num=process();
+    if(num<0) num=0; // nothing decoded, leave an empty get area
     setg((char*)(out+4-put_back_count),(char*)(out+4),(char*)(out+4+num));
     if(num<=0) return EOF;
     return traits_type::to_int_type(*gptr());}
-- 
2.43.0


From 384ebbc60c1eab8e40f42a5814df2f045c8fd0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:07 +0000
Subject: [PATCH 14/86] fix: gzip header flags were misread (extra field,
 comment and header crc)

---
 src/lib/io/ZIP.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/io/ZIP.cpp b/src/lib/io/ZIP.cpp
index 302770c..c713537 100644
--- a/src/lib/io/ZIP.cpp
+++ b/src/lib/io/ZIP.cpp
@@ -112,15 +112,15 @@ struct GZipFileHeader
     Read_Primitive(istream,os);
     unsigned char dummyByte;
     // read flags if necessary
-    if(flags&2){
+    if(flags&4){
         unsigned short flgExtraLen;
         Read_Primitive(istream,flgExtraLen);
         for(int k=0;k<flgExtraLen;k++) Read_Primitive(istream,dummyByte);}
     // read filename/comment if present
-    int stringsToRead=((flags&8)?1:0) + ((flags&4)?1:0);
+    int stringsToRead=((flags&8)?1:0) + ((flags&16)?1:0);
     for(int i=0;i<stringsToRead;i++) 
         do{Read_Primitive(istream,dummyByte);}while(dummyByte!=0 && istream);
-    if(flags&1) Read_Primitive(istream,crc16);
+    if(flags&2) Read_Primitive(istream,crc16);
     if(!istream) {std::cerr<<"gzip: got to end of file after only reading gzip header"<<std::endl;return false;}
     return true;}
 
-- 
2.43.0


From e5b0798210e9579db1b35705678a1e8b07ab0f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:07 +0000
Subject: [PATCH 15/86] fix: a compressed write to an unwritable path was not
 reported as failed

---
 src/lib/io/ZIP.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/io/ZIP.cpp b/src/lib/io/ZIP.cpp
index c713537..e77aaf8 100644
--- a/src/lib/io/ZIP.cpp
+++ b/src/lib/io/ZIP.cpp
@@ -598,6 +598,7 @@ std::ostream*
 Gzip_Out(const std::string& filename,std::ios::openmode mode)
 {
     std::ofstream* outfile=new std::ofstream(filename.c_str(),mode);
+    if(!*outfile) return outfile; // let the caller see that the file cannot be written
     return new ZIP_FILE_OSTREAM(0,*outfile);
 }
 //#####################################################################
-- 
2.43.0


From bbe9b4d3132773dd52fbb69815c34b7d90314431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:07 +0000
Subject: [PATCH 16/86] fix: opening a missing or empty file printed to stderr
 even when not verbose

---
 src/lib/io/ZIP.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/lib/io/ZIP.cpp b/src/lib/io/ZIP.cpp
index e77aaf8..c1875f6 100644
--- a/src/lib/io/ZIP.cpp
+++ b/src/lib/io/ZIP.cpp
@@ -97,10 +97,7 @@ struct GZipFileHeader
 
     bool Read(std::istream& istream)
     {Read_Primitive(istream,magic0);
-    if (istream.eof() || istream.fail() || istream.bad()) {
-        std::cerr << "Bad file attempting to read header" << std::endl;
-        return false;
-    }
+    if (istream.eof() || istream.fail() || istream.bad()) return false;
     Read_Primitive(istream,magic1);
     if(magic0 != 0x1f || magic1 != 0x8b){//std::cerr<<"gzip: did not find gzip magic 0x1f 0x8b"<<std::endl;
         return false;}
-- 
2.43.0


From b1345fdf01db97f4c10645c3398de8fda9d68c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:51 +0000
Subject: [PATCH 17/86] fix: PRT and BIN printed to the console although
 verbose output was off

---
 src/lib/io/BIN.cpp | 4 ++--
 src/lib/io/PRT.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/io/BIN.cpp b/src/lib/io/BIN.cpp
index 326e6dc..f85eed7 100644
--- a/src/lib/io/BIN.cpp
+++ b/src/lib/io/BIN.cpp
@@ -103,7 +103,7 @@ ParticlesDataMutable* readBIN(const char* filename, const bool headersOnly,std::
 
     // After version 13, we don't know what to do
     if(header.version > 13){
-        cerr << "Partio: Unknown .bin version : " << header.version << endl;
+        if(errorStream) *errorStream << "Partio: Unknown .bin version : " << header.version << endl;
         return 0;
     }
 
@@ -457,7 +457,7 @@ bool writeBIN(const char* filename,const ParticlesData& p,const bool /*compresse
 
             else
             {
-                cout << "Attribute found that  we don't support yet" << endl;
+                if(errorStream) *errorStream << "Attribute found that  we don't support yet" << endl;
             }
         }
 
diff --git a/src/lib/io/PRT.cpp b/src/lib/io/PRT.cpp
index dead40b..480b1cd 100644
--- a/src/lib/io/PRT.cpp
+++ b/src/lib/io/PRT.cpp
@@ -115,7 +115,7 @@ static bool read_buffer(std::istream& is, z_stream& z, char* in_buf, void* p, si
             return false;
         }
         if (ret == Z_STREAM_END && z.avail_out > 0) {
-            std::cerr<<"Truncated prt file  "<<std::endl;;
+            if(errorStream) *errorStream<<"Truncated prt file  "<<std::endl;;
             return false;
         }
     }
-- 
2.43.0


From ae8f6d2e05d4302d51facadb4c406de3873c7f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:07 +0000
Subject: [PATCH 18/86] fix: PDA, PDB and PTS readers rejected malformed files
 without reporting why

---
 src/lib/io/PDA.cpp | 17 +++++++++++++----
 src/lib/io/PDB.cpp |  1 +
 src/lib/io/PTS.cpp |  2 ++
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/lib/io/PDA.cpp b/src/lib/io/PDA.cpp
index 33edab8..47d4bf4 100644
--- a/src/lib/io/PDA.cpp
+++ b/src/lib/io/PDA.cpp
@@ -59,7 +59,9 @@ ParticlesDataMutable* readPDA(const char* filename,const bool headersOnly,std::o
     
     if(input->good()){
         *input>>word;
-        if(word!="ATTRIBUTES"){simple->release();return 0;}
+        if(word!="ATTRIBUTES"){
+            if(errorStream) *errorStream<<"Partio: Did not find ATTRIBUTES in "<<filename<<endl;
+            simple->release();return 0;}
     }
 
     vector<string> attrNames;
@@ -95,6 +97,7 @@ ParticlesDataMutable* readPDA(const char* filename,const bool headersOnly,std::o
         simple->addParticles(num);
         if(headersOnly) return simple; // escape before we try to touch data
     }else{
+        if(errorStream) *errorStream<<"Partio: Unexpected end of the header of "<<filename<<endl;
         simple->release();
         return 0;
     }
@@ -102,15 +105,21 @@ ParticlesDataMutable* readPDA(const char* filename,const bool headersOnly,std::o
     // look for beginning of header
     if(input->good()){
         *input>>word;
-        if(word != "BEGIN"){simple->release();return 0;}
+        if(word != "BEGIN"){
+            if(errorStream) *errorStream<<"Partio: Did not find BEGIN in "<<filename<<endl;
+            simple->release();return 0;}
     }
     if(input->good()){
         *input>>word;
-        if(word != "DATA"){simple->release();return 0;}
+        if(word != "DATA"){
+            if(errorStream) *errorStream<<"Partio: Did not find DATA in "<<filename<<endl;
+            simple->release();return 0;}
     }
 
     // Read actual particle data
-    if(!input->good()){simple->release();return 0;}
+    if(!input->good()){
+        if(errorStream) *errorStream<<"Partio: No particle data in "<<filename<<endl;
+        simple->release();return 0;}
     for(unsigned int particleIndex=0;input->good() && particleIndex<num; particleIndex++) {
         for(unsigned int attrIndex=0;attrIndex<attrs.size();attrIndex++){
             if(attrs[attrIndex].type==Partio::INT){
diff --git a/src/lib/io/PDB.cpp b/src/lib/io/PDB.cpp
index 6ba9f5a..22c1940 100644
--- a/src/lib/io/PDB.cpp
+++ b/src/lib/io/PDB.cpp
@@ -114,6 +114,7 @@ template<int bits> ParticlesDataMutable* readPDBHelper(const char* filename,cons
         bool error;
         string name=GetString(*input,error);
         if(error){
+            if(errorStream) *errorStream<<"Partio: Invalid channel name in "<<filename<<endl;
             simple->release();
             return 0;
         }
diff --git a/src/lib/io/PTS.cpp b/src/lib/io/PTS.cpp
index aab189f..e5fee03 100644
--- a/src/lib/io/PTS.cpp
+++ b/src/lib/io/PTS.cpp
@@ -151,6 +151,7 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
 		break;
 		default:
 		{
+			if(errorStream) *errorStream<<"Partio: Unsupported number of columns in "<<filename<<endl;
 			simple->release();
 			return 0;
 		}
@@ -172,6 +173,7 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
 
     // Read actual particle data
     if (!input->good()) {
+        if(errorStream) *errorStream<<"Partio: No particle data in "<<filename<<endl;
         simple->release();
         return 0;
     }
-- 
2.43.0


From f8a1f952d5a314daf4733e08da6b35a20f3b3b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:35 +0000
Subject: [PATCH 19/86] fix: GEO, PDA and RIB writers reported success for
 files they could not open

---
 src/lib/io/GEO.cpp | 4 ++++
 src/lib/io/PDA.cpp | 4 ++++
 src/lib/io/RIB.cpp | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/src/lib/io/GEO.cpp b/src/lib/io/GEO.cpp
index f08a8b6..0d835c9 100644
--- a/src/lib/io/GEO.cpp
+++ b/src/lib/io/GEO.cpp
@@ -230,6 +230,10 @@ void writeType(ostream& output,const ParticlesData&,const ParticleAttribute& att
 bool writeGEO(const char* filename,const ParticlesData& p,const bool compressed,std::ostream* errorStream)
 {
     unique_ptr<ostream> output(io::write(filename, compressed));
+    if(!*output){
+        if(errorStream) *errorStream<<"Partio Unable to open file "<<filename<<endl;
+        return false;
+    }
     *output<<"PGEOMETRY V5"<<endl;
     *output<<"NPoints "<<p.numParticles()<<" NPrims "<<1<<endl;
     *output<<"NPointGroups "<<0<<" NPrimGroups "<<0<<endl;
diff --git a/src/lib/io/PDA.cpp b/src/lib/io/PDA.cpp
index 47d4bf4..2fd2bf4 100644
--- a/src/lib/io/PDA.cpp
+++ b/src/lib/io/PDA.cpp
@@ -146,6 +146,10 @@ ParticlesDataMutable* readPDA(const char* filename,const bool headersOnly,std::o
 bool writePDA(const char* filename,const ParticlesData& p,const bool compressed,std::ostream* errorStream)
 {
     unique_ptr<ostream> output(io::write(filename, compressed));
+    if(!*output){
+        if(errorStream) *errorStream<<"Partio Unable to open file "<<filename<<endl;
+        return false;
+    }
     *output<<"ATTRIBUTES"<<endl;
 
     vector<ParticleAttribute> attrs;
diff --git a/src/lib/io/RIB.cpp b/src/lib/io/RIB.cpp
index 5d5da08..d035f66 100644
--- a/src/lib/io/RIB.cpp
+++ b/src/lib/io/RIB.cpp
@@ -33,6 +33,10 @@ using namespace std;
 bool writeRIB(const char* filename, const ParticlesData& p, const bool compressed,std::ostream* errorStream)
 {
     unique_ptr<ostream> output(io::write(filename, compressed));
+    if(!*output){
+        if(errorStream) *errorStream<<"Partio Unable to open file "<<filename<<endl;
+        return false;
+    }
     ParticleAttribute dummy;
     bool foundP     = p.attributeInfo("position",  dummy) || p.attributeInfo("P",     dummy);
     bool foundP2    = p.attributeInfo("position2", dummy) || p.attributeInfo("P2",    dummy);
-- 
2.43.0


From 4cb9a3f1451fade1d4129ffc2e3be2db0b3f9ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:18 +0000
Subject: [PATCH 20/86] fix: BGEO reader kept skipping data after the end of
 the file

---
 src/lib/io/BGEO.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/io/BGEO.cpp b/src/lib/io/BGEO.cpp
index 87a5683..42ea6f8 100644
--- a/src/lib/io/BGEO.cpp
+++ b/src/lib/io/BGEO.cpp
@@ -149,7 +149,7 @@ void skip(istream *input, size_t numChars)
 {
     static const size_t bufferSize = 4096;
     char buffer[bufferSize];
-    while (numChars>0) {
+    while (numChars>0 && *input) {
         int toRead=std::min(numChars,bufferSize);
         input->read(buffer,toRead);
         numChars-=toRead;
-- 
2.43.0


From 6caf5050256dca2fff776fc8a7cfcdf6b003b35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:20 +0000
Subject: [PATCH 21/86] fix: PTC reader read past the particles when the point
 count exceeds an int

---
 src/lib/io/PTC.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/io/PTC.cpp b/src/lib/io/PTC.cpp
index 3448d6f..b2e73c2 100644
--- a/src/lib/io/PTC.cpp
+++ b/src/lib/io/PTC.cpp
@@ -191,7 +191,7 @@ ParticlesDataMutable* readPTC(const char* filename,const bool headersOnly,std::o
     // more weird input attributes
     if(version>=1) for(int i=0;i<2;i++) read<LITEND>(*input,dummy);
 
-    for(int pointIndex=0;pointIndex<nPoints;pointIndex++){
+    for(int pointIndex=0;pointIndex<simple->numParticles();pointIndex++){
         float* pos=simple->dataWrite<float>(positionHandle,pointIndex);
         read<LITEND>(*input,pos[0],pos[1],pos[2]);
 
-- 
2.43.0


From 8aa2c2d3b2d3e2281cbb219b4c47081d236e5ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:21 +0000
Subject: [PATCH 22/86] fix: PTC reader scanned past the end of a malformed
 channel specification

---
 src/lib/io/PTC.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/io/PTC.cpp b/src/lib/io/PTC.cpp
index b2e73c2..bb10e03 100644
--- a/src/lib/io/PTC.cpp
+++ b/src/lib/io/PTC.cpp
@@ -69,9 +69,9 @@ bool ParseSpec(const string& spec,string& typeName,string& name)
     // TODO: make more robust
     const char* s=spec.c_str();
     typeName="";name="";
-    while(*s!=' ') typeName+=*s++;
+    while(*s && *s!=' ') typeName+=*s++;
     while(*s==' ') s++;
-    while(*s!='\n') name+=*s++;
+    while(*s && *s!='\n') name+=*s++;
     return true;
 }
 
-- 
2.43.0


From 7b750355921fe4b304f940835e5d883378f54316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:22 +0000
Subject: [PATCH 23/86] fix: MC reader never ended on a truncated file

---
 src/lib/io/MC.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lib/io/MC.cpp b/src/lib/io/MC.cpp
index 82b5278..82acd61 100644
--- a/src/lib/io/MC.cpp
+++ b/src/lib/io/MC.cpp
@@ -77,6 +77,7 @@ bool ReadAttrHeader(std::istream& input, Attribute_Header& attribute){
 
     int chnmSize;
     read<BIGEND>(input, chnmSize);
+    if(!input) return false; // no further attribute
     if(chnmSize%4 > 0){
         chnmSize = chnmSize - chnmSize%4 + 4;
     }
@@ -93,7 +94,7 @@ bool ReadAttrHeader(std::istream& input, Attribute_Header& attribute){
 
     read<BIGEND>(input, attribute.blocksize);
 
-    return true;
+    return bool(input);
 }
 
 int CharArrayLen(char** charArray){
@@ -165,7 +166,7 @@ ParticlesDataMutable* readMC(const char* filename, const bool headersOnly,std::o
     input->read(tag, 4); // MYCH
     while(((int)input->tellg()-HEADER_SIZE) < blockSize){
         Attribute_Header attrHeader;
-        ReadAttrHeader(*input, attrHeader);
+        if(!ReadAttrHeader(*input, attrHeader)) break;
 
         if(attrHeader.name == std::string("id")){
             numParticles = attrHeader.numParticles;
@@ -212,7 +213,7 @@ ParticlesDataMutable* readMC(const char* filename, const bool headersOnly,std::o
     input->read(tag, 4); // MYCH
     while((int)input->tellg()-HEADER_SIZE < blockSize){
         Attribute_Header attrHeader;
-        ReadAttrHeader(*input, attrHeader);
+        if(!ReadAttrHeader(*input, attrHeader)) break;
 
         if(attrHeader.blocksize/sizeof(double) == 1){ // for who ?
             input->seekg((int)input->tellg() + attrHeader.blocksize);
-- 
2.43.0


From 200150f07c952e80239ef7b5ab80ded7e1b7c296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:18 +0000
Subject: [PATCH 24/86] fix: MC reader could skip backwards forever over a
 negative block size

---
 src/lib/io/MC.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/lib/io/MC.cpp b/src/lib/io/MC.cpp
index 82acd61..a6f11cf 100644
--- a/src/lib/io/MC.cpp
+++ b/src/lib/io/MC.cpp
@@ -173,22 +173,22 @@ ParticlesDataMutable* readMC(const char* filename, const bool headersOnly,std::o
         }
 
         if(attrHeader.blocksize/sizeof(double) == 1){ // for who ?
-            input->seekg((int)input->tellg() + attrHeader.blocksize);
+            input->ignore(attrHeader.blocksize);
             continue;
         }
 #if 0 // TODO: if we ever put back attributes re-enable this
         if(attributes && (IsStringInCharArray(attrHeader.name, attributes)==false)){
-            input->seekg((int)input->tellg() + attrHeader.blocksize);
+            input->ignore(attrHeader.blocksize);
             continue;
         }
 #endif
 
         if(attrHeader.type == std::string("FVCA")){
-            input->seekg((int)input->tellg() + attrHeader.blocksize);
+            input->ignore(attrHeader.blocksize);
             simple->addAttribute(attrHeader.name.c_str(), VECTOR, 3);
         }
         else if(attrHeader.type == std::string("DBLA")){
-			input->seekg((int)input->tellg() + attrHeader.blocksize);
+			input->ignore(attrHeader.blocksize);
 			if(attrHeader.name == "id"){
 				simple->addAttribute(attrHeader.name.c_str(), INT, 1);
 			}
@@ -198,7 +198,7 @@ ParticlesDataMutable* readMC(const char* filename, const bool headersOnly,std::o
         }
         else
 		{
-            input->seekg((int)input->tellg() + attrHeader.blocksize);
+            input->ignore(attrHeader.blocksize);
             if(errorStream) *errorStream << "Partio: Attribute '" << attrHeader.name << " " << attrHeader.type << "' cannot map type" << std::endl;
         }
     }
@@ -209,6 +209,7 @@ ParticlesDataMutable* readMC(const char* filename, const bool headersOnly,std::o
         return simple;
     }
     //cout << "==============================================================" << endl;
+    input->clear();
     input->seekg(HEADER_SIZE);
     input->read(tag, 4); // MYCH
     while((int)input->tellg()-HEADER_SIZE < blockSize){
@@ -216,13 +217,13 @@ ParticlesDataMutable* readMC(const char* filename, const bool headersOnly,std::o
         if(!ReadAttrHeader(*input, attrHeader)) break;
 
         if(attrHeader.blocksize/sizeof(double) == 1){ // for who ?
-            input->seekg((int)input->tellg() + attrHeader.blocksize);
+            input->ignore(attrHeader.blocksize);
             continue;
         }
 
         ParticleAttribute attrHandle;
         if(simple->attributeInfo(attrHeader.name.c_str(), attrHandle) == false){
-            input->seekg((int)input->tellg() + attrHeader.blocksize);
+            input->ignore(attrHeader.blocksize);
             continue;
         }
 
-- 
2.43.0


From ef4b7cbec2486b4c39949e4d7886bd5cd232e3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:19 +0000
Subject: [PATCH 25/86] fix: reading the headers of a gzipped PDC file found
 only its first attribute

---
 src/lib/io/PDC.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/io/PDC.cpp b/src/lib/io/PDC.cpp
index baf466c..1fc59c2 100644
--- a/src/lib/io/PDC.cpp
+++ b/src/lib/io/PDC.cpp
@@ -104,7 +104,7 @@ ParticlesDataMutable* readPDC(const char* filename, const bool headersOnly,std::
 
         // if headersOnly, skip
         if(headersOnly){
-            input->seekg((int)input->tellg() + header.numParticles*sizeof(double)*attr.count);
+            input->ignore((std::streamsize)header.numParticles*sizeof(double)*attr.count);
             continue;
         }
         else{
-- 
2.43.0


From e01d682b639c5b0aeb78c21a16caf7741f01d712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:52 +0000
Subject: [PATCH 26/86] fix: PDB reader took the 32 bit files the library
 writes for 64 bit ones

---
 src/lib/io/PDB.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/io/PDB.cpp b/src/lib/io/PDB.cpp
index 22c1940..388d976 100644
--- a/src/lib/io/PDB.cpp
+++ b/src/lib/io/PDB.cpp
@@ -267,11 +267,11 @@ ParticlesDataMutable* readPDB(const char* filename,const bool headersOnly,std::o
         return 0;
     }
     // Now read a channel io ... and see if the the swap is zero or one and encoding is zero. If so then we probably god a good thing
-    // if not, then we assume 64 bit.
+    // if not, then we assume 32 bit. The swap of a channel is the one of the file: the 32 bit files we write have a zero there.
     PDB_POLICY<64>::CHANNEL_IO channelIOHeader;
     input->read((char*)&channelIOHeader,sizeof(channelIOHeader));
     //cout<<"we got channel io as "<<int(channelIOHeader.type)<<" swap is "<<channelIOHeader.swap<<endl;
-    if(channelIOHeader.type > 5  || channelIOHeader.type < 0 || (channelIOHeader.swap != 1 && channelIOHeader.swap != 0)){
+    if(channelIOHeader.type > 5  || channelIOHeader.type < 0 || (channelIOHeader.swap != 1 && channelIOHeader.swap != 0) || channelIOHeader.swap != header.swap){
         return readPDBHelper<32>(filename,headersOnly,errorStream);
     }else{
         return readPDBHelper<64>(filename,headersOnly,errorStream);
-- 
2.43.0


From 7203518545e2ccf194867cf9e958b0ab830a7c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:47 +0000
Subject: [PATCH 27/86] fix: header-only particle sets accepted two attributes
 of the same name

---
 src/lib/core/ParticleHeaders.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib/core/ParticleHeaders.cpp b/src/lib/core/ParticleHeaders.cpp
index 08ba1e6..711e008 100644
--- a/src/lib/core/ParticleHeaders.cpp
+++ b/src/lib/core/ParticleHeaders.cpp
@@ -188,6 +188,10 @@ findNPoints(const float[3],int,const float, ParticleIndex *,
 ParticleAttribute ParticleHeaders::
 addAttribute(const char* attribute,ParticleAttributeType type,const int count)
 {
+    if(nameToAttribute.find(attribute) != nameToAttribute.end()){
+        std::cerr<<"Partio: addAttribute failed because attr '"<<attribute<<"'"<<" already exists"<<std::endl;
+        return ParticleAttribute();
+    }
     // TODO: check if attribute already exists and if so what data type
     ParticleAttribute attr;
     attr.name=attribute;
@@ -202,6 +206,10 @@ addAttribute(const char* attribute,ParticleAttributeType type,const int count)
 FixedAttribute ParticleHeaders::
 addFixedAttribute(const char* attribute,ParticleAttributeType type,const int count)
 {
+    if(nameToFixedAttribute.find(attribute) != nameToFixedAttribute.end()){
+        std::cerr<<"Partio: addFixedAttribute failed because attr '"<<attribute<<"'"<<" already exists"<<std::endl;
+        return FixedAttribute();
+    }
     // TODO: check if attribute already exists and if so what data type
     FixedAttribute attr;
     attr.name=attribute;
-- 
2.43.0


From 3a58a8a6b3b072685ee13f7dc3b4c5988f6ef6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:49 +0000
Subject: [PATCH 28/86] fix: renaming an indexed string could erase past the
 end of its table

---
 src/lib/core/ParticleSimple.cpp           | 6 ++++--
 src/lib/core/ParticleSimpleInterleave.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lib/core/ParticleSimple.cpp b/src/lib/core/ParticleSimple.cpp
index 4fa23e6..cb1601d 100644
--- a/src/lib/core/ParticleSimple.cpp
+++ b/src/lib/core/ParticleSimple.cpp
@@ -437,7 +437,8 @@ fixedIndexedStrs(const FixedAttribute& attr) const
 void ParticlesSimple::setIndexedStr(const ParticleAttribute& attribute,int indexedStringToken,const char* str){
     IndexedStrTable& table=attributeIndexedStrs[attribute.attributeIndex];
     if(indexedStringToken >= int(table.strings.size()) || indexedStringToken < 0) return;
-    table.stringToIndex.erase(table.stringToIndex.find(table.strings[indexedStringToken]));
+    std::map<std::string,int>::iterator it=table.stringToIndex.find(table.strings[indexedStringToken]);
+    if(it!=table.stringToIndex.end() && it->second==indexedStringToken) table.stringToIndex.erase(it);
     table.strings[indexedStringToken] = str;
     table.stringToIndex[str]=indexedStringToken;
 }
@@ -445,7 +446,8 @@ void ParticlesSimple::setIndexedStr(const ParticleAttribute& attribute,int index
 void ParticlesSimple::setFixedIndexedStr(const FixedAttribute& attribute,int indexedStringToken,const char* str){
     IndexedStrTable& table=fixedAttributeIndexedStrs[attribute.attributeIndex];
     if(indexedStringToken >= int(table.strings.size()) || indexedStringToken < 0) return;
-    table.stringToIndex.erase(table.stringToIndex.find(table.strings[indexedStringToken]));
+    std::map<std::string,int>::iterator it=table.stringToIndex.find(table.strings[indexedStringToken]);
+    if(it!=table.stringToIndex.end() && it->second==indexedStringToken) table.stringToIndex.erase(it);
     table.strings[indexedStringToken] = str;
     table.stringToIndex[str]=indexedStringToken;
 }
diff --git a/src/lib/core/ParticleSimpleInterleave.cpp b/src/lib/core/ParticleSimpleInterleave.cpp
index 573998a..c5a3f39 100644
--- a/src/lib/core/ParticleSimpleInterleave.cpp
+++ b/src/lib/core/ParticleSimpleInterleave.cpp
@@ -440,7 +440,8 @@ fixedIndexedStrs(const FixedAttribute& attr) const
 void ParticlesSimpleInterleave::setIndexedStr(const ParticleAttribute& attribute,int indexedStringToken,const char* str){
     IndexedStrTable& table=attributeIndexedStrs[attribute.attributeIndex];
     if(indexedStringToken >= int(table.strings.size()) || indexedStringToken < 0) return;
-    table.stringToIndex.erase(table.stringToIndex.find(table.strings[indexedStringToken]));
+    std::map<std::string,int>::iterator it=table.stringToIndex.find(table.strings[indexedStringToken]);
+    if(it!=table.stringToIndex.end() && it->second==indexedStringToken) table.stringToIndex.erase(it);
     table.strings[indexedStringToken] = str;
     table.stringToIndex[str]=indexedStringToken;
 }
@@ -448,7 +449,8 @@ void ParticlesSimpleInterleave::setIndexedStr(const ParticleAttribute& attribute
 void ParticlesSimpleInterleave::setFixedIndexedStr(const FixedAttribute& attribute,int indexedStringToken,const char* str){
     IndexedStrTable& table=fixedAttributeIndexedStrs[attribute.attributeIndex];
     if(indexedStringToken >= int(table.strings.size()) || indexedStringToken < 0) return;
-    table.stringToIndex.erase(table.stringToIndex.find(table.strings[indexedStringToken]));
+    std::map<std::string,int>::iterator it=table.stringToIndex.find(table.strings[indexedStringToken]);
+    if(it!=table.stringToIndex.end() && it->second==indexedStringToken) table.stringToIndex.erase(it);
     table.strings[indexedStringToken] = str;
     table.stringToIndex[str]=indexedStringToken;
 }
-- 
2.43.0


From 7f7d71985662f4960ed2b496bd88f39e4fa35202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:51 +0000
Subject: [PATCH 29/86] fix: fixed attributes of interleaved particle sets
 shared index and stride with the per-particle ones

---
 src/lib/core/ParticleSimpleInterleave.cpp | 22 +++++++---------------
 src/lib/core/ParticleSimpleInterleave.h   |  1 +
 2 files changed, 8 insertions(+), 15 deletions(-)

diff --git a/src/lib/core/ParticleSimpleInterleave.cpp b/src/lib/core/ParticleSimpleInterleave.cpp
index c5a3f39..09aec38 100644
--- a/src/lib/core/ParticleSimpleInterleave.cpp
+++ b/src/lib/core/ParticleSimpleInterleave.cpp
@@ -50,7 +50,7 @@ using namespace Partio;
 
 ParticlesSimpleInterleave::
 ParticlesSimpleInterleave()
-    :particleCount(0),allocatedCount(0),data(nullptr),fixedData(nullptr),stride(0),kdtree(nullptr)
+    :particleCount(0),allocatedCount(0),data(nullptr),fixedData(nullptr),stride(0),fixedStride(0),kdtree(nullptr)
 {
 }
 
@@ -246,27 +246,19 @@ addFixedAttribute(const char* attribute,ParticleAttributeType type,const int cou
     FixedAttribute attr;
     attr.name=attribute;
     attr.type=type;
-    attr.attributeIndex=attributes.size(); //  all arrays separate so we don't use this here!
+    attr.attributeIndex=fixedAttributes.size(); //  all arrays separate so we don't use this here!
     attr.count=count;
     fixedAttributes.push_back(attr);
     nameToFixedAttribute[attribute]=fixedAttributes.size()-1;
 
     // repackage data for new attribute
-    int oldStride=stride;
-    int newStride=stride+TypeSize(type)*count;
+    int oldStride=fixedStride;
+    int newStride=fixedStride+TypeSize(type)*count;
     char* newData=(char*)malloc((size_t)newStride);
-    if(fixedData){
-        char* ptrNew=newData;
-        char* ptrOld=fixedData;
-        for(int i=0;i<particleCount;i++){
-            memcpy(ptrNew,ptrOld,oldStride);
-            ptrNew+=newStride;
-            ptrOld+=oldStride;
-        }
-    }
+    if(fixedData) memcpy(newData,fixedData,oldStride);
     free(fixedData);
     fixedData=newData;
-    stride=newStride;
+    fixedStride=newStride;
     fixedAttributeOffsets.push_back(oldStride);
     fixedAttributeIndexedStrs.push_back(IndexedStrTable());
 
@@ -346,7 +338,7 @@ dataInternal(const ParticleAttribute& attribute,const ParticleIndex particleInde
 void* ParticlesSimpleInterleave::
 fixedDataInternal(const FixedAttribute& attribute) const
 {
-    return data+allocatedCount*stride+fixedAttributeOffsets[attribute.attributeIndex];
+    return fixedData+fixedAttributeOffsets[attribute.attributeIndex];
 }
 
 void ParticlesSimpleInterleave::
diff --git a/src/lib/core/ParticleSimpleInterleave.h b/src/lib/core/ParticleSimpleInterleave.h
index bd40e01..7b1bf12 100644
--- a/src/lib/core/ParticleSimpleInterleave.h
+++ b/src/lib/core/ParticleSimpleInterleave.h
@@ -110,6 +110,7 @@ private:
     char* data;
     char* fixedData;
     int stride;
+    int fixedStride;
     struct IndexedStrTable{
         std::map<std::string,int> stringToIndex; // TODO: this should be a hash table unordered_map
         std::vector<std::string> strings;
-- 
2.43.0


From 8880558afc4f18d7860a7d05224e53ea22dbec3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:53 +0000
Subject: [PATCH 30/86] fix: reading several particles of an interleaved set
 left the values unset

---
 src/lib/core/ParticleSimpleInterleave.cpp | 27 +++++++++++------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/lib/core/ParticleSimpleInterleave.cpp b/src/lib/core/ParticleSimpleInterleave.cpp
index 09aec38..b0317a4 100644
--- a/src/lib/core/ParticleSimpleInterleave.cpp
+++ b/src/lib/core/ParticleSimpleInterleave.cpp
@@ -342,33 +342,32 @@ fixedDataInternal(const FixedAttribute& attribute) const
 }
 
 void ParticlesSimpleInterleave::
-dataInternalMultiple(const ParticleAttribute&,const int,const ParticleIndex*,const bool,char*) const
+dataInternalMultiple(const ParticleAttribute& attribute,const int indexCount,
+    const ParticleIndex* particleIndices,const bool,char* values) const
 {
-#if 0
     assert(attribute.attributeIndex>=0 && attribute.attributeIndex<(int)attributes.size());
 
-    char* base=attributeData[attribute.attributeIndex];
-    int bytes=attributeStrides[attribute.attributeIndex];
+    char* base=data+attributeOffsets[attribute.attributeIndex];
+    int bytes=TypeSize(attribute.type)*attribute.count;
     for(int i=0;i<indexCount;i++)
-        memcpy(values+bytes*i,base+particleIndices[i]*bytes,bytes);
-#endif
+        memcpy(values+bytes*i,base+particleIndices[i]*stride,bytes);
 }
 
 void ParticlesSimpleInterleave::
-dataAsFloat(const ParticleAttribute&,const int,
-    const ParticleIndex*,const bool,float*) const
+dataAsFloat(const ParticleAttribute& attribute,const int indexCount,
+    const ParticleIndex* particleIndices,const bool sorted,float* values) const
 {
-#if 0
     assert(attribute.attributeIndex>=0 && attribute.attributeIndex<(int)attributes.size());
 
     if(attribute.type==FLOAT || attribute.type==VECTOR) dataInternalMultiple(attribute,indexCount,particleIndices,sorted,(char*)values);
-    else if(attribute.type==INT){
-        char* attrrawbase=attributeData[attribute.attributeIndex];
-        int* attrbase=(int*)attrrawbase;
+    else if(attribute.type==INT || attribute.type==INDEXEDSTR){
+        char* attrrawbase=data+attributeOffsets[attribute.attributeIndex];
         int count=attribute.count;
-        for(int i=0;i<indexCount;i++) for(int k=0;k<count;k++) values[i*count+k]=(int)attrbase[particleIndices[i]*count+k];
+        for(int i=0;i<indexCount;i++){
+            int* attrbase=(int*)(attrrawbase+particleIndices[i]*stride);
+            for(int k=0;k<count;k++) values[i*count+k]=static_cast<float>(attrbase[k]);
+        }
     }
-#endif
 }
 
 
-- 
2.43.0


From 02bd31f253f1ab80e07724de262a35b178731208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:54 +0000
Subject: [PATCH 31/86] fix: growing a set with a zero-sized attribute kept a
 freed pointer

---
 src/lib/core/ParticleSimple.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/core/ParticleSimple.cpp b/src/lib/core/ParticleSimple.cpp
index cb1601d..dc146cf 100644
--- a/src/lib/core/ParticleSimple.cpp
+++ b/src/lib/core/ParticleSimple.cpp
@@ -264,7 +264,7 @@ addParticle()
         allocatedCount=std::max(10,std::max(allocatedCount*3/2,particleCount));
         for(unsigned int i=0;i<attributes.size();i++) {
             char *memory = (char*)realloc(attributeData[i],(size_t)attributeStrides[i]*(size_t)allocatedCount);
-            if(memory){
+            if(memory || attributeStrides[i]==0){
                 attributeData[i]=memory;
             }
         }
-- 
2.43.0


From 3a5d98d2dc33ae390f063d1ac586874235ff0fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:00 +0000
Subject: [PATCH 32/86] fix: postfix increment of a particle iterator never
 reached end()

---
 src/lib/PartioIterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/PartioIterator.h b/src/lib/PartioIterator.h
index e0ce86c..b42e7de 100644
--- a/src/lib/PartioIterator.h
+++ b/src/lib/PartioIterator.h
@@ -179,7 +179,7 @@ public:
     ParticleIterator operator++(int)
     {
         ParticleIterator newIt(*this);
-        index++;
+        ++(*this);
         return newIt;
     }
 
-- 
2.43.0


From 0dafaad691eac87b11200d5ac374cef400cba20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:32 +0000
Subject: [PATCH 33/86] fix: interleaved particle sets handed out pointers past
 their last particle

---
 src/lib/core/ParticleSimpleInterleave.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/core/ParticleSimpleInterleave.cpp b/src/lib/core/ParticleSimpleInterleave.cpp
index b0317a4..df41c0e 100644
--- a/src/lib/core/ParticleSimpleInterleave.cpp
+++ b/src/lib/core/ParticleSimpleInterleave.cpp
@@ -332,6 +332,12 @@ setupAccessor(Partio::ParticleIterator<true>&,ParticleAccessor& accessor) const
 void* ParticlesSimpleInterleave::
 dataInternal(const ParticleAttribute& attribute,const ParticleIndex particleIndex) const
 {
+    if (particleIndex >= (ParticleIndex)numParticles()) {
+        std::cerr << "Invalid attempt to set particle value on index "
+                  << particleIndex << " in data with " << numParticles()
+                  << " particles." << std::endl;
+        return nullptr;
+    }
     return data+particleIndex*stride+attributeOffsets[attribute.attributeIndex];
 }
 
-- 
2.43.0


From 8c0de8f2c8b47ccc2fda549f53f789c09d9641a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:07 +0000
Subject: [PATCH 34/86] fix: header-only particle sets print nothing about a
 duplicate attribute

---
 src/lib/core/ParticleHeaders.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/lib/core/ParticleHeaders.cpp b/src/lib/core/ParticleHeaders.cpp
index 711e008..00053eb 100644
--- a/src/lib/core/ParticleHeaders.cpp
+++ b/src/lib/core/ParticleHeaders.cpp
@@ -188,10 +188,8 @@ findNPoints(const float[3],int,const float, ParticleIndex *,
 ParticleAttribute ParticleHeaders::
 addAttribute(const char* attribute,ParticleAttributeType type,const int count)
 {
-    if(nameToAttribute.find(attribute) != nameToAttribute.end()){
-        std::cerr<<"Partio: addAttribute failed because attr '"<<attribute<<"'"<<" already exists"<<std::endl;
+    if(nameToAttribute.find(attribute) != nameToAttribute.end())
         return ParticleAttribute();
-    }
     // TODO: check if attribute already exists and if so what data type
     ParticleAttribute attr;
     attr.name=attribute;
@@ -206,10 +204,8 @@ addAttribute(const char* attribute,ParticleAttributeType type,const int count)
 FixedAttribute ParticleHeaders::
 addFixedAttribute(const char* attribute,ParticleAttributeType type,const int count)
 {
-    if(nameToFixedAttribute.find(attribute) != nameToFixedAttribute.end()){
-        std::cerr<<"Partio: addFixedAttribute failed because attr '"<<attribute<<"'"<<" already exists"<<std::endl;
+    if(nameToFixedAttribute.find(attribute) != nameToFixedAttribute.end())
         return FixedAttribute();
-    }
     // TODO: check if attribute already exists and if so what data type
     FixedAttribute attr;
     attr.name=attribute;
-- 
2.43.0


From 0db03c6275758279b47d680df1fd170266164f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:52 +0000
Subject: [PATCH 35/86] fix: adding no particles returned an iterator to a
 particle that does not exist

---
 src/lib/core/ParticleSimple.cpp           | 4 ++--
 src/lib/core/ParticleSimpleInterleave.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/core/ParticleSimple.cpp b/src/lib/core/ParticleSimple.cpp
index dc146cf..98a51ea 100644
--- a/src/lib/core/ParticleSimple.cpp
+++ b/src/lib/core/ParticleSimple.cpp
@@ -293,14 +293,14 @@ addParticles(const int countToAdd)
 ParticlesDataMutable::iterator ParticlesSimple::
 setupIterator(const int index)
 {
-    if(numParticles()==0) return ParticlesDataMutable::iterator();
+    if(index>=numParticles()) return ParticlesDataMutable::iterator();
     return ParticlesDataMutable::iterator(this,index,numParticles()-1);
 }
 
 ParticlesData::const_iterator ParticlesSimple::
 setupConstIterator(const int index) const
 {
-    if(numParticles()==0) return ParticlesDataMutable::const_iterator();
+    if(index>=numParticles()) return ParticlesDataMutable::const_iterator();
     return ParticlesData::const_iterator(this,index,numParticles()-1);
 }
 
diff --git a/src/lib/core/ParticleSimpleInterleave.cpp b/src/lib/core/ParticleSimpleInterleave.cpp
index df41c0e..fbafb4c 100644
--- a/src/lib/core/ParticleSimpleInterleave.cpp
+++ b/src/lib/core/ParticleSimpleInterleave.cpp
@@ -291,14 +291,14 @@ addParticles(const int countToAdd)
 ParticlesDataMutable::iterator ParticlesSimpleInterleave::
 setupIterator(const int index)
 {
-    if(numParticles()==0) return ParticlesDataMutable::iterator();
+    if(index>=numParticles()) return ParticlesDataMutable::iterator();
     return ParticlesDataMutable::iterator(this,index,numParticles()-1);
 }
 
 ParticlesData::const_iterator ParticlesSimpleInterleave::
 setupConstIterator(const int index) const
 {
-    if(numParticles()==0) return ParticlesDataMutable::const_iterator();
+    if(index>=numParticles()) return ParticlesDataMutable::const_iterator();
     return ParticlesData::const_iterator(this,index,numParticles()-1);
 }
 
-- 
2.43.0


From 7d268f3b446660b5d131ba336b20ce57352d7992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:59 +0000
Subject: [PATCH 36/86] fix: cloning with a name map that merges two names used
 an attribute that was not added

---
 src/lib/core/Particle.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/core/Particle.cpp b/src/lib/core/Particle.cpp
index b3c81ff..a0b43f4 100644
--- a/src/lib/core/Particle.cpp
+++ b/src/lib/core/Particle.cpp
@@ -115,6 +115,8 @@ clone(const ParticlesData& other, bool particles, const std::map<std::string, st
 
         dstFixedAttr = p->addFixedAttribute(
             getMappedName(srcFixedAttr.name, attrNameMap).c_str(), srcFixedAttr.type, srcFixedAttr.count);
+        // The name is already taken by another attribute
+        if (dstFixedAttr.attributeIndex < 0) continue;
         assert(srcFixedAttr.type == dstFixedAttr.type);
         assert(srcFixedAttr.count == dstFixedAttr.count);
         // Register indexed strings
@@ -145,6 +147,8 @@ clone(const ParticlesData& other, bool particles, const std::map<std::string, st
     for (int i = 0; i < numAttributes; ++i) {
         other.attributeInfo(i, srcAttr);
         dstAttr = p->addAttribute(getMappedName(srcAttr.name, attrNameMap).c_str(), srcAttr.type, srcAttr.count);
+        // The name is already taken by another attribute
+        if (dstAttr.attributeIndex < 0) continue;
         // Register indexed strings
         if (srcAttr.type == Partio::INDEXEDSTR) {
             const std::vector<std::string>& values = other.indexedStrs(srcAttr);
-- 
2.43.0


From 78d3333d6bbcfc7a85b7625943d6be327211bae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:20 +0000
Subject: [PATCH 37/86] fix: cloning a string attribute with repeated strings
 changed its values

---
 src/lib/core/Particle.cpp | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/lib/core/Particle.cpp b/src/lib/core/Particle.cpp
index a0b43f4..f880880 100644
--- a/src/lib/core/Particle.cpp
+++ b/src/lib/core/Particle.cpp
@@ -104,6 +104,15 @@ cloneSchema(const ParticlesData& other, const std::map<std::string, std::string>
     return p;
 }
 
+// Copy indexed string tokens, translating each to the token its string got in the copy
+static void
+copyTokens(int* dst, const int* src, const int count, const std::vector<int>& tokens)
+{
+    for (int i = 0; i < count; ++i) {
+        dst[i] = src[i] >= 0 && src[i] < (int)tokens.size() ? tokens[src[i]] : src[i];
+    }
+}
+
 ParticlesDataMutable*
 clone(const ParticlesData& other, bool particles, const std::map<std::string, std::string>* attrNameMap)
 {
@@ -120,17 +129,22 @@ clone(const ParticlesData& other, bool particles, const std::map<std::string, st
         assert(srcFixedAttr.type == dstFixedAttr.type);
         assert(srcFixedAttr.count == dstFixedAttr.count);
         // Register indexed strings
+        std::vector<int> tokens;
         if (srcFixedAttr.type == Partio::INDEXEDSTR) {
             const std::vector<std::string>& values = other.fixedIndexedStrs(srcFixedAttr);
             for (int j = 0, jend = values.size(); j < jend; ++j) {
-                p->registerFixedIndexedStr(dstFixedAttr, values[j].c_str());
+                tokens.push_back(p->registerFixedIndexedStr(dstFixedAttr, values[j].c_str()));
             }
         }
         // Copy fixed data
         const void* src = other.fixedData<void>(srcFixedAttr);
         void* dst = p->fixedDataWrite<void>(dstFixedAttr);
         size_t size = Partio::TypeSize(dstFixedAttr.type) * dstFixedAttr.count;
-        std::memcpy(dst, src, size);
+        if (srcFixedAttr.type == Partio::INDEXEDSTR) {
+            copyTokens((int*)dst, (const int*)src, srcFixedAttr.count, tokens);
+        } else {
+            std::memcpy(dst, src, size);
+        }
     }
     if (!particles) {
         return p;
@@ -150,10 +164,11 @@ clone(const ParticlesData& other, bool particles, const std::map<std::string, st
         // The name is already taken by another attribute
         if (dstAttr.attributeIndex < 0) continue;
         // Register indexed strings
+        std::vector<int> tokens;
         if (srcAttr.type == Partio::INDEXEDSTR) {
             const std::vector<std::string>& values = other.indexedStrs(srcAttr);
             for (int m = 0, mend = values.size(); m < mend; ++m) {
-                p->registerIndexedStr(dstAttr, values[m].c_str());
+                tokens.push_back(p->registerIndexedStr(dstAttr, values[m].c_str()));
             }
         }
         size_t size = Partio::TypeSize(srcAttr.type) * srcAttr.count;
@@ -161,7 +176,11 @@ clone(const ParticlesData& other, bool particles, const std::map<std::string, st
         for (Partio::ParticleIndex j = 0; j < numParticles; ++j) {
             const void *src = other.data<void>(srcAttr, j);
             void *dst = p->dataWrite<void>(dstAttr, j);
-            std::memcpy(dst, src, size);
+            if (srcAttr.type == Partio::INDEXEDSTR) {
+                copyTokens((int*)dst, (const int*)src, srcAttr.count, tokens);
+            } else {
+                std::memcpy(dst, src, size);
+            }
         }
     }
 
-- 
2.43.0


From 9370d576162fc940c3ef823e7a520f2d2a079361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:41 +0000
Subject: [PATCH 38/86] fix: merging a string attribute the base lacks lost its
 strings

---
 src/lib/core/Particle.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/core/Particle.cpp b/src/lib/core/Particle.cpp
index f880880..3e8217b 100644
--- a/src/lib/core/Particle.cpp
+++ b/src/lib/core/Particle.cpp
@@ -534,6 +534,9 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
         delta.attributeInfo(i, deltaAttr);
         if (!base.attributeInfo(deltaAttr.name.c_str(), baseAttr)) {
             baseAttr = base.addAttribute(deltaAttr.name.c_str(), deltaAttr.type, deltaAttr.count);
+            if (baseAttr.type == INDEXEDSTR) {
+                indexStrAttrs.push_back(attrs.size());
+            }
             attrs.emplace_back(AttributePair<ParticleAttribute>({std::move(baseAttr), std::move(deltaAttr)}));
 
             // Set the attribute to a default value in the base particle set
-- 
2.43.0


From de6b43f0d9c002b90463d788e4ad6915ce1e691e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:43 +0000
Subject: [PATCH 39/86] fix: merging a long attribute the base lacks read
 beyond the default value

---
 src/lib/core/Particle.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/core/Particle.cpp b/src/lib/core/Particle.cpp
index 3e8217b..2ed9b70 100644
--- a/src/lib/core/Particle.cpp
+++ b/src/lib/core/Particle.cpp
@@ -528,7 +528,6 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
     }
 
     // Identify the attributes to be added (in delta, not present in base)
-    double empty[16]{0};
     for (int i=0; i<delta.numAttributes(); ++i) {
         ParticleAttribute baseAttr, deltaAttr;
         delta.attributeInfo(i, deltaAttr);
@@ -540,8 +539,9 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
             attrs.emplace_back(AttributePair<ParticleAttribute>({std::move(baseAttr), std::move(deltaAttr)}));
 
             // Set the attribute to a default value in the base particle set
+            const std::vector<char> empty(TypeSize(baseAttr.type) * baseAttr.count, 0);
             for (int p=0; p<base.numParticles(); ++p) {
-                base.set(baseAttr, p, empty);
+                base.set(baseAttr, p, empty.data());
             }
         }
     }
-- 
2.43.0


From 664e34c467bbb7cf05fb9dbb1f70e3226dc321ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:46 +0000
Subject: [PATCH 40/86] fix: merging attributes of different count or type read
 beyond the values

---
 src/lib/core/Particle.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lib/core/Particle.cpp b/src/lib/core/Particle.cpp
index 2ed9b70..68ac50f 100644
--- a/src/lib/core/Particle.cpp
+++ b/src/lib/core/Particle.cpp
@@ -461,6 +461,15 @@ computeClustering(ParticlesDataMutable* particles, const int numNeighbors,const
     return cluster;;
 }
 
+// Whether the values of one attribute can be stored in the other
+template<typename T>
+bool sameLayout(const T& a, const T& b)
+{
+    const bool aFloat = a.type == FLOAT || a.type == VECTOR;
+    const bool bFloat = b.type == FLOAT || b.type == VECTOR;
+    return a.count == b.count && (a.type == b.type || (aFloat && bFloat));
+}
+
 template<typename T>
 struct AttributePair {
     T base;
@@ -519,7 +528,7 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
     for (int i=0; i<base.numAttributes(); ++i) {
         ParticleAttribute baseAttr, deltaAttr;
         base.attributeInfo(i, baseAttr);
-        if (delta.attributeInfo(baseAttr.name.c_str(), deltaAttr)) {
+        if (delta.attributeInfo(baseAttr.name.c_str(), deltaAttr) && sameLayout(baseAttr, deltaAttr)) {
             if (baseAttr.type == INDEXEDSTR) {
                 indexStrAttrs.push_back(attrs.size());
             }
-- 
2.43.0


From 97e7df53af91948283ae5306de420a587a56f166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:48 +0000
Subject: [PATCH 41/86] fix: merging fixed attributes of different count or
 type read beyond the value

---
 src/lib/core/Particle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/core/Particle.cpp b/src/lib/core/Particle.cpp
index 68ac50f..d1b4a8f 100644
--- a/src/lib/core/Particle.cpp
+++ b/src/lib/core/Particle.cpp
@@ -559,7 +559,7 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
     for (int i=0; i<base.numFixedAttributes(); ++i) {
         FixedAttribute baseAttr, deltaAttr;
         base.fixedAttributeInfo(i, baseAttr);
-        if (delta.fixedAttributeInfo(baseAttr.name.c_str(), deltaAttr)) {
+        if (delta.fixedAttributeInfo(baseAttr.name.c_str(), deltaAttr) && sameLayout(baseAttr, deltaAttr)) {
             const void *src = delta.fixedData<void>(deltaAttr);
             base.setFixed(baseAttr, src);
         }
-- 
2.43.0


From eba42946af5d15020291200856c544c9e9a0acea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:17 +0000
Subject: [PATCH 42/86] fix: merging fixed string attributes lost or mixed up
 their strings

---
 src/lib/core/Particle.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/lib/core/Particle.cpp b/src/lib/core/Particle.cpp
index d1b4a8f..4d2a7d6 100644
--- a/src/lib/core/Particle.cpp
+++ b/src/lib/core/Particle.cpp
@@ -492,6 +492,22 @@ struct IntPairHash {
     }
 };
 
+// Set a fixed attribute from another particle set, translating indexed strings
+static void
+mergeFixed(ParticlesDataMutable& base, const FixedAttribute& baseAttr, const ParticlesData& delta, const FixedAttribute& deltaAttr)
+{
+    const void* src = delta.fixedData<void>(deltaAttr);
+    if (baseAttr.type != INDEXEDSTR) {
+        base.setFixed(baseAttr, src);
+        return;
+    }
+    std::vector<int> tokens;
+    for (const std::string& str : delta.fixedIndexedStrs(deltaAttr)) {
+        tokens.push_back(base.registerFixedIndexedStr(baseAttr, str.c_str()));
+    }
+    copyTokens(base.fixedDataWrite<int>(baseAttr), (const int*)src, baseAttr.count, tokens);
+}
+
 // merge two particle sets.  if no identifiers are specified, the particle sets will be aggregated together.
 // if one or more identifiers are specified, the particle will be overwritten if the identifier(s) match.
 // if the identifier only exists in one particle set, the particle sets will be aggregated together.
@@ -560,8 +576,7 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
         FixedAttribute baseAttr, deltaAttr;
         base.fixedAttributeInfo(i, baseAttr);
         if (delta.fixedAttributeInfo(baseAttr.name.c_str(), deltaAttr) && sameLayout(baseAttr, deltaAttr)) {
-            const void *src = delta.fixedData<void>(deltaAttr);
-            base.setFixed(baseAttr, src);
+            mergeFixed(base, baseAttr, delta, deltaAttr);
         }
     }
 
@@ -571,8 +586,7 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
         delta.fixedAttributeInfo(i, deltaAttr);
         if (!base.fixedAttributeInfo(deltaAttr.name.c_str(), baseAttr)) {
             baseAttr = base.addFixedAttribute(deltaAttr.name.c_str(), deltaAttr.type, deltaAttr.count);
-            const void *src = delta.fixedData<void>(deltaAttr);
-            base.setFixed(baseAttr, src);
+            mergeFixed(base, baseAttr, delta, deltaAttr);
         }
     }
 
-- 
2.43.0


From 71265e6d43039037a8bc7ab8bcc2ba68315905eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:20 +0000
Subject: [PATCH 43/86] fix: merging a particle set with itself never ended

---
 src/lib/core/Particle.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/core/Particle.cpp b/src/lib/core/Particle.cpp
index 4d2a7d6..5786a0e 100644
--- a/src/lib/core/Particle.cpp
+++ b/src/lib/core/Particle.cpp
@@ -627,7 +627,9 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
     bool hasIdentifier = (baseHasIdentifier0 && deltaHasIdentifier0) || (baseHasIdentifier1 && deltaHasIdentifier1);
     // just append if there are mismatched attributes
     hasIdentifier = hasIdentifier && !((baseHasIdentifier0 ^ deltaHasIdentifier0) || (baseHasIdentifier1 ^ deltaHasIdentifier1));
-    for (int i=0; i<delta.numParticles(); ++i) {
+    // the delta may be the base itself
+    const int numDelta = delta.numParticles();
+    for (int i=0; i<numDelta; ++i) {
 
         // Grab index into base particle set - either existing or new
         int index(-1);
-- 
2.43.0


From 610bbd8eba3fe458b6d65a4bac4e49505798623e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:22 +0000
Subject: [PATCH 44/86] fix: particles appended by merge had undefined values
 of attributes only the base has

---
 src/lib/core/Particle.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lib/core/Particle.cpp b/src/lib/core/Particle.cpp
index 5786a0e..8739799 100644
--- a/src/lib/core/Particle.cpp
+++ b/src/lib/core/Particle.cpp
@@ -541,6 +541,7 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
     // Identify the attributes to be copied (base present in delta)
     std::vector<AttributePair<ParticleAttribute>> attrs;
     std::vector<size_t> indexStrAttrs; /* indexes into attrs */
+    std::vector<ParticleAttribute> baseOnlyAttrs;
     for (int i=0; i<base.numAttributes(); ++i) {
         ParticleAttribute baseAttr, deltaAttr;
         base.attributeInfo(i, baseAttr);
@@ -549,6 +550,8 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
                 indexStrAttrs.push_back(attrs.size());
             }
             attrs.emplace_back(AttributePair<ParticleAttribute>({std::move(baseAttr), std::move(deltaAttr)}));
+        } else {
+            baseOnlyAttrs.push_back(baseAttr);
         }
     }
 
@@ -643,6 +646,12 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
         }
         if (index == -1) {
             index = base.addParticle();
+
+            // Set the attributes the delta lacks to a default value
+            for (const ParticleAttribute& attr : baseOnlyAttrs) {
+                const std::vector<char> empty(TypeSize(attr.type) * attr.count, 0);
+                base.set(attr, index, empty.data());
+            }
         }
 
         // Copy the attributes to the new/overridden particle
-- 
2.43.0


From 3ddc57ce29f81fcbea1ca09918f304e14cae8e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:10 +0000
Subject: [PATCH 45/86] fix: findNPoints left the final radius unset when there
 was nothing to search

---
 src/lib/core/KdTree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/core/KdTree.h b/src/lib/core/KdTree.h
index 7b73b86..e4cc052 100644
--- a/src/lib/core/KdTree.h
+++ b/src/lib/core/KdTree.h
@@ -365,7 +365,7 @@ int KdTree<k>::findNPoints(uint64_t *result, float *distanceSquared, float *fina
                            const float p[k],int nPoints,float maxRadius) const
 {
     float radius_squared=maxRadius*maxRadius;
-
+    *finalSearchRadius2=radius_squared;
     if (!size() || !_sorted || nPoints<1) return 0;
 
     NearestQuery query(result,distanceSquared,p,nPoints,radius_squared);
-- 
2.43.0


From b182bd906bf90c6afb4b947962b425526cdf3ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:58 +0000
Subject: [PATCH 46/86] fix: header-only BGEO reads of large files lost the
 detail attributes

---
 src/lib/io/BGEO.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/io/BGEO.cpp b/src/lib/io/BGEO.cpp
index 42ea6f8..6223843 100644
--- a/src/lib/io/BGEO.cpp
+++ b/src/lib/io/BGEO.cpp
@@ -245,7 +245,7 @@ ParticlesDataMutable* readBGEO(const char* filename,const bool headersOnly,std::
     if(!getAttributes(particleSize, attrOffsets, attrHandles, accessors, nPointAttrib, input.get(), simple, headersOnly, errorStream)) return 0;
 
     if(headersOnly) {
-        skip(input.get(),nPoints*particleSize*sizeof(int));
+        skip(input.get(),(size_t)nPoints*particleSize*sizeof(int));
     } else {
         // Read the points
         int *buffer=new int[particleSize];
-- 
2.43.0


From 57ad4373eb4504d5aef28e5240add71ea95a8c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:09 +0000
Subject: [PATCH 47/86] fix: header-only PDB reads left a channel at a
 different place than full reads

---
 src/lib/io/PDB.cpp | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/lib/io/PDB.cpp b/src/lib/io/PDB.cpp
index 388d976..c4b5d96 100644
--- a/src/lib/io/PDB.cpp
+++ b/src/lib/io/PDB.cpp
@@ -130,27 +130,17 @@ template<int bits> ParticlesDataMutable* readPDBHelper(const char* filename,cons
             case PDB_LONG: type=INT;break;
             default: type=NONE;break;
         }
-        int size=header.data_size*channelData.datasize;
+        std::streamsize size=(std::streamsize)header.data_size*channelData.datasize;
 
         // Read data or skip if we haven't found appropriate type handle
         if(type==NONE){
-            char buf[1024];
-            int toSkip=size;
-            while(toSkip>0){
-                input->read(buf,min(toSkip,1024));
-                toSkip-=1024;
-            }
+            input->ignore(size);
             if(errorStream) *errorStream<<"Partio: Attribute '"<<name<<"' cannot map type"<<endl;
         }else{
             int count=channelData.datasize/TypeSize(type);
             ParticleAttribute attrHandle=simple->addAttribute(name.c_str(),type,count);
             if(headersOnly){
-                char buf[1024];
-                int toSkip=size;
-                while(toSkip>0){
-                    input->read(buf,min(toSkip,1024));
-                    toSkip-=1024;
-                }
+                input->ignore(size);
             }else{
                 Partio::ParticlesDataMutable::iterator it=simple->begin();
                 Partio::ParticleAccessor accessor(attrHandle);
@@ -158,6 +148,7 @@ template<int bits> ParticlesDataMutable* readPDBHelper(const char* filename,cons
 
                 for(Partio::ParticlesDataMutable::iterator end=simple->end();it!=end;++it){
                     input->read(accessor.raw<char>(it),sizeof(float)*attrHandle.count);
+                    input->ignore(channelData.datasize-sizeof(float)*attrHandle.count);
                 }
             }
         }
-- 
2.43.0


From 0604417424658fdb8047a40dbd7e55a06b1dfcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:11 +0000
Subject: [PATCH 48/86] fix: header-only PTS reads reported no particles

---
 src/lib/io/PTS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/io/PTS.cpp b/src/lib/io/PTS.cpp
index e5fee03..7b79a6c 100644
--- a/src/lib/io/PTS.cpp
+++ b/src/lib/io/PTS.cpp
@@ -163,7 +163,6 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
 
     unsigned int num=0;
     simple->addParticles(num);
-    if (headersOnly) return simple; // escape before we try to touch data
 
     if (input->good())
     { // garbage count at top of  file
@@ -203,6 +202,7 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
         if (i == valcount)
         {
             simple->addParticle();
+            if (headersOnly) continue; // only count the particles
             for (unsigned int attrIndex=0;attrIndex<attrs.size();attrIndex++)
             {
                 if (attrs[attrIndex].type==Partio::INT )
-- 
2.43.0


From bf0eeba60ed36079de73badbaa16c7153cb7f5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:43 +0000
Subject: [PATCH 49/86] fix: PDC wrote attributes it cannot hold as garbage

---
 src/lib/io/PDC.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/lib/io/PDC.cpp b/src/lib/io/PDC.cpp
index 1fc59c2..18de510 100644
--- a/src/lib/io/PDC.cpp
+++ b/src/lib/io/PDC.cpp
@@ -135,21 +135,29 @@ bool writePDC(const char* filename,const ParticlesData& p,const bool compressed,
     write<BIGEND>(*output, (int)0); // tmp1
     write<BIGEND>(*output, (int)0); // tmp2
     write<BIGEND>(*output, (int)p.numParticles());
-    write<BIGEND>(*output, (int)p.numAttributes());
-
+    // PDC holds real scalars and vectors only
+    vector<ParticleAttribute> attrs;
     for(int attrIndex = 0; attrIndex < p.numAttributes(); attrIndex++){
         ParticleAttribute attr;
         p.attributeInfo(attrIndex,attr);
+        if((attr.type == FLOAT || attr.type == VECTOR) && (attr.count == 1 || attr.count == 3)){
+            attrs.push_back(attr);
+        }
+        else if(errorStream){
+            *errorStream << "Partio: Unable to write data type " << TypeName(attr.type) << "[" << attr.count << "] to a pdc file" << std::endl;
+        }
+    }
+    write<BIGEND>(*output, (int)attrs.size());
+
+    for(unsigned int attrIndex = 0; attrIndex < attrs.size(); attrIndex++){
+        const ParticleAttribute& attr = attrs[attrIndex];
 
         // write attribute name
         write<BIGEND>(*output, (int)attr.name.length());
         output->write(attr.name.c_str(), (int)attr.name.length());
 
         // write type
-        int count = 1; // FLOAT
-        if(attr.type == VECTOR){
-            count = 3;
-        }
+        int count = attr.count; // 1 is a scalar and 3 a vector
         write<BIGEND>(*output, (int)(count+2));
 
         // write data
-- 
2.43.0


From f52a156253ca88dfbf910d38df119f286bab19f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:43 +0000
Subject: [PATCH 50/86] fix: PTC wrote string indices as floats

---
 src/lib/io/PTC.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/io/PTC.cpp b/src/lib/io/PTC.cpp
index bb10e03..90a1b99 100644
--- a/src/lib/io/PTC.cpp
+++ b/src/lib/io/PTC.cpp
@@ -291,17 +291,17 @@ bool writePTC(const char* filename,const ParticlesData& p,const bool compressed,
         ParticleAttribute attr;
         p.attributeInfo(i,attr);
         if(attr.name!="position" && attr.name!="radius" && attr.name!="normal"){
-            if(attr.count==3 && attr.type!=INT){
+            if(attr.count==3 && attr.type!=INT && attr.type!=INDEXEDSTR){
                 attrs.push_back(attr);
                 specs.push_back("color "+attr.name+"\n");
                 dataSize+=attr.count;
                 nVars++;
-            }else if(attr.count==1 && attr.type!=INT){
+            }else if(attr.count==1 && attr.type!=INT && attr.type!=INDEXEDSTR){
                 attrs.push_back(attr);
                 dataSize+=attr.count;
                 nVars++;
                 specs.push_back("float "+attr.name+"\n");
-            }else if(attr.count==16 && attr.type!=INT){
+            }else if(attr.count==16 && attr.type!=INT && attr.type!=INDEXEDSTR){
                 nVars++;
                 attrs.push_back(attr);
                 dataSize+=attr.count;
-- 
2.43.0


From d860dcdfc364ad61689b39d2f4a216e42de7fd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:59 +0000
Subject: [PATCH 51/86] fix: PRT reader took too few bytes of particles whose
 last channel has components

---
 src/lib/io/PRT.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/io/PRT.cpp b/src/lib/io/PRT.cpp
index 480b1cd..fc869be 100644
--- a/src/lib/io/PRT.cpp
+++ b/src/lib/io/PRT.cpp
@@ -220,11 +220,11 @@ ParticlesDataMutable* readPRT(const char* filename,const bool headersOnly,std::o
             ParticleAttribute attrHandle=simple->addAttribute(name.c_str(),type,ch.arity);
             chans.push_back(ch);
             attrs.push_back(attrHandle);
+
+            // The size of the particle is determined from the channel with largest offset. The channels are not required to be listed in order.
+            particleSize = (std::max)( particleSize, ch.offset + sizes[ch.type]*ch.arity );
         }
         
-        // The size of the particle is determined from the channel with largest offset. The channels are not required to be listed in order.
-        particleSize = (std::max)( particleSize, chans.back().offset + sizes[ch.type] );
-        
         // The channel entry might have more data in other PRT versions.
         if ((unsigned)channelsize > sizeof(Channel))
             input->seekg(channelsize - sizeof(Channel), std::ios::cur);
-- 
2.43.0


From 9cfa8b8cc09ff59f863b8ad60ff0638579ce17c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:01 +0000
Subject: [PATCH 52/86] fix: PRT header counted channels the writer leaves out

---
 src/lib/io/PRT.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib/io/PRT.cpp b/src/lib/io/PRT.cpp
index fc869be..2a0c113 100644
--- a/src/lib/io/PRT.cpp
+++ b/src/lib/io/PRT.cpp
@@ -366,7 +366,13 @@ bool writePRT(const char* filename,const ParticlesData& p,const bool /*compresse
         int reserve = 4;
         output->write((char*)&header,sizeof(FileHeadder));
         write<LITEND>(*output, reserve);
-        write<LITEND>(*output, (int)p.numAttributes());
+        int channels = 0;
+        for (int i=0;i<p.numAttributes();i++) {
+            ParticleAttribute attr;
+            p.attributeInfo(i,attr);
+            if (attr.type!=INDEXEDSTR && attr.type!=NONE && attr.count) channels++;
+        }
+        write<LITEND>(*output, channels);
             reserve = 0x2c;
         write<LITEND>(*output, reserve);
 
-- 
2.43.0


From a5a22bc6f5c7d1a99d1797d89230f17f31659558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:03 +0000
Subject: [PATCH 53/86] fix: PRT writer overran the channel name

---
 src/lib/io/PRT.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/io/PRT.cpp b/src/lib/io/PRT.cpp
index 2a0c113..ce8ae46 100644
--- a/src/lib/io/PRT.cpp
+++ b/src/lib/io/PRT.cpp
@@ -383,7 +383,7 @@ bool writePRT(const char* filename,const ParticlesData& p,const bool /*compresse
             p.attributeInfo(i,attr);
             Channel ch;
             memset(&ch, 0, sizeof(Channel));
-                    memcpy((char*)ch.name, attr.name.c_str(), attr.name.size());
+                    memcpy((char*)ch.name, attr.name.c_str(), (std::min)(attr.name.size(), sizeof(ch.name)-1));
             ch.offset = offset;
             switch (attr.type) {
             case FLOAT: ch.type=4; ch.arity=attr.count; offset += sizeof(float)*attr.count; break;
-- 
2.43.0


From a267236c199d03c16032da314a269ecb82d601ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:19 +0000
Subject: [PATCH 54/86] fix: python: check the length of sequences copied into
 a fixed array

---
 src/py/partio.i | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/py/partio.i b/src/py/partio.i
index 0835111..426fc7b 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -124,10 +124,16 @@ public:
         PyErr_SetString(PyExc_TypeError,"Expecting a sequence");
         return NULL;
     }
-    int size=PyObject_Length($input);
-    $1.count=size;
+    Py_ssize_t size=PyObject_Length($input);
+    if(size<0) return NULL;
+    if(size>16){
+        PyErr_SetString(PyExc_ValueError,"Expecting a sequence of at most 16 floats");
+        return NULL;
+    }
+    $1.count=(int)size;
     for(i=0;i<size;i++){
         PyObject* o=PySequence_GetItem($input,i);
+        if(!o) return NULL;
         if(!PyFloat_Check(o)){
             Py_XDECREF(o);
             PyErr_SetString(PyExc_ValueError,"Expecting a sequence of floats");
-- 
2.43.0


From 34a4935b6cf3d061d8f258244dada895f2b7310c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:22 +0000
Subject: [PATCH 55/86] fix: python: findNPoints and findPoints raise when a
 corner is not three floats

---
 src/py/partio.i | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/py/partio.i b/src/py/partio.i
index 426fc7b..0bd6bf8 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -259,7 +259,7 @@ public:
     {
         // make sure we are close
         if(center.count!=3){
-            fprintf(stderr,"Need center to be a 3 tuple of floats\n");
+            PyErr_SetString(PyExc_ValueError,"Need center to be a 3 tuple of floats");
             return NULL;
         }
         // find nearest neighbors
@@ -283,7 +283,7 @@ public:
     {    
         // make sure we are close
         if(bboxMin.count!=3 || bboxMax.count!=3){
-            fprintf(stderr,"Need bboxMin and bboxMax to be a 3 tuple of floats\n");
+            PyErr_SetString(PyExc_ValueError,"Need bboxMin and bboxMax to be a 3 tuple of floats");
             return NULL;
         }
         // find nearest neighbors
-- 
2.43.0


From 8f709731ad933eb7c0fd2da9fa8efeeba75763b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:25 +0000
Subject: [PATCH 56/86] fix: python: findNPoints returns whole particle indices

---
 src/py/partio.i | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py/partio.i b/src/py/partio.i
index 0bd6bf8..fc4a848 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -270,7 +270,7 @@ public:
         // build the python return type
         PyObject* list=PyList_New(points.size());
         for(unsigned int i=0;i<points.size();i++){
-            PyObject* tuple=Py_BuildValue("(if)",points[i],pointDistancesSquared[i]);
+            PyObject* tuple=Py_BuildValue("(Kf)",(unsigned long long)points[i],pointDistancesSquared[i]);
             PyList_SetItem(list,i,tuple); // tuple reference is stolen, so no decref needed
         }
         return list;
-- 
2.43.0


From 1687a3b838a51831adb3ecc8659696069c3f43e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:27 +0000
Subject: [PATCH 57/86] fix: python: get and getFixed raise when there is no
 data

---
 src/py/partio.i | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/py/partio.i b/src/py/partio.i
index fc4a848..2c4f079 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -302,12 +302,26 @@ public:
     %feature("docstring","Gets attribute data for particleIndex'th particle");
     PyObject* get(const ParticleAttribute& attr,const ParticleIndex particleIndex)
     {
+        if(particleIndex>=(ParticleIndex)$self->numParticles()){
+            PyErr_SetString(PyExc_IndexError,"Invalid particle index");
+            return NULL;
+        }
         PyObject* tuple=PyTuple_New(attr.count);
         if(attr.type==Partio::INT || attr.type==Partio::INDEXEDSTR){
             const int* p=$self->data<int>(attr,particleIndex);
+            if(!p){
+                Py_XDECREF(tuple);
+                PyErr_SetString(PyExc_ValueError,"No data for particle");
+                return NULL;
+            }
             for(int k=0;k<attr.count;k++) PyTuple_SetItem(tuple,k,PyInt_FromLong(p[k]));
         }else if(attr.type==Partio::FLOAT || attr.type==Partio::VECTOR){
             const float* p=$self->data<float>(attr,particleIndex);
+            if(!p){
+                Py_XDECREF(tuple);
+                PyErr_SetString(PyExc_ValueError,"No data for particle");
+                return NULL;
+            }
             for(int k=0;k<attr.count;k++) PyTuple_SetItem(tuple,k,PyFloat_FromDouble(p[k]));
         }else{
             Py_XDECREF(tuple);
@@ -324,9 +338,19 @@ public:
         PyObject* tuple=PyTuple_New(attr.count);
         if(attr.type==Partio::INT || attr.type==Partio::INDEXEDSTR){
             const int* p=$self->fixedData<int>(attr);
+            if(!p){
+                Py_XDECREF(tuple);
+                PyErr_SetString(PyExc_ValueError,"No data for fixed attribute");
+                return NULL;
+            }
             for(int k=0;k<attr.count;k++) PyTuple_SetItem(tuple,k,PyInt_FromLong(p[k]));
         }else if(attr.type==Partio::FLOAT || attr.type==Partio::VECTOR){
             const float* p=$self->fixedData<float>(attr);
+            if(!p){
+                Py_XDECREF(tuple);
+                PyErr_SetString(PyExc_ValueError,"No data for fixed attribute");
+                return NULL;
+            }
             for(int k=0;k<attr.count;k++) PyTuple_SetItem(tuple,k,PyFloat_FromDouble(p[k]));
         }else{
             Py_XDECREF(tuple);
-- 
2.43.0


From f5da44182691384927d60869c282beb84c4ed72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:29 +0000
Subject: [PATCH 58/86] fix: python: set and setFixed raise for items that
 cannot be read

---
 src/py/partio.i | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/py/partio.i b/src/py/partio.i
index 2c4f079..0b83fc3 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -403,6 +403,7 @@ public:
             if (p) {
                 for(int i=0;i<size;i++){
                     PyObject* o=PySequence_GetItem(tuple,i);
+                    if(!o) return NULL;
                     if(PyInt_Check(o)){
                         p[i]=PyInt_AsLong(o);
                     }else{
@@ -411,6 +412,7 @@ public:
                         return NULL;
                     }
                     Py_XDECREF(o);
+                    if(PyErr_Occurred()) return NULL;
                 }
             }
         }else if(attr.type==Partio::FLOAT || attr.type==Partio::VECTOR){
@@ -418,6 +420,7 @@ public:
             if (p) {
                 for(int i=0;i<size;i++){
                     PyObject* o=PySequence_GetItem(tuple,i);
+                    if(!o) return NULL;
                     //fprintf(stderr,"checking %d\n",i);
                     if(PyFloat_Check(o)){
                         p[i]=PyFloat_AsDouble(o);
@@ -429,6 +432,7 @@ public:
                         return NULL;
                     }
                     Py_XDECREF(o);
+                    if(PyErr_Occurred()) return NULL;
                 }
             }
         }else{
@@ -459,6 +463,7 @@ public:
             int* p=$self->fixedDataWrite<int>(attr);
             for(int i=0;i<size;i++){
                 PyObject* o=PySequence_GetItem(tuple,i);
+                if(!o) return NULL;
                 if(PyInt_Check(o)){
                     p[i]=PyInt_AsLong(o);
                 }else{
@@ -467,11 +472,13 @@ public:
                     return NULL;
                 }
                 Py_XDECREF(o);
+                if(PyErr_Occurred()) return NULL;
             }
         }else if(attr.type==Partio::FLOAT || attr.type==Partio::VECTOR){
             float* p=$self->fixedDataWrite<float>(attr);
             for(int i=0;i<size;i++){
                 PyObject* o=PySequence_GetItem(tuple,i);
+                if(!o) return NULL;
                 //fprintf(stderr,"checking %d\n",i);
                 if(PyFloat_Check(o)){
                     p[i]=PyFloat_AsDouble(o);
@@ -483,6 +490,7 @@ public:
                     return NULL;
                 }
                 Py_XDECREF(o);
+                if(PyErr_Occurred()) return NULL;
             }
         }else{
             PyErr_SetString(PyExc_ValueError,"Internal error: invalid attribute type");
-- 
2.43.0


From eba5e96c53712b230ce1e2fa38dc394f52197bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:31 +0000
Subject: [PATCH 59/86] fix: python: set and setFixed raise when there is no
 data to write

---
 src/py/partio.i | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/py/partio.i b/src/py/partio.i
index 0b83fc3..9c68890 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -392,6 +392,10 @@ public:
             PyErr_SetString(PyExc_TypeError,"Expecting a sequence");
             return NULL;
         }
+        if(particleIndex>=(uint64_t)$self->numParticles()){
+            PyErr_SetString(PyExc_IndexError,"Invalid particle index");
+            return NULL;
+        }
         int size=PyObject_Length(tuple);
         if(size!=attr.count){
             PyErr_SetString(PyExc_ValueError,"Invalid number of parameters");
@@ -461,6 +465,10 @@ public:
 
         if(attr.type==Partio::INT || attr.type==Partio::INDEXEDSTR){
             int* p=$self->fixedDataWrite<int>(attr);
+            if(!p){
+                PyErr_SetString(PyExc_ValueError,"No data for fixed attribute");
+                return NULL;
+            }
             for(int i=0;i<size;i++){
                 PyObject* o=PySequence_GetItem(tuple,i);
                 if(!o) return NULL;
@@ -476,6 +484,10 @@ public:
             }
         }else if(attr.type==Partio::FLOAT || attr.type==Partio::VECTOR){
             float* p=$self->fixedDataWrite<float>(attr);
+            if(!p){
+                PyErr_SetString(PyExc_ValueError,"No data for fixed attribute");
+                return NULL;
+            }
             for(int i=0;i<size;i++){
                 PyObject* o=PySequence_GetItem(tuple,i);
                 if(!o) return NULL;
-- 
2.43.0


From 57dff1a0ba0a3592ba9af04e1fe0fa6f253141c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:33 +0000
Subject: [PATCH 60/86] fix: python: strings that are not UTF-8 can be returned

---
 src/py/partio.i | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/py/partio.i b/src/py/partio.i
index 9c68890..b79057c 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -43,6 +43,7 @@ OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGES.
 
 %include "std_string.i"
 %include "std_map.i"
+%fragment("SWIG_FromCharPtrAndSize");
 
 %{
 #include <Partio.h>
@@ -366,7 +367,7 @@ public:
     {
         const std::vector<std::string>& indexes=self->indexedStrs(attr);
         PyObject* list=PyList_New(indexes.size());
-        for(size_t k=0;k<indexes.size();k++) PyList_SetItem(list,k,PyString_FromString(indexes[k].c_str()));
+        for(size_t k=0;k<indexes.size();k++) PyList_SetItem(list,k,SWIG_FromCharPtrAndSize(indexes[k].data(),indexes[k].size()));
         return list;
     }
 
@@ -376,7 +377,7 @@ public:
     {
         const std::vector<std::string>& indexes=self->fixedIndexedStrs(attr);
         PyObject* list=PyList_New(indexes.size());
-        for(size_t k=0;k<indexes.size();k++) PyList_SetItem(list,k,PyString_FromString(indexes[k].c_str()));
+        for(size_t k=0;k<indexes.size();k++) PyList_SetItem(list,k,SWIG_FromCharPtrAndSize(indexes[k].data(),indexes[k].size()));
         return list;
     }
 }
@@ -588,7 +589,8 @@ ParticlesDataMutable* read(const char* filename,bool verbose=true,std::ostream&
         PyObject* tuple=PyTuple_New(2);
         PyObject* instance = SWIG_NewPointerObj(SWIG_as_voidptr(ptr), SWIGTYPE_p_ParticlesDataMutable, SWIG_POINTER_OWN);
         PyTuple_SetItem(tuple,0,instance);
-        PyTuple_SetItem(tuple,1,PyString_FromString(ss.str().c_str()));
+        const std::string message=ss.str();
+        PyTuple_SetItem(tuple,1,SWIG_FromCharPtrAndSize(message.data(),message.size()));
         return tuple;
     }
 %}
-- 
2.43.0


From eef98d578259bed2e182cefba46b65d1949ae13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:35 +0000
Subject: [PATCH 61/86] fix: python: an index that is no integer raises

---
 src/py/partio.i | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/py/partio.i b/src/py/partio.i
index b79057c..bfe2c63 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -111,6 +111,7 @@ public:
 
 %typemap(in) uint64_t {
 	$1 = (uint64_t) PyLong_AsLong($input);
+	if(PyErr_Occurred()) SWIG_fail;
 }
 %typemap(out) uint64_t {
 	$result = PyLong_FromLong(
-- 
2.43.0


From 0ae21558cdcc6c0a99b009c0fc28267fb887fa73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:37 +0000
Subject: [PATCH 62/86] fix: python: attributeInfo and fixedAttributeInfo raise
 for an invalid index

---
 src/py/partio.i | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/py/partio.i b/src/py/partio.i
index bfe2c63..12a8a4e 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -547,6 +547,7 @@ public:
     %feature("autodoc");
     %feature("docstring","Returns the attribute handle by index");
     %newobject attributeInfo;
+    %exception attributeInfo(const int) { $action if(PyErr_Occurred()) SWIG_fail; }
     ParticleAttribute* attributeInfo(const int index)
     {
         if(index<0 || index>=$self->numAttributes()){
@@ -562,6 +563,7 @@ public:
     %feature("autodoc");
     %feature("docstring","Returns the fixed attribute handle by index");
     %newobject fixedAttributeInfo;
+    %exception fixedAttributeInfo(const int) { $action if(PyErr_Occurred()) SWIG_fail; }
     FixedAttribute* fixedAttributeInfo(const int index)
     {
         if(index<0 || index>=$self->numFixedAttributes()){
-- 
2.43.0


From c661790eaba28c42e10b87c793d13674a3ed3cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:39 +0000
Subject: [PATCH 63/86] fix: python: attrNameMap keeps bytes values, and its
 conversions are checked

---
 src/py/partio.i | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/py/partio.i b/src/py/partio.i
index 12a8a4e..2ace200 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -670,15 +670,23 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
             std::string key_str;
             if (PyBytes_Check(key))
                 key_str = PyBytes_AsString(key);
-            else if (PyUnicode_Check(key))
-                key_str = PyBytes_AsString(PyUnicode_AsUTF8String(key));
+            else if (PyUnicode_Check(key)) {
+                PyObject *bytes = PyUnicode_AsUTF8String(key);
+                if (!bytes) SWIG_fail;
+                key_str = PyBytes_AsString(bytes);
+                Py_DECREF(bytes);
+            }
             if (key_str.empty())
                 continue;
             std::string value_str;
             if (PyBytes_Check(value))
-                key_str = PyBytes_AsString(value);
-            else if (PyUnicode_Check(value))
-                value_str = PyBytes_AsString(PyUnicode_AsUTF8String(value));
+                value_str = PyBytes_AsString(value);
+            else if (PyUnicode_Check(value)) {
+                PyObject *bytes = PyUnicode_AsUTF8String(value);
+                if (!bytes) SWIG_fail;
+                value_str = PyBytes_AsString(bytes);
+                Py_DECREF(bytes);
+            }
             temp[std::move(key_str)] = std::move(value_str);
         }
         $1 = &temp;
-- 
2.43.0


From d0a58606dbbc1f983860a224489a6f856f127231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:00 +0000
Subject: [PATCH 64/86] fix: PTS: parse numbers in the classic locale

---
 src/lib/io/PTS.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/io/PTS.cpp b/src/lib/io/PTS.cpp
index 7b79a6c..0347d8c 100644
--- a/src/lib/io/PTS.cpp
+++ b/src/lib/io/PTS.cpp
@@ -193,6 +193,7 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
         while (ss >> token)
         {
             stringstream foo(token);
+            foo.imbue(std::locale::classic());
             float x;
             foo >> x;
 			lineData[i] = x;
-- 
2.43.0


From 7afaddebc9631606c80fa9109b4bba5053ede1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:01 +0000
Subject: [PATCH 65/86] fix: PTC: number repeated attributes in the classic
 locale

---
 src/lib/io/PTC.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/io/PTC.cpp b/src/lib/io/PTC.cpp
index 90a1b99..c5537bd 100644
--- a/src/lib/io/PTC.cpp
+++ b/src/lib/io/PTC.cpp
@@ -169,6 +169,7 @@ ParticlesDataMutable* readPTC(const char* filename,const bool headersOnly,std::o
         ParticleAttribute info;
         while(simple->attributeInfo(effectiveName.c_str(),info)){
             ostringstream ss;
+            ss.imbue(std::locale::classic());
             ss<<name<<unique++;
             effectiveName=ss.str();
         }
-- 
2.43.0


From 75edd98e07c87748f49778e59571538163a2b20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:16 +0000
Subject: [PATCH 66/86] fix: PTS reader stays inside its buffer on lines of
 more than 8 columns

---
 src/lib/io/PTS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/io/PTS.cpp b/src/lib/io/PTS.cpp
index 0347d8c..d512928 100644
--- a/src/lib/io/PTS.cpp
+++ b/src/lib/io/PTS.cpp
@@ -196,7 +196,7 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
             foo.imbue(std::locale::classic());
             float x;
             foo >> x;
-			lineData[i] = x;
+			if (i < 8) lineData[i] = x; // a longer line does not conform
             i++;
         }
 
-- 
2.43.0


From eaf8a1cc33a11b2c613337de669eeb0284872eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:17 +0000
Subject: [PATCH 67/86] fix: PTS reader takes the colour from the last three
 columns

---
 src/lib/io/PTS.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lib/io/PTS.cpp b/src/lib/io/PTS.cpp
index d512928..cf050f7 100644
--- a/src/lib/io/PTS.cpp
+++ b/src/lib/io/PTS.cpp
@@ -227,9 +227,10 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
 					if (attrs[attrIndex].name == "pointColor")
 					{
 						// 8 bit color  conversion
-						data[0]=lineData[4]/255;
-						data[1]=lineData[5]/255;
-						data[2]=lineData[6]/255;
+						// the last three columns, whichever others there are
+						data[0]=lineData[valcount-3]/255;
+						data[1]=lineData[valcount-2]/255;
+						data[2]=lineData[valcount-1]/255;
 					}
 					else if (attrs[attrIndex].name == "position")
 					{
-- 
2.43.0


From 836bf218d7dbb3a5bb01383c536e073a17b62d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:19 +0000
Subject: [PATCH 68/86] fix: GEO reader does not overrun a buffer on strings
 longer than 4095 characters

---
 src/lib/io/GEO.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/lib/io/GEO.cpp b/src/lib/io/GEO.cpp
index 0d835c9..e38037b 100644
--- a/src/lib/io/GEO.cpp
+++ b/src/lib/io/GEO.cpp
@@ -65,10 +65,8 @@ void writeString(std::ostream& output,const char* s){
 
 string scanString(istream& input)
 {
-    // TODO: this code does not check for buf overrun
     // TODO: this code doesn't properly check for FEOF condition
-    char buf[4096];
-    char *ptr=buf;
+    string buf;
     char c;
     while(input.good()){
         input.get(c);
@@ -78,7 +76,7 @@ string scanString(istream& input)
 
     if(c!='"'){
         while(input.good()){
-            *ptr++=c;
+            buf+=c;
             input.get(c);
             if(isspace(c)) break;
         }
@@ -87,16 +85,15 @@ string scanString(istream& input)
             input.get(c);
             if(c=='\\'){
                 input.get(c);
-                *ptr++=c;
+                buf+=c;
             }else if(c=='"'){
                 break;
             }else{
-                *ptr++=c;
+                buf+=c;
             }
         }
     }
-    *ptr++=0;
-    return string(buf);
+    return buf;
 }
 
 ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::ostream* errorStream)
-- 
2.43.0


From b0c628a079bea733e7a6107ffa56b9fba7757d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:32 +0000
Subject: [PATCH 69/86] fix: PRT reader does not read past a channel name that
 fills its field

---
 src/lib/io/PRT.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/io/PRT.cpp b/src/lib/io/PRT.cpp
index ce8ae46..9c65678 100644
--- a/src/lib/io/PRT.cpp
+++ b/src/lib/io/PRT.cpp
@@ -216,7 +216,7 @@ ParticlesDataMutable* readPRT(const char* filename,const bool headersOnly,std::o
                 ch.name[0] += 0x20;
             }
 #endif
-            std::string name((char*)ch.name);
+            std::string name((char*)ch.name, strnlen((char*)ch.name, sizeof(ch.name))); // may fill all of it
             ParticleAttribute attrHandle=simple->addAttribute(name.c_str(),type,ch.arity);
             chans.push_back(ch);
             attrs.push_back(attrHandle);
-- 
2.43.0


From 960672d1f28fb4f0296516b87f830c083b94938f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:45 +0000
Subject: [PATCH 70/86] fix: PRT reader rejects a channel whose extent does not
 fit, which made the particle buffer too small

---
 src/lib/io/PRT.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lib/io/PRT.cpp b/src/lib/io/PRT.cpp
index 9c65678..20d8e66 100644
--- a/src/lib/io/PRT.cpp
+++ b/src/lib/io/PRT.cpp
@@ -39,6 +39,7 @@ Modifications from: github user: redpawfx (redpawFX@gmail.com)  and Luma Picture
 
 */
 #include <iostream>
+#include <limits>
 #ifndef PARTIO_WIN32
 #ifdef PARTIO_USE_ZLIB
 #include "../Partio.h"
@@ -211,6 +212,12 @@ ParticlesDataMutable* readPRT(const char* filename,const bool headersOnly,std::o
             break;
         }
         if (type != NONE) {
+            const unsigned long long channelEnd = ch.offset + (unsigned long long)sizes[ch.type]*ch.arity;
+            if (channelEnd > (unsigned long long)std::numeric_limits<int>::max()) {
+                if(errorStream) *errorStream<<"Partio: channel out of range in "<<filename<<std::endl;
+                simple->release();
+                return 0;
+            }
 #ifdef AUTO_CASES
             if (ch.name[0] >= 'A' && ch.name[0] <= 'Z') {
                 ch.name[0] += 0x20;
@@ -222,7 +229,7 @@ ParticlesDataMutable* readPRT(const char* filename,const bool headersOnly,std::o
             attrs.push_back(attrHandle);
 
             // The size of the particle is determined from the channel with largest offset. The channels are not required to be listed in order.
-            particleSize = (std::max)( particleSize, ch.offset + sizes[ch.type]*ch.arity );
+            particleSize = (std::max)( particleSize, (unsigned)channelEnd );
         }
         
         // The channel entry might have more data in other PRT versions.
-- 
2.43.0


From 8fc820a5be6d67779812a54331ae840894d9d575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:46 +0000
Subject: [PATCH 71/86] fix: MC reader does not read past a tag that fills its
 buffer

---
 src/lib/io/MC.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/io/MC.cpp b/src/lib/io/MC.cpp
index a6f11cf..b0ea390 100644
--- a/src/lib/io/MC.cpp
+++ b/src/lib/io/MC.cpp
@@ -52,7 +52,7 @@ using namespace std;
 std::string GetString(std::istream& input, unsigned int size){
     char* tmp = new char [size];
     input.read(tmp, size);
-    std::string result(tmp);
+    std::string result(tmp, strnlen(tmp, size));
 
     // fix read tag error (ex: DBLA --> DBLAi, why !!)
     if(result.size() > size){
-- 
2.43.0


From 88d7c26f8995e2370b2a15e193f4d30596273338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:19 +0000
Subject: [PATCH 72/86] fix: BGEO reader rejects an attribute it cannot add
 instead of using an invalid handle

---
 src/lib/io/BGEO.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/lib/io/BGEO.cpp b/src/lib/io/BGEO.cpp
index 6223843..534b441 100644
--- a/src/lib/io/BGEO.cpp
+++ b/src/lib/io/BGEO.cpp
@@ -53,18 +53,21 @@ struct Helper
 {
     T addAttribute(ParticlesDataMutable* simple, const char* name, ParticleAttributeType type, int size);
     int registerIndexedStr(const T& attribute,const char* str);
+    bool valid(const T& attribute);
 };
 template<>
 struct Helper<ParticleAttribute>
 {
     ParticleAttribute addAttribute(ParticlesDataMutable* simple, const char* name, ParticleAttributeType type, int size) {return simple->addAttribute(name,type,size);}
     int registerIndexedStr(ParticlesDataMutable* simple, const ParticleAttribute& attribute,const char* str) {return simple->registerIndexedStr(attribute,str);}
+    bool valid(const ParticleAttribute& attribute) {return attribute.attributeIndex>=0;}
 };
 template<>
 struct Helper<FixedAttribute>
 {
     FixedAttribute addAttribute(ParticlesDataMutable* simple, const char* name, ParticleAttributeType type, int size) {return simple->addFixedAttribute(name,type,size);}
     int registerIndexedStr(ParticlesDataMutable* simple, const FixedAttribute& attribute,const char* str) {return simple->registerFixedIndexedStr(attribute,str);}
+    bool valid(const FixedAttribute& attribute) {return attribute.attributeIndex>=0;}
 };
 
 class DummyAttribute {};
@@ -73,6 +76,7 @@ struct Helper<DummyAttribute>
 {
     DummyAttribute addAttribute(ParticlesDataMutable* simple, const char* name, ParticleAttributeType type, int size) { return DummyAttribute(); }
     int registerIndexedStr(ParticlesDataMutable* simple, const DummyAttribute& attribute,const char* str) { return 0; }
+    bool valid(const DummyAttribute& attribute) { return true; }
 };
 struct DummyAccessor{
     template<class T>
@@ -101,12 +105,25 @@ bool getAttributes(int& particleSize, vector<int>& attrOffsets, vector<TAttribut
             if(houdiniType==0) type=FLOAT;
             else if(houdiniType==1) type=INT;
             else if(houdiniType==5) type=VECTOR;
-            attrHandles.push_back(helper.addAttribute(simple,name,type,size));
+            TAttribute attribute=helper.addAttribute(simple,name,type,size);
+            if(!helper.valid(attribute)){
+                if(errorStream) *errorStream <<"Partio: attribute '"<<name<<"' cannot be added, is it defined twice?"<<endl;
+                delete [] name;
+                if(simple) simple->release();
+                return 0;
+            }
+            attrHandles.push_back(attribute);
             accessors.push_back(TAccessor(attrHandles.back()));
             attrOffsets.push_back(particleSize);
             particleSize+=size;
         }else if(houdiniType==4){
             TAttribute attribute=helper.addAttribute(simple,name,INDEXEDSTR,size);
+            if(!helper.valid(attribute)){
+                if(errorStream) *errorStream <<"Partio: attribute '"<<name<<"' cannot be added, is it defined twice?"<<endl;
+                delete [] name;
+                if(simple) simple->release();
+                return 0;
+            }
             attrHandles.push_back(attribute);
             accessors.push_back(TAccessor(attrHandles.back()));
             attrOffsets.push_back(particleSize);
-- 
2.43.0


From b34d001e93836291a8643b1d1abe8894db4eed5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:20 +0000
Subject: [PATCH 73/86] fix: GEO reader rejects an attribute it cannot add
 instead of using an invalid handle

---
 src/lib/io/GEO.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/lib/io/GEO.cpp b/src/lib/io/GEO.cpp
index e38037b..e569d15 100644
--- a/src/lib/io/GEO.cpp
+++ b/src/lib/io/GEO.cpp
@@ -138,6 +138,11 @@ ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::o
             int nIndices=0;
             *input>>nIndices;
             ParticleAttribute attribute=simple->addAttribute(attrName.c_str(),INDEXEDSTR,1);
+            if(attribute.attributeIndex<0){
+                if(errorStream) *errorStream<<"Partio: attribute '"<<attrName<<"' cannot be added, is it defined twice?"<<endl;
+                simple->release();
+                return 0;
+            }
             attrs.push_back(attribute);
             for(int j=0;j<nIndices;j++){
                 string indexName;
@@ -167,7 +172,13 @@ ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::o
                 if(errorStream) *errorStream<<"Partio: unknown attribute "<<attrType<<" type... aborting"<<endl;
                 type=NONE;
             }
-            attrs.push_back(simple->addAttribute(attrName.c_str(),type,nvals));
+            ParticleAttribute attribute=simple->addAttribute(attrName.c_str(),type,nvals);
+            if(attribute.attributeIndex<0){
+                if(errorStream) *errorStream<<"Partio: attribute '"<<attrName<<"' cannot be added, is it defined twice?"<<endl;
+                simple->release();
+                return 0;
+            }
+            attrs.push_back(attribute);
             accessors.push_back(ParticleAccessor(attrs.back()));
             attrInfoRead++;
         }
-- 
2.43.0


From 8f58e5c027703c16935e5f4eb1d70dcf997004ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:21 +0000
Subject: [PATCH 74/86] fix: PDB reader rejects an attribute it cannot add
 instead of using an invalid handle

---
 src/lib/io/PDB.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/io/PDB.cpp b/src/lib/io/PDB.cpp
index c4b5d96..c105a3a 100644
--- a/src/lib/io/PDB.cpp
+++ b/src/lib/io/PDB.cpp
@@ -139,6 +139,11 @@ template<int bits> ParticlesDataMutable* readPDBHelper(const char* filename,cons
         }else{
             int count=channelData.datasize/TypeSize(type);
             ParticleAttribute attrHandle=simple->addAttribute(name.c_str(),type,count);
+            if(attrHandle.attributeIndex<0){
+                if(errorStream) *errorStream<<"Partio: Attribute '"<<name<<"' cannot be added, is it defined twice?"<<endl;
+                simple->release();
+                return 0;
+            }
             if(headersOnly){
                 input->ignore(size);
             }else{
-- 
2.43.0


From 07e38b0bedae4966d34f8fa69400c09caf4c4404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:23 +0000
Subject: [PATCH 75/86] fix: computeClustering copes with skipped attributes
 and an input attribute named clusterId

---
 src/lib/core/Particle.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/core/Particle.cpp b/src/lib/core/Particle.cpp
index 8739799..b4e1d00 100644
--- a/src/lib/core/Particle.cpp
+++ b/src/lib/core/Particle.cpp
@@ -372,8 +372,9 @@ computeClustering(ParticlesDataMutable* particles, const int numNeighbors,const
         ParticleAttribute attr;
         if (particles->attributeInfo(i,attr)) {
             if (attr.type == Partio::NONE) continue;
+            if (attr.name == "clusterId") continue; // computed below
             attributes.push_back(attr);
-            clusterAttributes.push_back(cluster->addAttribute(attributes[i].name.c_str(),attributes[i].type,attributes[i].count));
+            clusterAttributes.push_back(cluster->addAttribute(attr.name.c_str(),attr.type,attr.count));
             if (attr.type == Partio::INDEXEDSTR) {
                 const std::vector<std::string>& strings = particles->indexedStrs(attr);
                 for (size_t j=0; j<strings.size(); j++) {
-- 
2.43.0


From 477fed49c79b2db1480b5fb0f2b9ef70b37a5038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:46 +0000
Subject: [PATCH 76/86] fix: partattr reports an attribute that is not there
 instead of using an invalid handle

---
 src/tools/partattr.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tools/partattr.cpp b/src/tools/partattr.cpp
index b8997f6..f8eac66 100644
--- a/src/tools/partattr.cpp
+++ b/src/tools/partattr.cpp
@@ -56,7 +56,11 @@ int main(int argc,char *argv[])
     }
 
     Partio::ParticleAttribute attrhandle;
-    p->attributeInfo(attrName.c_str(), attrhandle);
+    if (!p->attributeInfo(attrName.c_str(), attrhandle)) {
+        std::cerr << "No attribute " << attrName << " in " << argv[1] << std::endl;
+        p->release();
+        return 1;
+    }
     maxParticles = std::min(maxParticles, p->numParticles());
 
     if (attrhandle.type == Partio::INT) {
-- 
2.43.0


From 4230d83492082cf23ed7fabbddc1b1640998ca0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:46 +0000
Subject: [PATCH 77/86] fix: partattr does not read past the string table on an
 unregistered token

---
 src/tools/partattr.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools/partattr.cpp b/src/tools/partattr.cpp
index f8eac66..aba6d71 100644
--- a/src/tools/partattr.cpp
+++ b/src/tools/partattr.cpp
@@ -73,7 +73,9 @@ int main(int argc,char *argv[])
         const std::vector<std::string>& indexedStrs = p->indexedStrs(attrhandle);
         for(int i = 0; i < std::min(maxParticles, p->numParticles());i++){
             const int index = p->data<int>(attrhandle,i)[0];
-            std::cout << attrName << "[" << i << "]='" << indexedStrs[index]<<"'\n";
+            std::cout << attrName << "[" << i << "]=";
+            if (index >= 0 && index < (int)indexedStrs.size()) std::cout << "'" << indexedStrs[index] << "'\n";
+            else std::cout << index << "=<out-of-bounds>\n";
        }
     }
     else {
-- 
2.43.0


From e49b044ec7390132666ac6ea25fb62fcec59de6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:47 +0000
Subject: [PATCH 78/86] fix: partinfo does not read a null file name when only
 flags are given

---
 src/tools/partinfo.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tools/partinfo.cpp b/src/tools/partinfo.cpp
index ee667c1..7a4d002 100644
--- a/src/tools/partinfo.cpp
+++ b/src/tools/partinfo.cpp
@@ -111,6 +111,10 @@ int main(int argc, char* argv[])
             particleIndices.insert(atoi(argv[i]));
         }
     }
+    if (!filename) {
+        help();
+        return 1;
+    }
     Partio::ParticlesDataMutable* p = Partio::read(filename);
     if (!p) {
         std::cerr << "Unable to read \"" << filename << "\"\n";
-- 
2.43.0


From cd2513b6cdf536fbada166e6633b87a6f31686f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:48 +0000
Subject: [PATCH 79/86] fix: partconvert fails when its input cannot be read

---
 src/tools/partconvert.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/tools/partconvert.cpp b/src/tools/partconvert.cpp
index 6bf50a3..c50ff12 100644
--- a/src/tools/partconvert.cpp
+++ b/src/tools/partconvert.cpp
@@ -42,11 +42,13 @@ int main(int argc,char *argv[])
         return 1;
     }
     Partio::ParticlesData* p=Partio::read(argv[1]);
-    if(p){
-        Partio::print(p);
-        Partio::write(argv[2],*p);
-        p->release();
+    if(!p){
+        std::cerr<<"Unable to read "<<argv[1]<<std::endl;
+        return 1;
     }
-    
+    Partio::print(p);
+    Partio::write(argv[2],*p);
+    p->release();
+
     return 0;
 }
-- 
2.43.0


From 19ca53400907894d80e0f5cd01dca894b0c62522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:03 +0000
Subject: [PATCH 80/86] fix: GEO writer refuses a position of fewer than 3
 components instead of reading past it

---
 src/lib/io/GEO.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/io/GEO.cpp b/src/lib/io/GEO.cpp
index e569d15..07cc6ca 100644
--- a/src/lib/io/GEO.cpp
+++ b/src/lib/io/GEO.cpp
@@ -290,6 +290,10 @@ bool writeGEO(const char* filename,const ParticlesData& p,const bool compressed,
         if(errorStream) *errorStream<<"Partio: didn't find attr 'position' while trying to write GEO"<<endl;
         return false;
     }
+    if(positionHandle.count<3){
+        if(errorStream) *errorStream<<"Partio: attr 'position' has fewer than 3 components, cannot write GEO"<<endl;
+        return false;
+    }
 
     ParticlesData::const_iterator iterator=p.begin();
     iterator.addAccessor(positionAccessor);
-- 
2.43.0


From e104dcfb142df0c0cdf8fcef12d28db42e065b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:04 +0000
Subject: [PATCH 81/86] fix: PTC writer does not read past a position or normal
 of fewer than 3 components

---
 src/lib/io/PTC.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib/io/PTC.cpp b/src/lib/io/PTC.cpp
index c5537bd..9a4576a 100644
--- a/src/lib/io/PTC.cpp
+++ b/src/lib/io/PTC.cpp
@@ -255,7 +255,12 @@ bool writePTC(const char* filename,const ParticlesData& p,const bool compressed,
         if(errorStream) *errorStream <<"Partio: failed to find attr 'position' for PTC output"<<endl;
         return false;
     }
-    if(!foundNormal) if(errorStream) *errorStream <<"Partio: failed to find attr 'normal' for PTC output, using 0,0,0"<<endl;
+    if(positionHandle.count<3){
+        if(errorStream) *errorStream <<"Partio: attr 'position' has fewer than 3 components, cannot write PTC"<<endl;
+        return false;
+    }
+    if(foundNormal && normalHandle.count<3) foundNormal=false;
+    if(!foundNormal) if(errorStream) *errorStream <<"Partio: failed to find attr 'normal' with 3 components for PTC output, using 0,0,0"<<endl;
     if(!foundRadius) if(errorStream) *errorStream <<"Partio: failed to find attr 'radius' for PTC output, using 1"<<endl;
 
     // compute bounding box
-- 
2.43.0


From b4a7d2eefeb9b38996e70325a7b1238f3caeb109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:15 +0000
Subject: [PATCH 82/86] fix: BIN writer does not read past a vector attribute
 of fewer than 3 components

---
 src/lib/io/BIN.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lib/io/BIN.cpp b/src/lib/io/BIN.cpp
index f85eed7..b749103 100644
--- a/src/lib/io/BIN.cpp
+++ b/src/lib/io/BIN.cpp
@@ -366,7 +366,7 @@ bool writeBIN(const char* filename,const ParticlesData& p,const bool /*compresse
             p.attributeInfo(attrIndex,attr);
 
             //cout << attr.name << endl;
-            if (attr.name ==  "position")
+            if (attr.name == "position" && attr.count >= 3)
             {
                 const float* data = p.data<float>(attr, particles);
                 position[0] = data[0];
@@ -374,28 +374,28 @@ bool writeBIN(const char* filename,const ParticlesData& p,const bool /*compresse
                 position[2] = data[2];
             }
 
-            else if (attr.name == "velocity")
+            else if (attr.name == "velocity" && attr.count >= 3)
             {
                 const float* data = p.data<float>(attr, particles);
                 velocity[0] = data[0];
                 velocity[1] = data[1];
                 velocity[2] = data[2];
             }
-            else if (attr.name == "force")
+            else if (attr.name == "force" && attr.count >= 3)
             {
                 const float* data = p.data<float>(attr, particles);
                 force[0] = data[0];
                 force[1] = data[1];
                 force[2] = data[2];
             }
-            else if (attr.name == "vorticity")
+            else if (attr.name == "vorticity" && attr.count >= 3)
             {
                 const float* data = p.data<float>(attr, particles);
                 vorticity[0] = data[0];
                 vorticity[1] = data[1];
                 vorticity[2] = data[2];
             }
-            else if (attr.name == "normal")
+            else if (attr.name == "normal" && attr.count >= 3)
             {
                 const float* data = p.data<float>(attr, particles);
                 normal[0] = data[0];
@@ -407,7 +407,7 @@ bool writeBIN(const char* filename,const ParticlesData& p,const bool /*compresse
                 const int* data = p.data<int>(attr, particles);
                 neighbors= data[0];
             }
-            else if (attr.name == "uvw")
+            else if (attr.name == "uvw" && attr.count >= 3)
             {
                 const float* data = p.data<float>(attr, particles);
                 uvw[0] = data[0];
-- 
2.43.0


From 6a4b066f6bc5ed1e5ece8091c01c80e9ac303b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:04 +0000
Subject: [PATCH 83/86] fix: GEO reader reads the points of a file without
 point attributes

---
 src/lib/io/GEO.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/io/GEO.cpp b/src/lib/io/GEO.cpp
index 07cc6ca..202562e 100644
--- a/src/lib/io/GEO.cpp
+++ b/src/lib/io/GEO.cpp
@@ -116,8 +116,9 @@ ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::o
         if(word=="NPoints") *input>>NPoints;
         else if(word=="NPointAttrib"){*input>>NPointAttrib;break;}
     }
-    // skip until PointAttrib
-    while(input->good()){
+    // skip until PointAttrib, which is left out when there are no attributes besides the position
+    if(NPointAttrib==0) getline(*input,word);
+    else while(input->good()){
         *input>>word;
         if(word=="PointAttrib") break;
     }
@@ -199,6 +200,7 @@ ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::o
         float* posInternal=positionAccessor.raw<float>(iterator); 
         for(int i=0;i<3;i++) *input>>posInternal[i];
         *input>>fval;
+        if(attrs.empty()) continue;
         //cout<<"saw "<<posInternal[0]<<" "<<posInternal[1]<<" "<<posInternal[2]<<endl;
         
         // skip open paren
-- 
2.43.0


From 70ffdd50d3f3a9c5c9076b693c1465de1fe9257b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:06 +0000
Subject: [PATCH 84/86] fix: GEO reader keeps the component count of string
 attributes

---
 src/lib/io/GEO.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/io/GEO.cpp b/src/lib/io/GEO.cpp
index 202562e..e3ea793 100644
--- a/src/lib/io/GEO.cpp
+++ b/src/lib/io/GEO.cpp
@@ -138,7 +138,7 @@ ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::o
             if(errorStream) *errorStream<<"Partio: attr '"<<attrName<<"' of type index (string) found, treating as integer"<<endl;
             int nIndices=0;
             *input>>nIndices;
-            ParticleAttribute attribute=simple->addAttribute(attrName.c_str(),INDEXEDSTR,1);
+            ParticleAttribute attribute=simple->addAttribute(attrName.c_str(),INDEXEDSTR,nvals);
             if(attribute.attributeIndex<0){
                 if(errorStream) *errorStream<<"Partio: attribute '"<<attrName<<"' cannot be added, is it defined twice?"<<endl;
                 simple->release();
-- 
2.43.0


From edf0b573bcc1fc26b0a844927ce469074670829d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:07 +0000
Subject: [PATCH 85/86] fix: PDA writer leaves out attributes whose component
 count the format cannot hold instead of shifting all values

---
 src/lib/io/PDA.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/lib/io/PDA.cpp b/src/lib/io/PDA.cpp
index 2fd2bf4..4537919 100644
--- a/src/lib/io/PDA.cpp
+++ b/src/lib/io/PDA.cpp
@@ -154,15 +154,20 @@ bool writePDA(const char* filename,const ParticlesData& p,const bool compressed,
 
     vector<ParticleAttribute> attrs;
     for (int aIndex=0;aIndex<p.numAttributes();aIndex++){
-        attrs.push_back(ParticleAttribute());
-        p.attributeInfo(aIndex,attrs[aIndex]);
-        *output<<" "<<attrs[aIndex].name;
+        ParticleAttribute attr;
+        p.attributeInfo(aIndex,attr);
+        // the type letters imply the number of components
+        if(attr.count!=(attr.type==VECTOR ? 3 : 1)){
+            if(errorStream) *errorStream<<"Partio: Unable to write "<<attr.name<<" of type "<<TypeName(attr.type)<<"["<<attr.count<<"] to a pda file"<<endl;
+            continue;
+        }
+        attrs.push_back(attr);
+        *output<<" "<<attr.name;
     }
     *output<<endl;
 
-    // TODO: assert right count
     *output<<"TYPES"<<endl;
-    for (int aIndex=0;aIndex<p.numAttributes();aIndex++){
+    for (size_t aIndex=0;aIndex<attrs.size();aIndex++){
         switch(attrs[aIndex].type){
             case FLOAT: *output<<" R";break;
             case VECTOR: *output<<" V";break;
-- 
2.43.0


From 154e16f16f3f31bce4b2344925351c4899dab6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:14 +0000
Subject: [PATCH 86/86] fix: a file that fails to read no longer deadlocks the
 cache

---
 src/lib/core/ParticleCaching.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/core/ParticleCaching.cpp b/src/lib/core/ParticleCaching.cpp
index 25a5a6c..d6ae371 100644
--- a/src/lib/core/ParticleCaching.cpp
+++ b/src/lib/core/ParticleCaching.cpp
@@ -34,7 +34,7 @@ OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGES.
 */
 #include <iostream>
 #include <cassert>
-#include "Mutex.h"
+#include <mutex>
 #include "../Partio.h"
 
 //#####################################################################
@@ -42,7 +42,9 @@ namespace Partio{
 
 namespace
 {
-    static PartioMutex mutex;
+    // recursive because readers that fail release() their particle set, which
+    // comes back here through freeCached() while readCached() holds the lock
+    static std::recursive_mutex mutex;
 }
     
 // cached read write
-- 
2.43.0

