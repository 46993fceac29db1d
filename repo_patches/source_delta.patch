From 1b048d9725fa24179c9d96f6e77ce6efbb987918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:39 +0000
Subject: [PATCH 01/64] fix: loading a compressed grid wave function lost its
 data to FFT planning

WFGridSystem::Restore copied the stored k-space data before the transform was
planned. Planning overwrites the k-space buffer, so in a process that had no
wisdom for the grid the loaded wave function was all zeros. A transform planned
for a different grid was reused as well.
---
 src/qdlib/WFGridSystem.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/qdlib/WFGridSystem.cpp b/src/qdlib/WFGridSystem.cpp
index 58e999d..5fa4561 100644
--- a/src/qdlib/WFGridSystem.cpp
+++ b/src/qdlib/WFGridSystem.cpp
@@ -125,12 +125,21 @@ namespace QDLIB {
    {
       WFGridSystem* psi = dynamic_cast<WFGridSystem*>(Psi);
 
-      // Copy
-      IsKspace(true);
+      // A transform planned for another grid can't be reused
+      if (_fft != NULL && *((GridSystem*) this) != *((GridSystem*) psi)){
+         delete _fft;
+         _fft = NULL;
+      }
+
+      // Prepare the transform before copying: planning overwrites the k-space buffer
       *((GridSystem*) this) = *((GridSystem*) psi);
+      newsize(psi->size());
+      IsKspace(true);
+      CheckFFT();
+
+      // Copy
       *((cVec*) this) = *((cVec*) psi);
 
-      CheckFFT();
       _fft->backward();
       IsKspace(false);
 
-- 
2.43.0


From 93f718b90f9bd676152c027b21620ad6cd16f515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:39 +0000
Subject: [PATCH 02/64] fix: WFLevel::Reduce dropped every negative amplitude

The cut-off was compared with the signed value instead of the magnitude, so
compressed storage of a level wave function lost all negative components.
---
 src/qdlib/WFLevel.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qdlib/WFLevel.cpp b/src/qdlib/WFLevel.cpp
index fab87a5..fc9f98b 100644
--- a/src/qdlib/WFLevel.cpp
+++ b/src/qdlib/WFLevel.cpp
@@ -7,6 +7,7 @@
 #include "tools/ZCopyStream.h"
 
 #include <stdint.h>
+#include <math.h>
 
 namespace QDLIB {
    
@@ -109,12 +110,12 @@ namespace QDLIB {
       
       for (int i=0; i <  size; i++){
          /* treat real & imag seperately */
-         if ( (*this)[i].real() < norm )
+         if ( fabs((*this)[i].real()) < norm )
             (*out)[i]._real = 0;
          else
             (*out)[i]._real = (*this)[i].real();
          
-         if ( (*this)[i].imag() < norm )
+         if ( fabs((*this)[i].imag()) < norm )
             (*out)[i]._imag = 0;
          else
             (*out)[i]._imag = (*this)[i].imag();
-- 
2.43.0


From 3631a15ddf18ebdaceff0ea7e08bc152a3b3ab86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:39 +0000
Subject: [PATCH 03/64] fix: compressed level wave functions were stored
 without their size

The reduced copy which is written has no parameters, so the meta file lacked
the size and the file could not be loaded again.
---
 src/qdlib/WFLevel.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qdlib/WFLevel.cpp b/src/qdlib/WFLevel.cpp
index fc9f98b..30e61f4 100644
--- a/src/qdlib/WFLevel.cpp
+++ b/src/qdlib/WFLevel.cpp
@@ -105,6 +105,7 @@ namespace QDLIB {
       double norm = Norm();
       int size = cVec::size();
       WFLevel* out = dynamic_cast<WFLevel*>(NewInstance());
+      out->_params.SetValue("size", size); /* Needed for the meta data */
       
       norm = norm / double(size) * tolerance; /* This is the cut-off criteria */
       
-- 
2.43.0


From c25e7d93af9ab2c466047fbda70b714e1e554e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:05 +0000
Subject: [PATCH 04/64] fix: failing writes of meta files were not reported

The result of ParamContainer::WriteToFile was ignored or only used to construct
an exception which was never thrown, and WriteToFile itself looked at bad(),
which reports neither a failed open nor a failed flush on close.
---
 src/ProgCfun.cpp             | 2 +-
 src/ProgPropa.cpp            | 2 +-
 src/tools/FileSingle.h       | 5 +++--
 src/tools/ParamContainer.cpp | 5 ++---
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/ProgCfun.cpp b/src/ProgCfun.cpp
index 0170d32..2f943ff 100644
--- a/src/ProgCfun.cpp
+++ b/src/ProgCfun.cpp
@@ -514,7 +514,7 @@ namespace QDLIB
 	  p.SetValue("Wcycle", wcycle_);
 
 	  if (!p.WriteToFile(write_dir_ + "/Propagation" + METAFILE_SUFFIX))
-	     EIOError("Can not write meta file");
+	     throw( EIOError("Can not write meta file", write_dir_ + "/Propagation" + METAFILE_SUFFIX) );
 
 	  wfbuffer.SaveToFiles(write_dir_ + "/WF");
 	}
diff --git a/src/ProgPropa.cpp b/src/ProgPropa.cpp
index 8bbb9be..e51bb93 100644
--- a/src/ProgPropa.cpp
+++ b/src/ProgPropa.cpp
@@ -154,7 +154,7 @@ namespace QDLIB {
       p.SetValue("Wcycle", _wcycle);
 
       if (!p.WriteToFile(_dir + "Propagation" + METAFILE_SUFFIX))
-         EIOError("Can not write meta file");
+         throw( EIOError("Can not write meta file", _dir + "Propagation" + METAFILE_SUFFIX) );
    }
 
    /**
diff --git a/src/tools/FileSingle.h b/src/tools/FileSingle.h
index dc56c4a..17eb5dd 100644
--- a/src/tools/FileSingle.h
+++ b/src/tools/FileSingle.h
@@ -810,7 +810,7 @@ namespace QDLIB
       if (!_drop_meta || _counter != _counter_last) {
 
          if (!p.WriteToFile(_name + METAFILE_SUFFIX))
-            EIOError("Can not write meta file");
+            throw( EIOError("Can not write meta file", _name + METAFILE_SUFFIX) );
       }
    }
 
@@ -1310,7 +1310,8 @@ namespace QDLIB
       MetaData.header.set_class_(data->Name());
 
       pm.SetValue("CLASS", data->Name());
-      pm.WriteToFile(_name + METAFILE_SUFFIX);
+      if (!pm.WriteToFile(_name + METAFILE_SUFFIX))
+         throw( EIOError("Can not write meta file", _name + METAFILE_SUFFIX) );
    }
 
    /**
diff --git a/src/tools/ParamContainer.cpp b/src/tools/ParamContainer.cpp
index 18e9b2a..3720101 100644
--- a/src/tools/ParamContainer.cpp
+++ b/src/tools/ParamContainer.cpp
@@ -846,14 +846,13 @@ namespace QDLIB {
       ofstream file;
 
       file.open(name.c_str(),  ios_base::out);
-      if( file.bad() ) return false;
+      if( file.fail() ) return false;
 
       Write(file, with_types);
 
       file.close();
-      if( file.bad() ) return false;
 
-      return true;
+      return !file.fail();
    }
 
 
-- 
2.43.0


From 8e667da164f6d5d1006c6f5df106e9e24035138a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:58 +0000
Subject: [PATCH 05/64] fix: failing writes of data files were not reported

The buffer of an ofstream reaches the disk on close, but the state of the file
was never checked afterwards, so a full disk or an I/O error left a damaged file
behind a successful save. A failing open dereferenced a NULL stream, and after
any error the writer kept the damaged stream (or the name of a single state) for
its next use.
---
 src/qdlib/FileWF.cpp   | 44 +++++++++++++------
 src/tools/FileSingle.h | 97 ++++++++++++++++++++++++++----------------
 2 files changed, 91 insertions(+), 50 deletions(-)

diff --git a/src/qdlib/FileWF.cpp b/src/qdlib/FileWF.cpp
index 95dc772..3368e10 100644
--- a/src/qdlib/FileWF.cpp
+++ b/src/qdlib/FileWF.cpp
@@ -250,12 +250,17 @@ namespace QDLIB {
          if (FormatOut() == binary) {
             string basename = Name();
 
-            for (int i=wfm->MPIrank(); i < wfm->States(); i+=wfm->MPIsize()){
-               Counter(counter);    /* Every WriteFile() increases counter => restore it when using it diff. states */
-               stringstream ss;
-               ss << "-" << i;
-               Name(basename + ss.str());
-               WriteWaveFunction(wfm->State(i));
+            try {
+               for (int i=wfm->MPIrank(); i < wfm->States(); i+=wfm->MPIsize()){
+                  Counter(counter);    /* Every WriteFile() increases counter => restore it when using it diff. states */
+                  stringstream ss;
+                  ss << "-" << i;
+                  Name(basename + ss.str());
+                  WriteWaveFunction(wfm->State(i));
+               }
+            } catch (...) {
+               Name(basename);
+               throw;
             }
 
             Name(basename); /* We modfied the name => switch back to original */
@@ -271,12 +276,17 @@ namespace QDLIB {
 
             WriteMeta(data, true, false); /* This is the Multistate header */
 
-            for (int i=0; i < wfm->States(); i++){
-               Counter(counter);
-               if (i == wfm->States()-1 && more_files_follow == false)
-                  WriteWaveFunction(wfm->State(i), false);
-               else
-                  WriteWaveFunction(wfm->State(i), true);
+            try {
+               for (int i=0; i < wfm->States(); i++){
+                  Counter(counter);
+                  if (i == wfm->States()-1 && more_files_follow == false)
+                     WriteWaveFunction(wfm->State(i), false);
+                  else
+                     WriteWaveFunction(wfm->State(i), true);
+               }
+            } catch (...) {
+               ReleaseOutStream(); /* The next write has to start a new stream */
+               throw;
             }
 
          }
@@ -289,8 +299,14 @@ namespace QDLIB {
                tmp_data = data->Reduce(_compTolerance);
          }
 
-         WriteMeta(tmp_data, more_files_follow);
-         WriteData(tmp_data);
+         try {
+            WriteMeta(tmp_data, more_files_follow);
+            WriteData(tmp_data);
+         } catch (...) {
+            if (_compMethod != UNCOMPRESSED)
+               DELETE_WF(tmp_data);
+            throw;
+         }
 
          if (_compMethod != UNCOMPRESSED)
             DELETE_WF(tmp_data);
diff --git a/src/tools/FileSingle.h b/src/tools/FileSingle.h
index 17eb5dd..d497413 100644
--- a/src/tools/FileSingle.h
+++ b/src/tools/FileSingle.h
@@ -269,6 +269,7 @@ namespace QDLIB
          void WriteIntroToStream();
          void PrepareStreamPayload(C *data, stringstream& buffer);
          void WriteDataToStream(const string &data_buf);
+         void ReleaseOutStream();
          void FinalizeOutStream();
 
 
@@ -952,14 +953,13 @@ namespace QDLIB
       /* Create file if needed */
       if (_sout == NULL){
          ofstream* out = new ofstream(); // TODO: Fix this. don't go via an ofstream
-         _our_out_stream = true;
 
          string name;
          BuildDataFileName(name);
          out->open(name.c_str(), ios_base::binary);
 
          if (! out->is_open() ){
-            FinalizeOutStream();
+            delete out;
             throw(EIOError("Can not open binary stream for writing", name));
          }
          _sout = out;
@@ -983,13 +983,12 @@ namespace QDLIB
    }
 
    /**
-    * Cleanup and close the stream.
+    * Close the stream without looking at its state.
     */
    template<class C>
-   void FileSingle<C>::FinalizeOutStream()
+   void FileSingle<C>::ReleaseOutStream()
    {
       if (_our_out_stream){
-         dynamic_cast<ofstream*>(_sout)->close();
          delete _sout;
          _sout = NULL;
          _our_out_stream = false;
@@ -999,24 +998,53 @@ namespace QDLIB
    }
 
    /**
-    * Write a single file to stream.
+    * Cleanup and close the stream.
     */
    template<class C>
-   void FileSingle<C>::WriteSingleFileToStream(C *data)
+   void FileSingle<C>::FinalizeOutStream()
    {
-      WriteIntroToStream();     // Header
+      bool failed = false;
 
-      // Get raw data (payload) from class (subheader + data), compress if requested
-      stringstream payload;
-      PrepareStreamPayload(data, payload);
+      if (_sout != NULL){
+         /* Errors may not show up before the buffer is flushed */
+         if (_our_out_stream)
+            dynamic_cast<ofstream*>(_sout)->close();
+         else
+            _sout->flush();
 
-      // put payload size in header and write header to stream
-      WriteMetaToStream(data, payload.str().size());
+         failed = _sout->fail();
+      }
+
+      ReleaseOutStream();
+
+      if (failed)
+         throw(EIOError("Can not write to stream", _name));
+   }
 
-      // write payload to stream
-      const string& s = payload.str();
-      WriteDataToStream( s );
-      FinalizeOutStream();      // close stream
+   /**
+    * Write a single file to stream.
+    */
+   template<class C>
+   void FileSingle<C>::WriteSingleFileToStream(C *data)
+   {
+      try {
+         WriteIntroToStream();     // Header
+
+         // Get raw data (payload) from class (subheader + data), compress if requested
+         stringstream payload;
+         PrepareStreamPayload(data, payload);
+
+         // put payload size in header and write header to stream
+         WriteMetaToStream(data, payload.str().size());
+
+         // write payload to stream
+         const string& s = payload.str();
+         WriteDataToStream( s );
+         FinalizeOutStream();      // close stream
+      } catch (...) {
+         ReleaseOutStream();       // don't continue with a damaged stream the next time
+         throw;
+      }
       if (_sequence) _counter += _increment;
    }
 
@@ -1331,39 +1359,31 @@ namespace QDLIB
          throw(EIOError("Can not open binary file for writing", name));
 
       file.write((char*) _buffer, _buffer_size);
-      if (file.bad())
-         throw(EIOError("Can not write binary file", name));
 
       Memory::Instance().Free(_buffer);
       _buffer = NULL;
       _buffer_size  = 0;
 
-      if (file.bad())
-         throw(EIOError("Can not write binary file", name));
-
       string magic;
       switch(_compMethod){
          case ZLIB:
             /* Append magic bytes */
             magic = ZLIB_MAGIC;
             file.write((char*) magic.c_str(), magic.size()+1);
-            if (file.bad())
-               throw(EIOError("Can not write binary file", name));
-
             break;
          case BZIP:
             /* Append magic bytes */
             magic = BZIP_MAGIC;
             file.write((char*) magic.c_str(), magic.size()+1);
-            if (file.bad())
-               throw(EIOError("Can not write binary file", name));
-
             break;
          default:
             break;
       }
 
+      /* Errors may not show up before the buffer is flushed */
       file.close();
+      if (file.fail())
+         throw(EIOError("Can not write binary file", name));
    }
 
    /**
@@ -1471,18 +1491,23 @@ namespace QDLIB
       switch (_type_out){
          case stream:
          {
-            WriteIntroToStream();
+            try {
+               WriteIntroToStream();
 
-            stringstream payload;
-            PrepareStreamPayload(data, payload);
+               stringstream payload;
+               PrepareStreamPayload(data, payload);
 
-            // put payload size in header and write header to stream
-            WriteMetaToStream(data, payload.str().size(), more_files_follow, ingore_data);
+               // put payload size in header and write header to stream
+               WriteMetaToStream(data, payload.str().size(), more_files_follow, ingore_data);
 
-            // write payload to stream
-            WriteDataToStream(payload.str());
+               // write payload to stream
+               WriteDataToStream(payload.str());
 
-            if (!MetaData.header.more_files_follow()) FinalizeOutStream();
+               if (!MetaData.header.more_files_follow()) FinalizeOutStream();
+            } catch (...) {
+               ReleaseOutStream();
+               throw;
+            }
             break;
          }
          case binary:
-- 
2.43.0


From 1135c7e69162b70c32543dcf7d9a133279937f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:04 +0000
Subject: [PATCH 06/64] fix: multistate wave functions in binary format could
 not be loaded

---
 src/tools/FileSingle.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/tools/FileSingle.h b/src/tools/FileSingle.h
index d497413..aa92e6b 100644
--- a/src/tools/FileSingle.h
+++ b/src/tools/FileSingle.h
@@ -1062,6 +1062,7 @@ namespace QDLIB
          in->open(name.c_str(), ios_base::binary);
 
          if (! in->is_open() ){
+            delete in;
             throw(EIOError("Can not open binary stream file for reading", name));
          }
 
@@ -1147,9 +1148,9 @@ namespace QDLIB
          return;
       }
 
-      OpenINStream();
-
       try {
+         /* A raw multistate set has no data file with this name */
+         OpenINStream();
          CheckIntroFromStream();
          _type = stream;
       } catch (EIOError& e) { /* to fail means it must be _something else_ */
@@ -1448,7 +1449,9 @@ namespace QDLIB
             break;
          case binary:
                ReadMetaFromRaw();
-               DetectCompressionInPayload();
+               /* The container of a multistate set has no payload of its own */
+               if (MetaData.header.class_() != "WFMultistate")
+                  DetectCompressionInPayload();
             break;
          default:
             throw (EIOError("Failed to get meta data (format not determined)."));
-- 
2.43.0


From e91be6b53e98af18bbad8f6fc265f79de56bea80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:12 +0000
Subject: [PATCH 07/64] fix: saving incompressible data in the compressed raw
 format failed

---
 src/tools/FileSingle.h | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/tools/FileSingle.h b/src/tools/FileSingle.h
index aa92e6b..0c49d58 100644
--- a/src/tools/FileSingle.h
+++ b/src/tools/FileSingle.h
@@ -606,8 +606,14 @@ namespace QDLIB
       if (deflateInit(&strm, 4) != Z_OK) /* Init stream */
          throw(EIOError("libz init failed"));
 
-      _buffer_size = data->sizeBytes();
-      Memory::Instance().Align((void**) &_buffer, _buffer_size);
+      /* Incompressible data may grow */
+      _buffer_size = deflateBound(&strm, data->sizeBytes());
+      try {
+         Memory::Instance().Align((void**) &_buffer, _buffer_size);
+      } catch (...) {
+         deflateEnd(&strm);
+         throw;
+      }
 
       /* input buffer */
       strm.next_in = reinterpret_cast<Bytef*>(data->begin(0));
@@ -617,8 +623,10 @@ namespace QDLIB
       strm.next_out = reinterpret_cast<Bytef*>(_buffer);
       strm.avail_out = _buffer_size;
 
-      if (deflate(&strm, Z_FINISH) != Z_STREAM_END)
+      if (deflate(&strm, Z_FINISH) != Z_STREAM_END) {
+         deflateEnd(&strm);
          throw (EIOError("zlib deflate failed"));
+      }
 
       /* This is what we have */
       _buffer_size = _buffer_size - strm.avail_out;
@@ -691,8 +699,14 @@ namespace QDLIB
       if (BZ2_bzCompressInit(&strm, 4, 0, 0) != BZ_OK) /* Init stream */
          throw(EIOError("libz init failed"));
 
-      _buffer_size = data->sizeBytes();
-      Memory::Instance().Align((void**) &_buffer, _buffer_size);
+      /* Incompressible data may grow */
+      _buffer_size = data->sizeBytes() + data->sizeBytes() / 100 + 600;
+      try {
+         Memory::Instance().Align((void**) &_buffer, _buffer_size);
+      } catch (...) {
+         BZ2_bzCompressEnd(&strm);
+         throw;
+      }
 
       /* input buffer */
       strm.next_in = reinterpret_cast<char*>(data->begin(0));
@@ -702,8 +716,10 @@ namespace QDLIB
       strm.next_out = _buffer;
       strm.avail_out = _buffer_size;
 
-      if (BZ2_bzCompress(&strm, BZ_FINISH) != BZ_STREAM_END)
+      if (BZ2_bzCompress(&strm, BZ_FINISH) != BZ_STREAM_END) {
+         BZ2_bzCompressEnd(&strm);
          throw (EIOError("bzip2 compress failed"));
+      }
 
       /* This is what we have */
       _buffer_size = _buffer_size - strm.avail_out;
@@ -867,11 +883,14 @@ namespace QDLIB
    {
       Memory& mem = Memory::Instance();
 
+      if (_buffer != NULL) { /* left over from a failed write */
+         mem.Free(_buffer);
+         _buffer = NULL;
+      }
+
       switch (_compMethod) {
          case UNCOMPRESSED: /* just copy to buffer */
 
-            if (_buffer != NULL) mem.Free(_buffer);
-
             mem.Align((void**) &_buffer, data->sizeBytes());
             mem.Copy(_buffer, (char*) data->begin(0), data->sizeBytes());
             _buffer_size = data->sizeBytes();
-- 
2.43.0


From 8fcc17610ccb81191989e1a681dc0b1727cb0768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:12 +0000
Subject: [PATCH 08/64] fix: binary multistate sets were hidden by an older
 file with the same name

---
 src/qdlib/FileWF.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/qdlib/FileWF.cpp b/src/qdlib/FileWF.cpp
index 3368e10..a615dd8 100644
--- a/src/qdlib/FileWF.cpp
+++ b/src/qdlib/FileWF.cpp
@@ -10,6 +10,9 @@
 #include "tools/helpers.h"
 #include "config.h"
 
+#include <errno.h>
+#include <unistd.h>
+
 
 namespace QDLIB {
 
@@ -271,6 +274,15 @@ namespace QDLIB {
                p = wfm->Params();
                p.SetValue("CLASS", wfm->Name() );
                WriteMeta(p);
+
+               /* A data file stored earlier under this name would be read instead of the states */
+               string old;
+               int next = Counter();
+               Counter(counter);
+               BuildDataFileName(old);
+               Counter(next);
+               if (unlink(old.c_str()) != 0 && errno != ENOENT)
+                  throw( EIOError("Can not remove outdated file", old) );
             }
          } else if (FormatOut() == stream){
 
-- 
2.43.0


From 7fb5e161efe2c857ee8659a8c4d912c482ae6182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:13 +0000
Subject: [PATCH 09/64] fix: unreadable or badly formed meta files made the
 reader loop forever

---
 src/tools/ParamContainer.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/tools/ParamContainer.cpp b/src/tools/ParamContainer.cpp
index 3720101..27167d5 100644
--- a/src/tools/ParamContainer.cpp
+++ b/src/tools/ParamContainer.cpp
@@ -731,15 +731,10 @@ namespace QDLIB {
    void ParamContainer::Parse(istream &stream, const char* eof)
    {
       string s;
-      char line[MAX_LINE_LENGTH];
       size_t pos;
 
       clear();
-      while (!stream.eof()) { // Reading loop
-         stream.getline(line, MAX_LINE_LENGTH);
-         //if (file.fail()) return false;
-
-         s.assign(line);
+      while (getline(stream, s)) { // Reading loop (ends at end of file or on errors)
 
          if (eof != NULL)
             if (s == eof) break;
@@ -791,7 +786,7 @@ namespace QDLIB {
 
       Parse(file);
 
-      return true;
+      return !file.bad();
 
    }
 
-- 
2.43.0


From f3f43fb5d257d6deb51e9da423bb1755ddfa3b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:13 +0000
Subject: [PATCH 10/64] fix: truncated, unreadable or mismatching data files
 were loaded as if complete

---
 src/qdlib/FileWF.cpp           | 248 ++++++++++++++++++---------------
 src/qdlib/Laser.cpp            |  13 +-
 src/qdlib/OGridsystem.cpp      |  14 +-
 src/qdlib/OHermitianMatrix.cpp |   8 +-
 src/qdlib/WFGridSystem.cpp     |  13 +-
 src/qdlib/WFLevel.cpp          |   7 +-
 src/qdlib/WFMultistate.cpp     |   3 +
 src/tools/FileSingle.h         | 153 ++++++++++++++------
 8 files changed, 300 insertions(+), 159 deletions(-)

diff --git a/src/qdlib/FileWF.cpp b/src/qdlib/FileWF.cpp
index a615dd8..8946ab7 100644
--- a/src/qdlib/FileWF.cpp
+++ b/src/qdlib/FileWF.cpp
@@ -81,76 +81,78 @@ namespace QDLIB {
    WaveFunction * FileWF::LoadWaveFunctionByMeta()
    {
       string basename = Name();
-      WaveFunction *wf;
-
-      FileSingleHeaderPm meta = ReadMeta();
-      ParamContainer p = meta.params();
-      string classname = meta.header.class_();
-
-      if (classname.size() <= 1)
-         throw (EParamProblem("No CLASS information found. LoadWaveFunctionByMeta failed."));
-
-      if (classname == "WFMultistate"){ /* Explicit Multistate handling */
-         WFMultistate *wfm = new WFMultistate();
-         /** \todo register WF with collector? */
-
-         if (Format() == binary){
-
-            int states;
-            p.GetValue("states", states); /* Grab the states from params. wfm->Init() must be executed after wfm->Add() ! */
-            if (states < 1)
-               throw ( EParamProblem("Init from meta file: Invalid number of states", wfm->States()) );
+      WaveFunction *wf = NULL;
+      WaveFunction *tmp_data = NULL;
+
+      try {
+         FileSingleHeaderPm meta = ReadMeta();
+         ParamContainer p = meta.params();
+         string classname = meta.header.class_();
+
+         if (classname.size() <= 1)
+            throw (EParamProblem("No CLASS information found. LoadWaveFunctionByMeta failed."));
+
+         if (classname == "WFMultistate"){ /* Explicit Multistate handling */
+            WFMultistate *wfm = new WFMultistate();
+            wf = wfm;
+            /** \todo register WF with collector? */
+
+            if (Format() == binary){
+
+               int states;
+               p.GetValue("states", states); /* Grab the states from params. wfm->Init() must be executed after wfm->Add() ! */
+               if (states < 1)
+                  throw ( EParamProblem("Init from meta file: Invalid number of states", wfm->States()) );
+
+               int counter = Counter();
+      #ifdef HAVE_MPI
+               int rank =  MPI::COMM_WORLD.Get_rank();
+               int msize = MPI::COMM_WORLD.Get_size();
+      #else
+               int rank = 0; int msize = 1;
+      #endif
+               for (int i=rank; i < states; i +=msize ){/* Loop over states */
+                  Counter(counter);    /* Every ReadFile() increases counter => restore it when using it diff. states */
+                  stringstream ss;
+                  ss << "-" << i;
+                  Name(basename + ss.str());
+                  wfm->Add( LoadWaveFunctionByMeta(), i ); /* Load module */
+               }
+               //cout << "rank : " << rank << endl << *wf<< endl;
+               wfm->SyncStrides();
+               wfm->Init(p);
+            } else if (Format() == stream) { /* Read packed format from stream */
+               ReadDataFromStream(wfm);  // Do a dummy read
 
-            int counter = Counter();
-   #ifdef HAVE_MPI
-            int rank =  MPI::COMM_WORLD.Get_rank();
-            int msize = MPI::COMM_WORLD.Get_size();
-   #else
-            int rank = 0; int msize = 1;
-   #endif
-            for (int i=rank; i < states; i +=msize ){/* Loop over states */
-               Counter(counter);    /* Every ReadFile() increases counter => restore it when using it diff. states */
-               stringstream ss;
-               ss << "-" << i;
-               Name(basename + ss.str());
-               wfm->Add( LoadWaveFunctionByMeta(), i ); /* Load module */
-            }
-            //cout << "rank : " << rank << endl << *wf<< endl;
-            wfm->SyncStrides();
-            wfm->Init(p);
-         } else if (Format() == stream) { /* Read packed format from stream */
-            ReadDataFromStream(wfm);  // Do a dummy read
+               int counter = Counter();
 
-            int counter = Counter();
+               unsigned int i=0;
+               while (GetMeta().header.more_files_follow()) { /* Try to get all WFs in list */
+                  Counter(counter);
+                  wfm->Add( LoadWaveFunctionByMeta(), i);
+                  i++;
+               }
 
-            unsigned int i=0;
-            while (GetMeta().header.more_files_follow()) { /* Try to get all WFs in list */
-               Counter(counter);
-               wfm->Add( LoadWaveFunctionByMeta(), i);
-               i++;
+               wfm->Init(i);
             }
-
-            wfm->Init(i);
-         }
-
-
-         wf = wfm;
-      } else { /* handling for Single state WFs */
-         wf = ModuleLoader<WaveFunction>::Instance()->Load(classname);
-
-         WaveFunction* tmp_data = wf;
-
-         FileSingleHeader_Compression compress = meta.header.compression();
-         if (compress != FileSingleHeader_Compression_UNCOMPRESSED){
-            tmp_data = ModuleLoader<WaveFunction>::Instance()->Load(classname);
-         }
-
-         ReadData(tmp_data);
-
-         if (compress != FileSingleHeader_Compression_UNCOMPRESSED){
-            wf->Restore(tmp_data);
-            DELETE_WF(tmp_data);
+         } else { /* handling for Single state WFs */
+            wf = ModuleLoader<WaveFunction>::Instance()->Load(classname);
+
+            FileSingleHeader_Compression compress = meta.header.compression();
+            if (compress != FileSingleHeader_Compression_UNCOMPRESSED){
+               tmp_data = ModuleLoader<WaveFunction>::Instance()->Load(classname);
+               ReadData(tmp_data);
+               wf->Restore(tmp_data);
+               DELETE_WF(tmp_data);
+            } else
+               ReadData(wf);
          }
+      } catch (...) { /* Leave nothing half read behind */
+         Name(basename);
+         ReleaseInStream();
+         if (tmp_data != NULL) DELETE_WF(tmp_data);
+         if (wf != NULL) DELETE_WF(wf);
+         throw;
       }
 
       Name(basename); /* We modfied the name => switch back to original */
@@ -168,64 +170,84 @@ namespace QDLIB {
    void FileWF::ReadWaveFunction(WaveFunction * data)
    {
       WFMultistate *wfm;
+      WaveFunction *tmp_data = NULL;
+      string basename = Name();
 
       wfm = dynamic_cast<WFMultistate*>(data);
 
-      if (wfm != NULL){ /* Load Multistate set */
-         string basename = Name();
+      try {
+         if (wfm != NULL){ /* Load Multistate set */
+            if (wfm->States() < 1)
+               throw ( EParamProblem("Reading WaveFunction: Invalid number of states", wfm->States()) );
 
-         if (wfm->States() < 1)
-            throw ( EParamProblem("Reading WaveFunction: Invalid number of states", wfm->States()) );
+            // Detect format;
+            FileSingleHeaderPm meta;
+            meta = ReadMeta();
 
-         // Detect format;
-         FileSingleHeaderPm meta;
-         meta = ReadMeta();
-         ParamContainer pmt = meta.params();
+            if (meta.header.class_() != wfm->Name())
+               throw ( EIOError("File does not contain a multistate wave function", basename) );
 
-         int counter = Counter();
+            int counter = Counter();
 
-         if (Format() == binary){ /* The old way of storing files. */
-            for (int i=wfm->MPIrank(); i < wfm->States(); i += wfm->MPIsize()){ /* Loop over States */
-               Counter(counter);    /* Every ReadFile() increases counter => restore it when using it diff. states */
-               stringstream ss;
-               ss << "-" << i;
-               Name(basename + ss.str());
-               ReadWaveFunction(wfm->State(i)); /* Load data */
-            }
+            if (Format() == binary){ /* The old way of storing files. */
+               ParamContainer p = meta.params();
+               int states;
+               p.GetValue("states", states);
+               if (states != wfm->States())
+                  throw ( EIOError("File contains a different number of states", basename) );
 
-            Name(basename); /* We modified the name => switch back to original */
+               for (int i=wfm->MPIrank(); i < wfm->States(); i += wfm->MPIsize()){ /* Loop over States */
+                  Counter(counter);    /* Every ReadFile() increases counter => restore it when using it diff. states */
+                  stringstream ss;
+                  ss << "-" << i;
+                  Name(basename + ss.str());
+                  ReadWaveFunction(wfm->State(i)); /* Load data */
+               }
 
-            ParamContainer p = meta.params();
-            wfm->Init(p);
+               Name(basename); /* We modfied the name => switch back to original */
 
-         } else if (Format() == stream) { /* Read packed format from stream */
-            ReadDataFromStream(data);  // Do a dummy read
+               wfm->Init(p);
 
-            unsigned int i=0;
-            while (GetMeta().header.more_files_follow()) {
-               Counter(counter);
-               ReadWaveFunction(wfm->State(i));
-               i++;
-            }
+            } else if (Format() == stream) { /* Read packed format from stream */
+               ReadDataFromStream(data);  // Do a dummy read
 
-            wfm->Init(i);
-         }
+               int i=0;
+               while (GetMeta().header.more_files_follow()) {
+                  if (i >= wfm->States())
+                     throw ( EIOError("File contains a different number of states", basename) );
 
-         wfm->SyncStrides();
-      } else { /* Load Single WaveFunction */
-         WaveFunction* tmp_data = data;
+                  Counter(counter);
+                  ReadWaveFunction(wfm->State(i));
+                  i++;
+               }
 
-         FileSingleHeader_Compression compress = ReadMeta().header.compression();
-         if (compress != FileSingleHeader_Compression_UNCOMPRESSED){
-            tmp_data = data->NewInstance();
-         }
+               if (i != wfm->States())
+                  throw ( EIOError("File contains a different number of states", basename) );
 
-         ReadData(tmp_data);
+               wfm->Init(i);
+            }
 
-         if (compress != FileSingleHeader_Compression_UNCOMPRESSED){
-            data->Restore(tmp_data);
-            DELETE_WF(tmp_data);
+            wfm->SyncStrides();
+         } else { /* Load Single WaveFunction */
+            FileSingleHeaderPm meta = ReadMeta();
+            string classname = meta.header.class_();
+
+            if (!classname.empty() && classname != data->Name())
+               throw ( EIOError("File contains a different type of wave function", classname) );
+
+            if (meta.header.compression() != FileSingleHeader_Compression_UNCOMPRESSED){
+               tmp_data = data->NewInstance();
+               ReadData(tmp_data);
+               data->Restore(tmp_data);
+               DELETE_WF(tmp_data);
+            } else
+               ReadData(data);
          }
+      } catch (...) { /* The next read has to start from the beginning */
+         Name(basename);
+         ReleaseInStream();
+         if (tmp_data != NULL) DELETE_WF(tmp_data);
+         throw;
       }
 
    }
@@ -304,6 +326,7 @@ namespace QDLIB {
          }
       } else { /* Write single file */
          WaveFunction* tmp_data = data;
+         compMethod_t method = _compMethod;
          if (_compMethod != UNCOMPRESSED) {
             if (_compMethod == INVALID)
                throw( EParamProblem("Invalid file compression method given") );
@@ -313,14 +336,21 @@ namespace QDLIB {
 
          try {
             WriteMeta(tmp_data, more_files_follow);
-            WriteData(tmp_data);
+            if (FormatOut() == binary && PreparedDataGrew(data)) { /* compression is not worth it */
+               _compMethod = UNCOMPRESSED;
+               WriteMeta(data, more_files_follow);
+               WriteData(data);
+               _compMethod = method;
+            } else
+               WriteData(tmp_data);
          } catch (...) {
-            if (_compMethod != UNCOMPRESSED)
+            _compMethod = method;
+            if (tmp_data != data)
                DELETE_WF(tmp_data);
             throw;
          }
 
-         if (_compMethod != UNCOMPRESSED)
+         if (tmp_data != data)
             DELETE_WF(tmp_data);
       }
    }
diff --git a/src/qdlib/Laser.cpp b/src/qdlib/Laser.cpp
index 49a2cbc..57644bf 100644
--- a/src/qdlib/Laser.cpp
+++ b/src/qdlib/Laser.cpp
@@ -218,16 +218,22 @@ namespace QDLIB {
 
    void Laser::DeSerialize (std::istream&is)
    {
-      uint64_t size;
+      uint64_t size = 0;
 
       is.read(reinterpret_cast<char*>(&size), sizeof(size));
 
+      if (is.fail())
+         throw(EIOError("Can't read laser field from stream"));
+
       if (size == 0)
          throw(EParamProblem("Laser field has zero size"));
 
-      double dt;
+      double dt = 0;
       is.read(reinterpret_cast<char*>(&dt), sizeof(dt));
 
+      if (is.fail())
+         throw(EIOError("Can't read laser field from stream"));
+
       if (dt <= 0)
          throw(EParamProblem("Laser field got a non-sense dt: ", dt));
 
@@ -236,6 +242,9 @@ namespace QDLIB {
       newsize(size);
 
       is.read(reinterpret_cast<char*>(begin(0)), sizeBytes());
+
+      if (is.fail())
+         throw(EIOError("Can't read laser field from stream"));
    }
    
 }
diff --git a/src/qdlib/OGridsystem.cpp b/src/qdlib/OGridsystem.cpp
index 08b7bb7..bf87c52 100644
--- a/src/qdlib/OGridsystem.cpp
+++ b/src/qdlib/OGridsystem.cpp
@@ -78,14 +78,19 @@ namespace QDLIB {
    void OGridSystem::DeSerialize (std::istream& is)
    {
       // read header
-      uint32_t size;
+      uint32_t size = 0;
 
       is.read(reinterpret_cast<char*>(&size), sizeof(uint32_t));
 
+      if (is.fail() || size > PBUF_MAX_HEADER)
+         throw(EIOError("Can't read Operator from stream"));
+
       char* buf = new char[size];
       is.read(buf, size);
-      if (! grid_sys.header.ParseFromArray(buf, size) )
-         throw(EIOError("Can't read WF from stream"));
+      if (is.fail() || ! grid_sys.header.ParseFromArray(buf, size) ) {
+         delete[] buf;
+         throw(EIOError("Can't read Operator from stream"));
+      }
 
       delete[] buf;
 
@@ -93,6 +98,9 @@ namespace QDLIB {
       grid_sys.header.set_data_size(GridSystem::Size() * sizeof(*begin(0)));
 
       is.read(reinterpret_cast<char*>(begin(0)), sizeBytes());
+
+      if (is.fail())
+         throw(EIOError("Can't read Operator from stream"));
    }
 
 } /* namespace QDLIB */
diff --git a/src/qdlib/OHermitianMatrix.cpp b/src/qdlib/OHermitianMatrix.cpp
index 5193b6b..463948b 100644
--- a/src/qdlib/OHermitianMatrix.cpp
+++ b/src/qdlib/OHermitianMatrix.cpp
@@ -291,14 +291,20 @@ namespace QDLIB {
    void OHermitianMatrix::DeSerialize (std::istream& is)
    {
       // read header
-      uint32_t size;
+      uint32_t size = 0;
 
       is.read(reinterpret_cast<char*>(&size), sizeof(uint32_t));
       is.read(reinterpret_cast<char*>(&size), sizeof(uint32_t));
 
+      if (is.fail())
+         throw(EIOError("Can't read matrix from stream"));
+
       newsize(size, size);
 
       is.read(reinterpret_cast<char*>(begin()), sizeBytes());
+
+      if (is.fail())
+         throw(EIOError("Can't read matrix from stream"));
    }
 
 } /* namespace QDLIB */
diff --git a/src/qdlib/WFGridSystem.cpp b/src/qdlib/WFGridSystem.cpp
index 5fa4561..4f3e235 100644
--- a/src/qdlib/WFGridSystem.cpp
+++ b/src/qdlib/WFGridSystem.cpp
@@ -7,6 +7,7 @@
 #include "fft/fft.h"
 #include "math/math_functions.h"
 #include "tools/ZCopyStream.h"
+#include "tools/FileSingle.h"
 
 namespace QDLIB {
 
@@ -167,14 +168,19 @@ namespace QDLIB {
    void WFGridSystem::DeSerialize (std::istream& is)
    {
       // read header
-      uint32_t size;
+      uint32_t size = 0;
 
       is.read(reinterpret_cast<char*>(&size), sizeof(uint32_t));
 
+      if (is.fail() || size > PBUF_MAX_HEADER)
+         throw(EIOError("Can't read WF from stream"));
+
       char* buf = new char[size];
       is.read(buf, size);
-      if (! grid_sys.header.ParseFromArray(buf, size) )
+      if (is.fail() || ! grid_sys.header.ParseFromArray(buf, size) ) {
+         delete[] buf;
          throw(EIOError("Can't read WF from stream"));
+      }
 
       delete[] buf;
 
@@ -183,6 +189,9 @@ namespace QDLIB {
       grid_sys.header.set_data_size(GridSystem::Size() * sizeof(*begin(0)));
 
       is.read(reinterpret_cast<char*>(begin(0)), sizeBytes());
+
+      if (is.fail())
+         throw(EIOError("Can't read WF from stream"));
    }
 
 } /* namespace QDLIB */
diff --git a/src/qdlib/WFLevel.cpp b/src/qdlib/WFLevel.cpp
index 30e61f4..a647123 100644
--- a/src/qdlib/WFLevel.cpp
+++ b/src/qdlib/WFLevel.cpp
@@ -149,17 +149,20 @@ namespace QDLIB {
 
    void WFLevel::DeSerialize (std::istream& is)
    {
-      uint64_t sizee, sizeb;
+      uint64_t sizee = 0, sizeb = 0;
 
       is.read(reinterpret_cast<char*>(&sizee), sizeof(sizee));
       is.read(reinterpret_cast<char*>(&sizeb), sizeof(sizeb));
 
-      if (sizee * sizeof(dcomplex) != sizeb)
+      if (is.fail() || sizee * sizeof(dcomplex) != sizeb)
          throw( EIOError("Can't read WFLevel: wrong header") );
 
       newsize(sizee);
 
       is.read(reinterpret_cast<char*>(begin(0)), sizeb);
+
+      if (is.fail())
+         throw( EIOError("Can't read WFLevel from stream") );
    }
 } /* namespace QDLIB */
 
diff --git a/src/qdlib/WFMultistate.cpp b/src/qdlib/WFMultistate.cpp
index 1831c5c..c14dfd9 100644
--- a/src/qdlib/WFMultistate.cpp
+++ b/src/qdlib/WFMultistate.cpp
@@ -290,6 +290,9 @@ namespace QDLIB
       // The info here is useless right now. Ignore it.
       uint32_t states = 0;
       is.read(reinterpret_cast<char*>(&states), sizeof(uint32_t));
+
+      if (is.fail())
+         throw( EIOError("Can't read multistate wave function from stream") );
    }
 
 }
diff --git a/src/tools/FileSingle.h b/src/tools/FileSingle.h
index 0c49d58..168a4fc 100644
--- a/src/tools/FileSingle.h
+++ b/src/tools/FileSingle.h
@@ -53,6 +53,9 @@
 #define PBUF_MAGIC "QDngPrtoBuf"
 #define PBUF_VERSION 0x1
 
+/** Upper limit for the size of a stream header (default protobuf limit) */
+#define PBUF_MAX_HEADER (64 * 1024 * 1024)
+
 
 using namespace std;
 using namespace ::google::protobuf;
@@ -274,6 +277,7 @@ namespace QDLIB
 
 
          void OpenINStream();
+         void ReleaseInStream();
          void CheckIntroFromStream();
          const FileSingleHeaderPm& ReadMetaFromStream();
 
@@ -288,6 +292,7 @@ namespace QDLIB
 
          /* General */
          void PrepareData(C *data);
+         bool PreparedDataGrew(C *data);
          void InitDataStorage(C* data);
          const FileSingleHeaderPm& ReadMeta();
 
@@ -426,6 +431,7 @@ namespace QDLIB
    FileSingle<C>::~FileSingle()
    {
      if (_buffer != NULL) Memory::Instance().Free(_buffer);
+     ReleaseInStream();
    }
 
    /**
@@ -658,6 +664,7 @@ namespace QDLIB
 
       if ((size_t) in->gcount() != size || in->bad()){
          Memory::Instance().Free(buffer);
+         inflateEnd(&strm);
          throw(EIOError("Can't read zlib compressed data"));
       }
 
@@ -668,9 +675,10 @@ namespace QDLIB
       strm.next_out = reinterpret_cast<Bytef*>(data->begin(0));
       strm.avail_out = data->sizeBytes();
 
-      if (inflate(&strm, Z_FINISH) != Z_STREAM_END)
+      if (inflate(&strm, Z_FINISH) != Z_STREAM_END || strm.avail_out != 0)
       { /* Compression */
          Memory::Instance().Free(buffer);
+         inflateEnd(&strm);
          throw(EIOError("zlib decompression failed"));
       }
 
@@ -753,6 +761,7 @@ namespace QDLIB
 
       if ((size_t) in->gcount() != size || in->bad()){
          Memory::Instance().Free(buffer);
+         BZ2_bzDecompressEnd(&strm);
          throw(EIOError("Can't read bzip compressed data"));
       }
 
@@ -763,9 +772,10 @@ namespace QDLIB
       strm.next_out = reinterpret_cast<char*>(data->begin(0));
       strm.avail_out = data->sizeBytes();
 
-      if (BZ2_bzDecompress(&strm) != BZ_STREAM_END)
+      if (BZ2_bzDecompress(&strm) != BZ_STREAM_END || strm.avail_out != 0)
       { /* Compression */
          Memory::Instance().Free(buffer);
+         BZ2_bzDecompressEnd(&strm);
          throw(EIOError("zlib decompression failed"));
       }
 
@@ -907,6 +917,18 @@ namespace QDLIB
       }
    }
 
+   /**
+    * Check if the compressed raw data is larger than the data itself.
+    *
+    * Such a file must not be written: if its end gets lost it can't be
+    * distinguished from uncompressed data anymore.
+    */
+   template<class C>
+   bool FileSingle<C>::PreparedDataGrew(C *data)
+   {
+      return _compMethod != UNCOMPRESSED && _buffer_size + ZLIB_MLEN > data->sizeBytes();
+   }
+
    /**
     * Prepare content data for writing.
     */
@@ -1092,6 +1114,21 @@ namespace QDLIB
 
    }
 
+   /**
+    * Close the input file (if it is ours). The next read starts from the beginning.
+    */
+   template<class C>
+   void FileSingle<C>::ReleaseInStream()
+   {
+      _intro_read = false;
+
+      if (_our_in_stream){
+         delete _sin;
+         _sin = NULL;
+         _our_in_stream = false;
+      }
+   }
+
    /**
     * Check for a correct header.
     */
@@ -1107,7 +1144,10 @@ namespace QDLIB
 
       _sin->read(reinterpret_cast<char*>(&intro), sizeof(PbufHeader));
 
-      if (string(intro.magic) != PBUF_MAGIC)
+      if ((size_t) _sin->gcount() != sizeof(PbufHeader))
+         throw(EIOError("Malformated stream. Stream is too short."));
+
+      if (memcmp(intro.magic, PBUF_MAGIC, sizeof(PBUF_MAGIC)) != 0)
          throw(EIOError("Malformated stream. No stream magic found."));
 
       if ((unsigned int) intro.version != PBUF_VERSION)
@@ -1127,9 +1167,17 @@ namespace QDLIB
       /* message/meta data length */
       _sin->read(reinterpret_cast<char*>(&mlen), sizeof(uint32_t));
 
+      if ((size_t) _sin->gcount() != sizeof(uint32_t) || mlen > PBUF_MAX_HEADER)
+         throw(EIOError("Error reading meta data from stream"));
+
       char* buf = new char[mlen];
       _sin->read(reinterpret_cast<char*>(buf), mlen);
 
+      if ((size_t) _sin->gcount() != mlen){
+         delete[] buf;
+         throw(EIOError("Error reading meta data from stream"));
+      }
+
       // Parse header
       MetaData.ClearAll();
       if (!MetaData.header.ParseFromArray(reinterpret_cast<const void*>(buf), mlen)){
@@ -1173,14 +1221,7 @@ namespace QDLIB
          CheckIntroFromStream();
          _type = stream;
       } catch (EIOError& e) { /* to fail means it must be _something else_ */
-         if (_our_in_stream) {
-            dynamic_cast<ifstream*>(_sin)->close();
-            delete _sin;
-            _sin = NULL;
-         }
-
-         _intro_read = false;
-         _our_in_stream = false;
+         ReleaseInStream();
 
          _type = binary;
       }
@@ -1201,46 +1242,51 @@ namespace QDLIB
          {
             case FileSingleHeader_Compression_UNCOMPRESSED:
                data->DeSerialize(*_sin);
+
+               if (_sin->fail())
+                  throw(EIOError("Reading from stream failed"));
                break;
             case FileSingleHeader_Compression_BZIP:
             case FileSingleHeader_Compression_ZLIB:
+               stringstream outbuf;
                char* inbuf = new char[MetaData.header.payload_size()];
 
-               _sin->read(inbuf, MetaData.header.payload_size());
+               try {
+                  _sin->read(inbuf, MetaData.header.payload_size());
 
-               if ( (size_t) _sin->gcount() != MetaData.header.payload_size() )
-                  throw(EIOError("Reading from stream failed"));
+                  if ( (size_t) _sin->gcount() != MetaData.header.payload_size() )
+                     throw(EIOError("Reading from stream failed"));
 
-               ArrayInputStream arrin(inbuf, MetaData.header.payload_size());
-               GzipInputStream gzip(&arrin);
-               stringstream outbuf;
+                  ArrayInputStream arrin(inbuf, MetaData.header.payload_size());
+                  GzipInputStream gzip(&arrin);
+
+                  const void* gzbuf;
+                  int size;
 
-               const void* gzbuf;
-               int size;
+                  while (gzip.Next(&gzbuf, &size)){
+                     outbuf.write(reinterpret_cast<const char*>(gzbuf), size);
+                  }
 
-               while (gzip.Next(&gzbuf, &size)){
-                  outbuf.write(reinterpret_cast<const char*>(gzbuf), size);
+                  if (gzip.ZlibErrorCode() != Z_STREAM_END)
+                     throw(EIOError("Uncompressing stream data failed"));
+               } catch (...) {
+                  delete[] inbuf;
+                  throw;
                }
 
+               delete[] inbuf;
+
                outbuf.seekg(0);
                data->DeSerialize(outbuf);
 
-               delete[] inbuf;
+               if (outbuf.fail())
+                  throw(EIOError("Reading from stream failed"));
                break;
          }
       }
 
-      if (! MetaData.header.more_files_follow()) {
-         _intro_read = false;
-
-         /* Close */
-         if (_our_in_stream ){
-            dynamic_cast<ifstream*>(_sin)->close(); // We know here that it must be an ifstream.
-            delete _sin;
-            _sin = NULL;
-            _our_in_stream = false;
-         }
-      }
+      if (! MetaData.header.more_files_follow())
+         ReleaseInStream();
    }
 
 
@@ -1250,9 +1296,14 @@ namespace QDLIB
    template<class C>
    void FileSingle<C>::ReadSingleFileFromStream(C *data)
    {
-      CheckIntroFromStream();
-      ReadMetaFromStream();
-      ReadDataFromStream(data);
+      try {
+         CheckIntroFromStream();
+         ReadMetaFromStream();
+         ReadDataFromStream(data);
+      } catch (...) {
+         ReleaseInStream();      // don't continue in a damaged stream the next time
+         throw;
+      }
 
       if (_sequence) _counter += _increment;
    }
@@ -1412,9 +1463,21 @@ namespace QDLIB
    template<class C>
    void FileSingle<C>::WriteSingleFileToRaw(C *data)
    {
+      compMethod_t method = _compMethod;
+
       WriteMetaToRaw(data);
       PrepareData(data);
-      WriteDataToRaw(data);
+      try {
+         if (PreparedDataGrew(data)) { /* not worth it */
+            _compMethod = UNCOMPRESSED;
+            PrepareData(data);
+         }
+         WriteDataToRaw(data);
+      } catch (...) {
+         _compMethod = method;
+         throw;
+      }
+      _compMethod = method;
 
       if (_sequence) _counter += _increment;
    }
@@ -1463,8 +1526,13 @@ namespace QDLIB
 
       switch (_type){
          case stream:
-               CheckIntroFromStream();
-               ReadMetaFromStream();
+               try {
+                  CheckIntroFromStream();
+                  ReadMetaFromStream();
+               } catch (...) {
+                  ReleaseInStream();
+                  throw;
+               }
             break;
          case binary:
                ReadMetaFromRaw();
@@ -1490,7 +1558,12 @@ namespace QDLIB
    {
       switch (_type){
          case stream:
-            ReadDataFromStream(data);
+            try {
+               ReadDataFromStream(data);
+            } catch (...) {
+               ReleaseInStream();
+               throw;
+            }
             break;
          case binary:
             InitDataStorage(data);
-- 
2.43.0


From 1fb249ebf4026e06af3b26054c131b34abee59d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:33 +0000
Subject: [PATCH 11/64] fix: objects read from stream files were stored in
 binary format without their shape

---
 src/qdlib/Laser.cpp            |  5 ++---
 src/qdlib/OHermitianMatrix.cpp |  1 +
 src/qdlib/WFGridSystem.cpp     |  2 ++
 src/qdlib/WFLevel.cpp          | 10 ++++++----
 4 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/qdlib/Laser.cpp b/src/qdlib/Laser.cpp
index 57644bf..c375df2 100644
--- a/src/qdlib/Laser.cpp
+++ b/src/qdlib/Laser.cpp
@@ -237,9 +237,8 @@ namespace QDLIB {
       if (dt <= 0)
          throw(EParamProblem("Laser field got a non-sense dt: ", dt));
 
-      _dt = dt;
-
-      newsize(size);
+      Dt(dt);
+      Nt(size);
 
       is.read(reinterpret_cast<char*>(begin(0)), sizeBytes());
 
diff --git a/src/qdlib/OHermitianMatrix.cpp b/src/qdlib/OHermitianMatrix.cpp
index 463948b..f0da429 100644
--- a/src/qdlib/OHermitianMatrix.cpp
+++ b/src/qdlib/OHermitianMatrix.cpp
@@ -300,6 +300,7 @@ namespace QDLIB {
          throw(EIOError("Can't read matrix from stream"));
 
       newsize(size, size);
+      Operator::_params.SetValue("size", (int) size);
 
       is.read(reinterpret_cast<char*>(begin()), sizeBytes());
 
diff --git a/src/qdlib/WFGridSystem.cpp b/src/qdlib/WFGridSystem.cpp
index 4f3e235..f0d5e87 100644
--- a/src/qdlib/WFGridSystem.cpp
+++ b/src/qdlib/WFGridSystem.cpp
@@ -135,6 +135,7 @@ namespace QDLIB {
       // Prepare the transform before copying: planning overwrites the k-space buffer
       *((GridSystem*) this) = *((GridSystem*) psi);
       newsize(psi->size());
+      grid_sys.DumpParams(_params);
       IsKspace(true);
       CheckFFT();
 
@@ -186,6 +187,7 @@ namespace QDLIB {
 
       // Read data
       newsize(GridSystem::Size());
+      grid_sys.DumpParams(_params);
       grid_sys.header.set_data_size(GridSystem::Size() * sizeof(*begin(0)));
 
       is.read(reinterpret_cast<char*>(begin(0)), sizeBytes());
diff --git a/src/qdlib/WFLevel.cpp b/src/qdlib/WFLevel.cpp
index a647123..a077702 100644
--- a/src/qdlib/WFLevel.cpp
+++ b/src/qdlib/WFLevel.cpp
@@ -19,7 +19,10 @@ namespace QDLIB {
    
    WFLevel::WFLevel(): _name("WFLevel")   {}
    
-   WFLevel::WFLevel(size_t size) : WaveFunction(size), _name("WFLevel")   {}
+   WFLevel::WFLevel(size_t size) : WaveFunction(size), _name("WFLevel")
+   {
+      _params.SetValue("size", (int) size);
+   }
 
    WFLevel::~WFLevel() {}
    
@@ -105,7 +108,6 @@ namespace QDLIB {
       double norm = Norm();
       int size = cVec::size();
       WFLevel* out = dynamic_cast<WFLevel*>(NewInstance());
-      out->_params.SetValue("size", size); /* Needed for the meta data */
       
       norm = norm / double(size) * tolerance; /* This is the cut-off criteria */
       
@@ -130,7 +132,7 @@ namespace QDLIB {
       /* Nothing to do here. Just copy the content */
       WFLevel* wf = dynamic_cast<WFLevel*>(Psi);
 
-      newsize(wf->size());
+      Size(wf->size());
       FastCopy(*wf);
    }
    
@@ -157,7 +159,7 @@ namespace QDLIB {
       if (is.fail() || sizee * sizeof(dcomplex) != sizeb)
          throw( EIOError("Can't read WFLevel: wrong header") );
 
-      newsize(sizee);
+      Size(sizee);
 
       is.read(reinterpret_cast<char*>(begin(0)), sizeb);
 
-- 
2.43.0


From 1f64ecf84f5234a52078c030f7077414a66511de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:19 +0000
Subject: [PATCH 12/64] fix: multistate wave functions lost their content when
 a WFBuffer paged them to disk

---
 src/qdlib/WFBuffer.cpp     | 36 ++++++++++++++++++++++++++++++++++--
 src/qdlib/WFBuffer.h       |  2 ++
 src/qdlib/WFMultistate.cpp | 10 ++++++++++
 src/qdlib/WFMultistate.h   |  2 ++
 4 files changed, 48 insertions(+), 2 deletions(-)

diff --git a/src/qdlib/WFBuffer.cpp b/src/qdlib/WFBuffer.cpp
index c7389d6..18c775a 100644
--- a/src/qdlib/WFBuffer.cpp
+++ b/src/qdlib/WFBuffer.cpp
@@ -5,6 +5,7 @@
 #include "WFBuffer.h"
 #include "tools/GlobalParams.h"
 #include "qdlib/FileWF.h"
+#include "qdlib/WFMultistate.h"
 
 #include <typeinfo>
 #include <unistd.h>
@@ -113,6 +114,37 @@ namespace QDLIB {
       return false;
    }
    
+   /**
+    * Write the complete content of a wave function into a stream.
+    *
+    * A multi state wave function only serializes its number of states,
+    * its content has to be written state by state.
+    */
+   void WFBuffer::_Serialize(WaveFunction* Psi, std::ostream& os)
+   {
+      Psi->Serialize(os);
+
+      WFMultistate* wfm = dynamic_cast<WFMultistate*>(Psi);
+
+      if (wfm != NULL)
+         for (lint i=0; i < wfm->States(); i++)
+            _Serialize(wfm->State(i), os);
+   }
+
+   /**
+    * Counterpart of _Serialize.
+    */
+   void WFBuffer::_DeSerialize(WaveFunction* Psi, std::istream& is)
+   {
+      Psi->DeSerialize(is);
+
+      WFMultistate* wfm = dynamic_cast<WFMultistate*>(Psi);
+
+      if (wfm != NULL)
+         for (lint i=0; i < wfm->States(); i++)
+            _DeSerialize(wfm->State(i), is);
+   }
+
    /**
     * Copy a membuf element into the disk buffer.
     */
@@ -124,7 +156,7 @@ namespace QDLIB {
             // Dump to file
             ofstream file;
             file.open(_GetFileName(i).c_str(), ios_base::trunc);
-            _buf[i].Psi->Serialize(file); // TODO: Error checking!!
+            _Serialize(_buf[i].Psi, file); // TODO: Error checking!!
             file.close();
 
             // Book keeping
@@ -150,7 +182,7 @@ namespace QDLIB {
 
       ifstream file;
       file.open(_GetFileName(pos).c_str());
-      _buf[pos].Psi->DeSerialize(file); // TODO: Error checking!!
+      _DeSerialize(_buf[pos].Psi, file); // TODO: Error checking!!
       file.close();
       
       _ondisk--;
diff --git a/src/qdlib/WFBuffer.h b/src/qdlib/WFBuffer.h
index 82193db..2485f0d 100644
--- a/src/qdlib/WFBuffer.h
+++ b/src/qdlib/WFBuffer.h
@@ -54,6 +54,8 @@ namespace QDLIB {
 
          WaveFunction* _ValidEntry();
          bool _IsLocked(size_t mempos);
+         void _Serialize(WaveFunction* Psi, std::ostream& os);
+         void _DeSerialize(WaveFunction* Psi, std::istream& is);
          void _MoveToDisk();
          void _MoveToMem(size_t pos);
          string _GetFileName(size_t pos);
diff --git a/src/qdlib/WFMultistate.cpp b/src/qdlib/WFMultistate.cpp
index c14dfd9..a0abc8e 100644
--- a/src/qdlib/WFMultistate.cpp
+++ b/src/qdlib/WFMultistate.cpp
@@ -276,6 +276,16 @@ namespace QDLIB
    }
 
 
+   size_t WFMultistate::size_bytes()
+   {
+      size_t bytes = 0;
+
+      for(lint i=0; i < _nstates; i++)
+         bytes += _states[i]->size_bytes();
+
+      return bytes;
+   }
+
    void WFMultistate::Serialize (std::ostream& os)
    {
       // Just write the number of states here.
diff --git a/src/qdlib/WFMultistate.h b/src/qdlib/WFMultistate.h
index c3f11f2..1e06033 100644
--- a/src/qdlib/WFMultistate.h
+++ b/src/qdlib/WFMultistate.h
@@ -61,6 +61,8 @@ namespace QDLIB
 
          virtual void Reaquire();
 
+         virtual size_t size_bytes();
+
          virtual void Serialize (std::ostream& os);
 
          virtual void DeSerialize (std::istream& is);
-- 
2.43.0


From ad162508ac4f5e8ea1f87be60b5faf815a5ca169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:13 +0000
Subject: [PATCH 13/64] fix: WFBuffer ignored failing backing files and
 returned uninitialised or stale wave functions

---
 src/qdlib/WFBuffer.cpp | 65 +++++++++++++++++++++++++++++++-----------
 1 file changed, 48 insertions(+), 17 deletions(-)

diff --git a/src/qdlib/WFBuffer.cpp b/src/qdlib/WFBuffer.cpp
index 18c775a..8a71433 100644
--- a/src/qdlib/WFBuffer.cpp
+++ b/src/qdlib/WFBuffer.cpp
@@ -154,10 +154,27 @@ namespace QDLIB {
          if (_buf[i].Psi != NULL && !_buf[i].Locked){ /* This is an Element in memory */
 
             // Dump to file
+            string name = _GetFileName(i);
             ofstream file;
-            file.open(_GetFileName(i).c_str(), ios_base::trunc);
-            _Serialize(_buf[i].Psi, file); // TODO: Error checking!!
-            file.close();
+            file.open(name.c_str(), ios_base::trunc);
+
+            if (! file.is_open())
+               throw(EIOError("WFBuffer: Can't open buffer file", name));
+
+            bool success = false;
+
+            try {
+               _Serialize(_buf[i].Psi, file);
+               file.close();
+               success = file.good();
+            } catch (EIOError& e) {}
+
+            if (! success) { /* The element stays in memory. Don't leave a partial file behind */
+               if (file.is_open()) file.close();
+               unlink(name.c_str());
+               _buf[i].ondisk = false;
+               throw(EIOError("WFBuffer: Writing to buffer file failed", name));
+            }
 
             // Book keeping
             _ondisk++;
@@ -176,15 +193,27 @@ namespace QDLIB {
     */
    void WFBuffer::_MoveToMem(size_t pos)
    {
-      /* Initialize buffer position */
-      if (_buf[pos].Psi == NULL)
-         _buf[pos].Psi = _ValidEntry()->NewInstance();
-
+      string name = _GetFileName(pos);
       ifstream file;
-      file.open(_GetFileName(pos).c_str());
-      _DeSerialize(_buf[pos].Psi, file); // TODO: Error checking!!
-      file.close();
-      
+      file.open(name.c_str());
+
+      if (! file.is_open())
+         throw(EIOError("WFBuffer: Can't open buffer file", name));
+
+      WaveFunction* psi = _ValidEntry()->NewInstance();
+
+      /* The element counts as loaded only if it was read completely */
+      try {
+         _DeSerialize(psi, file);
+
+         if (file.fail())
+            throw(EIOError("WFBuffer: Reading from buffer file failed", name));
+      } catch (...) {
+         DELETE_WF(psi);
+         throw;
+      }
+
+      _buf[pos].Psi = psi;
       _ondisk--;
    }
 
@@ -197,13 +226,13 @@ namespace QDLIB {
 
       if (oldsize > size) { /* Reduce size */
          for (size_t i=oldsize-1; i >= size; i--){
-            if (_buf[i].Psi != NULL){ /* Remove wf from memory */
-               DELETE_WF(_buf[i].Psi);
+            if (_buf[i].ondisk) { /* Remove wf from disk buf */
+               if (_buf[i].Psi == NULL) _ondisk--;
+               unlink(_GetFileName(i).c_str());
             }
 
-            if (_buf[i].ondisk) { /* Remove wf from disk buf */
-               FS::Remove(_GetFileName(i));
-               _ondisk--;
+            if (_buf[i].Psi != NULL){ /* Remove wf from memory */
+               DELETE_WF(_buf[i].Psi);
             }
 
             _buf.pop_back(); /* remove last element */
@@ -267,6 +296,8 @@ namespace QDLIB {
             
       if (_buf[pos].Psi == NULL) { /* Create in mem element*/
          _buf[pos].Psi = Psi->NewInstance();
+
+         if (_buf[pos].ondisk) _ondisk--; /* The content on disk is replaced */
       }
       
       *(_buf[pos].Psi) = Psi;
@@ -420,7 +451,7 @@ namespace QDLIB {
 
       while (! _buf.empty() ){
          DELETE_WF(_buf.back().Psi);
-         if (_buf.back().ondisk) FS::Remove(_GetFileName(_buf.size()-1));
+         if (_buf.back().ondisk) unlink(_GetFileName(_buf.size()-1).c_str());
          _buf.pop_back();
       }
       
-- 
2.43.0


From 16a92b01e60ab91b01d9b429465615c1a4ca8a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:38 +0000
Subject: [PATCH 14/64] fix: WFBuffer evicted elements in use, ignored explicit
 locks and exceeded its memory limit

---
 src/qdlib/WFBuffer.cpp | 83 +++++++++++++++++++++++-------------------
 src/qdlib/WFBuffer.h   |  3 +-
 2 files changed, 48 insertions(+), 38 deletions(-)

diff --git a/src/qdlib/WFBuffer.cpp b/src/qdlib/WFBuffer.cpp
index 8a71433..abaf08b 100644
--- a/src/qdlib/WFBuffer.cpp
+++ b/src/qdlib/WFBuffer.cpp
@@ -107,11 +107,20 @@ namespace QDLIB {
          if ( _LastAccess[i] == mempos) return true;
       }
 
-      for (size_t i=0; i < _buf.size(); i++){
-         if (_buf[i].Locked) return true;
-      }
+      return _buf[mempos].Locked;
+   }
 
-      return false;
+   /**
+    * Move elements to disk until there is memory for another wave function.
+    *
+    * \param bytes  The size of the wave function
+    */
+   void WFBuffer::_MakeSpace(size_t bytes)
+   {
+      while (_BytesInMem() + bytes > _MaxBuf){
+         if (! _MoveToDisk() )
+            throw(EMemError("WFBuffer: buffer space execeeded. Increase MaxBufferSize."));
+      }
    }
    
    /**
@@ -147,11 +156,19 @@ namespace QDLIB {
 
    /**
     * Copy a membuf element into the disk buffer.
+    *
+    * The lowest element in memory always stays there.
+    *
+    * \return false if all elements have to stay in memory
     */
-   void WFBuffer::_MoveToDisk()
+   bool WFBuffer::_MoveToDisk()
    {
-      for (size_t i = _buf.size()-1; i > 0; i--){ /* walk through membuf - backwards */
-         if (_buf[i].Psi != NULL && !_buf[i].Locked){ /* This is an Element in memory */
+      size_t first = 0;
+
+      while (first < _buf.size() && _buf[first].Psi == NULL) first++;
+
+      for (size_t i = _buf.size(); i-- > first+1; ){ /* walk through membuf - backwards */
+         if (_buf[i].Psi != NULL && !_IsLocked(i)){ /* This is an Element in memory */
 
             // Dump to file
             string name = _GetFileName(i);
@@ -182,9 +199,11 @@ namespace QDLIB {
             _buf[i].ondisk = true;
             DELETE_WF(_buf[i].Psi);
             _buf[i].Psi = NULL;
-            return;
+            return true;
          }
       }
+
+      return false;
    }
    
    /**
@@ -239,6 +258,7 @@ namespace QDLIB {
          }
 
          /* Clear all locks */
+         for (size_t i=0; i < _buf.size(); i++) _buf[i].Locked = false;
          _LastAccess.clear();
          _locked = 0;
       } else if (oldsize < size) { /* Enlarge */
@@ -284,16 +304,16 @@ namespace QDLIB {
     */
    void WFBuffer::Set(size_t pos, WaveFunction *Psi)
    {
+      /* Ensure we have some space */
+      if (pos >= _buf.size() || _buf[pos].Psi == NULL){
+         _MakeSpace(Psi->size_bytes());
+      }
+
       /* Check for right map size */
       if (pos >= _buf.size()){
          _buf.resize(pos+1);
       }
 
-      /* Ensure we have some space */
-      if (_BytesInMem() >= _MaxBuf){/* Move an element to disk storage */
-         _MoveToDisk();
-      }
-            
       if (_buf[pos].Psi == NULL) { /* Create in mem element*/
          _buf[pos].Psi = Psi->NewInstance();
 
@@ -322,31 +342,18 @@ namespace QDLIB {
       if (pos >= _buf.size())
          throw (EIncompatible("Tried to read invalid WFBuffer element"));
 
-      _buf[pos].Locked = true;
-      
       if (_LastLocks > 0 ) _LastAccess.push_front(pos);
-      if (_LastAccess.size() > _LastLocks) {
-         _buf[_LastAccess.back()].Locked = false;
+      while (_LastAccess.size() > _LastLocks) {
          _LastAccess.pop_back();
       }
 
       if (_buf[pos].Psi == NULL){
-         if (_BytesInMem() >= _MaxBuf) {/* Move an element to disk storage */
-            _MoveToDisk();
-         }
+         _MakeSpace(_ValidEntry()->size_bytes());
 
          if (!_buf[pos].ondisk){ /* This might happen if we request a postion which haven't been written before */
             _buf[pos].Psi = _ValidEntry()->NewInstance();
          } else
             _MoveToMem(pos);
-
-         if (_BytesInMem() >= _MaxBuf) {/* Move an element to disk storage */
-            _MoveToDisk();
-         }
-
-         if (_BytesInMem() > _MaxBuf){
-            throw(EMemError("WFBuffer: buffer space execeeded. Increase MaxBufferSize."));
-         }
       }
 
       return _buf[pos].Psi;
@@ -408,16 +415,11 @@ namespace QDLIB {
     */
    void WFBuffer::Lock(size_t pos)
    {
-      /* try to reduce the size */
-      if (_BytesInMem() >= _MaxBuf){
-         bool locked = _buf[pos].Locked;
-         _buf[pos].Locked = true;
-         _MoveToDisk();
-         _buf[pos].Locked = locked;
-      }
+      if (pos >= _buf.size())
+         throw (EIncompatible("Tried to lock invalid WFBuffer element"));
 
-      if (_BytesInMem() > _MaxBuf)
-         throw (EMemError("Can't lock another wave function to memory. Increase MaxBufferSize"));
+      /* Make sure it is in memory */
+      if (_buf[pos].Psi == NULL) Get(pos);
 
       if (!_buf[pos].Locked) _locked++;
       _buf[pos].Locked = true;
@@ -429,6 +431,9 @@ namespace QDLIB {
     */
    void WFBuffer::UnLock(size_t pos)
    {
+      if (pos >= _buf.size())
+         throw (EIncompatible("Tried to unlock invalid WFBuffer element"));
+
       if (_buf[pos].Locked) _locked--;
       _buf[pos].Locked = false;
    }
@@ -441,6 +446,10 @@ namespace QDLIB {
    void WFBuffer::AutoLock(size_t LastLocks)
    {
       _LastLocks = LastLocks;
+
+      while (_LastAccess.size() > _LastLocks) {
+         _LastAccess.pop_back();
+      }
    }
    
    /**
diff --git a/src/qdlib/WFBuffer.h b/src/qdlib/WFBuffer.h
index 2485f0d..9d85d3a 100644
--- a/src/qdlib/WFBuffer.h
+++ b/src/qdlib/WFBuffer.h
@@ -56,7 +56,8 @@ namespace QDLIB {
          bool _IsLocked(size_t mempos);
          void _Serialize(WaveFunction* Psi, std::ostream& os);
          void _DeSerialize(WaveFunction* Psi, std::istream& is);
-         void _MoveToDisk();
+         bool _MoveToDisk();
+         void _MakeSpace(size_t bytes);
          void _MoveToMem(size_t pos);
          string _GetFileName(size_t pos);
          size_t _BytesInMem();
-- 
2.43.0


From 2b63fc21db850ed0e62887bea13b8ec4bd1acab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:38 +0000
Subject: [PATCH 15/64] fix: WFBuffer crashed when it was resized before its
 first element was set, or to zero

---
 src/qdlib/WFBuffer.cpp | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/qdlib/WFBuffer.cpp b/src/qdlib/WFBuffer.cpp
index abaf08b..f77933c 100644
--- a/src/qdlib/WFBuffer.cpp
+++ b/src/qdlib/WFBuffer.cpp
@@ -244,7 +244,7 @@ namespace QDLIB {
       size_t oldsize = _buf.size();
 
       if (oldsize > size) { /* Reduce size */
-         for (size_t i=oldsize-1; i >= size; i--){
+         for (size_t i=oldsize; i-- > size; ){
             if (_buf[i].ondisk) { /* Remove wf from disk buf */
                if (_buf[i].Psi == NULL) _ondisk--;
                unlink(_GetFileName(i).c_str());
@@ -277,24 +277,20 @@ namespace QDLIB {
             throw (EParamProblem("Not enough memory for WFbuffer available"));
       }
 
+      WaveFunction* wf = _ValidEntry();
+
       /* Have at least one valid entry */
-      if (_buf.size() == 0){
-         _buf.resize(1);
+      if (wf == NULL){
+         if (_buf.size() == 0) _buf.resize(1);
          _buf[0].Psi = Psi->NewInstance();
       } else {
          /* Check for validity */
-         WaveFunction* wf = _ValidEntry();
-
-         if (wf != NULL){
-            if (typeid(Psi) != typeid(wf))
-               throw (EIncompatible("WFBuffer: Incompatible types"));
+         if (typeid(*Psi) != typeid(*wf))
+            throw (EIncompatible("WFBuffer: Incompatible types"));
 
-            if (Psi->size() != wf->size())
-               throw (EIncompatible("WFBuffer: Incompatible types"));
-         }
+         if (Psi->size() != wf->size())
+            throw (EIncompatible("WFBuffer: Incompatible types"));
       }
-
-
    }
    
    /**
@@ -342,6 +338,9 @@ namespace QDLIB {
       if (pos >= _buf.size())
          throw (EIncompatible("Tried to read invalid WFBuffer element"));
 
+      if (_ValidEntry() == NULL)
+         throw (EIncompatible("Tried to read from an empty WFBuffer"));
+
       if (_LastLocks > 0 ) _LastAccess.push_front(pos);
       while (_LastAccess.size() > _LastLocks) {
          _LastAccess.pop_back();
-- 
2.43.0


From 995a4669858056049c938f540c55b4fdcf9636ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:38 +0000
Subject: [PATCH 16/64] fix: two WFBuffers could use the same backing files

---
 src/qdlib/WFBuffer.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/qdlib/WFBuffer.cpp b/src/qdlib/WFBuffer.cpp
index f77933c..f381bb5 100644
--- a/src/qdlib/WFBuffer.cpp
+++ b/src/qdlib/WFBuffer.cpp
@@ -8,6 +8,8 @@
 #include "qdlib/WFMultistate.h"
 
 #include <typeinfo>
+#include <errno.h>
+#include <fcntl.h>
 #include <unistd.h>
 #include <sys/mman.h>
 
@@ -54,15 +56,21 @@ namespace QDLIB {
       int fd = open("/dev/urandom",0);
       if (fd == -1) throw (EIOError("WFBuffer: open /dev/urandom failed"));
       uint32 num;
-      size_t got = read(fd, &num, sizeof(num));
+      ssize_t got;
+
+      do {
+         got = read(fd, &num, sizeof(num));
+      } while (got == -1 && errno == EINTR);
 
-      if (got < sizeof(num)) throw (EIOError("WFBuffer: readin /dev/urandom failed"));
       close(fd);
+      if (got != sizeof(num)) throw (EIOError("WFBuffer: readin /dev/urandom failed"));
 
-      char hex[9];
-      sprintf(hex, "%X", num);
+      /* The random number alone can occur twice. Identify the process and the instance within the process */
+      static unsigned long instances = 0;
+      char id[64];
+      snprintf(id, sizeof(id), "%ld_%lu_%X_", (long) getpid(), instances++, num);
 
-      _fname += hex;
+      _fname += id;
    }
 
 
-- 
2.43.0


From b18e59bda99de8af93e531dc9853fca92ad994c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:10 +0000
Subject: [PATCH 17/64] fix: WFBuffer::ReadFromFiles took every error as the
 end of the series and leaked its work space

---
 src/qdlib/WFBuffer.cpp | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/qdlib/WFBuffer.cpp b/src/qdlib/WFBuffer.cpp
index f381bb5..58e760a 100644
--- a/src/qdlib/WFBuffer.cpp
+++ b/src/qdlib/WFBuffer.cpp
@@ -390,7 +390,7 @@ namespace QDLIB {
    void WFBuffer::ReadFromFiles(const string&  name, int begin, int step, int num)
    {
       FileWF wfile;
-      WaveFunction* psi;
+      WaveFunction* psi = NULL;
       
       /* Init file writer for wf output */
       wfile.Suffix(BINARY_WF_SUFFIX);
@@ -400,19 +400,32 @@ namespace QDLIB {
 
       wfile >> &psi; /* Load and init first wf by meta data */
 
-      Clear(); /* clear the buffer */
+      try {
+         Clear(); /* clear the buffer */
 
-      Add(psi);
+         Add(psi);
 
-      int counter = 1;
+         int counter = 1;
+
+         while (counter < num || num == -1){
+            if (num == -1) { /* The series ends where the next file is missing */
+               stringstream ss;
+               ss << "_" << begin + counter * step << BINARY_WF_SUFFIX;
+
+               if (! FS::IsFile(name + ss.str()) && ! FS::IsFile(name + "-0" + ss.str()))
+                  break;
+            }
 
-      try {
-         while (counter < num || num == -1){ /* Run loop until something fails => must be the end of the wf-series (this is dirty) */
             wfile >> psi;
             Add(psi);
             counter++;
          }
-      } catch (EIOError& e) {}
+      } catch (...) {
+         DELETE_WF(psi);
+         throw;
+      }
+
+      DELETE_WF(psi);
    }
   
   
-- 
2.43.0


From 5f64e36a9948d71855369ed07d276fced581b9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:00 +0000
Subject: [PATCH 18/64] fix: GET_GLOBAL_PARAMS, GET_EXPEC and GET_MATEL could
 not send their answers

---
 src/CmdHandler.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/CmdHandler.cpp b/src/CmdHandler.cpp
index 8580ad2..47a958c 100644
--- a/src/CmdHandler.cpp
+++ b/src/CmdHandler.cpp
@@ -41,6 +41,10 @@ namespace QDLIB
 
    void CmdHandler::send_response(Response& resp)
    {
+      // These fields are required by the protocol
+      if (!resp.has_response()) resp.set_response(Response_response_t_OK);
+      if (!resp.has_data_follows()) resp.set_data_follows(false);
+
       uint32_t msg_size = resp.ByteSize();
 
       sout_->write(reinterpret_cast<char*>(&msg_size), sizeof(msg_size));
@@ -50,6 +54,8 @@ namespace QDLIB
 
       sout_->flush();
 
+      if (sout_->fail())
+         throw(EIOError("Couldn't send response to last command"));
    }
 
    void CmdHandler::send_OK(bool data_follows)
-- 
2.43.0


From 97d059b349221ee17b6ffe6f73429e1462de3089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:00 +0000
Subject: [PATCH 19/64] fix: the command server crashed or executed leftovers
 when the connection ended

---
 src/CmdHandler.cpp | 11 ++++++++++-
 src/CmdHandler.h   |  2 ++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/CmdHandler.cpp b/src/CmdHandler.cpp
index 47a958c..25916c9 100644
--- a/src/CmdHandler.cpp
+++ b/src/CmdHandler.cpp
@@ -246,7 +246,7 @@ namespace QDLIB
    /**
     * Initialize interactive mode with given I/O streams to exchange commands.
     */
-   CmdHandler::CmdHandler(istream& in, ostream& out) : fifo_(NULL), sin_(&in), sout_(&out)
+   CmdHandler::CmdHandler(istream& in, ostream& out) : buffer(NULL), fifo_(NULL), sin_(&in), sout_(&out)
    {
       // this is a dummy, make sure fft handler is up early.
       // fixes the problem of segfaults in the destruction process.
@@ -796,11 +796,20 @@ namespace QDLIB
          log.coutdbg() << "Waiting for input.." << endl;
          log.flush();
          sin_->read(reinterpret_cast<char*>(&msg_size), sizeof(msg_size));
+         if (sin_->fail())
+            throw (EIOError("Connection lost while waiting for a command"));
+
          log.coutdbg() << "msg_size: " << msg_size << endl;
 
+         if (msg_size > CMD_MAX_SIZE)
+            throw (EParamProblem("Size of command is invalid"));
+
          buffer = new char[msg_size];
          sin_->read(reinterpret_cast<char*>(buffer), msg_size);
 
+         if (sin_->fail())
+            throw (EIOError("Connection lost while receiving a command"));
+
          if ( !cmd.ParseFromArray(buffer, msg_size) )
             throw (EParamProblem("Parsing the command from input failed"));
 
diff --git a/src/CmdHandler.h b/src/CmdHandler.h
index f634308..b12de8d 100644
--- a/src/CmdHandler.h
+++ b/src/CmdHandler.h
@@ -24,6 +24,8 @@
 
 using namespace std;
 
+#define CMD_MAX_SIZE (64*1024*1024)  /* Upper limit for the size of a command message */
+
 namespace QDLIB
 {
 
-- 
2.43.0


From e2dd40c29683ae170fbca871a599a99bd762e150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:00 +0000
Subject: [PATCH 20/64] fix: commands that failed were answered twice, with
 success or crashed the command server

---
 src/CmdHandler.cpp | 54 ++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 45 insertions(+), 9 deletions(-)

diff --git a/src/CmdHandler.cpp b/src/CmdHandler.cpp
index 25916c9..6ca411e 100644
--- a/src/CmdHandler.cpp
+++ b/src/CmdHandler.cpp
@@ -386,6 +386,7 @@ namespace QDLIB
       file.Name(cmd.param_s1());
 
       WaveFunction* wf = get_wf(file);
+      if (wf == NULL) return; // error has been sent
 
       // Write to stream
       file.Compress(false);
@@ -418,7 +419,8 @@ namespace QDLIB
       file.SetInputStream(*sin_);
 
       WaveFunction* wf = get_wf(file);
-      if (wf == NULL) return;
+      if (wf == NULL)
+         throw(EIOError("Receiving the wave function failed"));
 
       // Set compression
       if (cmd.has_param_s2()){
@@ -576,6 +578,7 @@ namespace QDLIB
 
       if (!cmd.has_param_s1()){
          send_error_message("SET_GLOBAL_PARAMS is missing key/values");
+         return;
       }
 
       ParamContainer pm;
@@ -615,24 +618,32 @@ namespace QDLIB
 
    void CmdHandler::cmd_load_op(Command& cmd)
    {
-      if (!cmd.has_xml())
+      if (!cmd.has_xml()) {
          send_error_message("LOAD_OP is missing a XML operator definition");
+         return;
+      }
 
-      get_operator_from_command(cmd);
+      if (get_operator_from_command(cmd) == NULL) return;
 
       send_OK(false);
    }
 
    void CmdHandler::cmd_load_U(Command& cmd)
    {
-      if (!cmd.has_xml())
+      if (!cmd.has_xml()) {
          send_error_message("LOAD_U is missing a XML operator definition");
+         return;
+      }
 
-      if (!cmd.has_param_d1())
+      if (!cmd.has_param_d1()) {
          send_error_message("LOAD_U is missing a time step");
+         return;
+      }
 
-      if (!cmd.has_param_d2())
+      if (!cmd.has_param_d2()) {
          send_error_message("LOAD_U is missing  Nt");
+         return;
+      }
 
       try {
           XmlParser XMLfile;
@@ -663,6 +674,7 @@ namespace QDLIB
    {
       // Load Operator
       Operator* Op = get_operator_from_command(cmd);
+      if (Op == NULL) return; // error has been sent
 
       // Chose time step
       if (cmd.has_param_d1()){
@@ -690,6 +702,8 @@ namespace QDLIB
       file.SetInputStream(*sin_);
 
       WaveFunction* wf = get_wf(file);
+      if (wf == NULL)
+         throw(EIOError("Receiving the wave function failed"));
 
       // Send Response
       try {
@@ -721,23 +735,36 @@ namespace QDLIB
       file.SetInputStream(*sin_);
 
       WaveFunction* bra = get_wf(file);
+      if (bra == NULL)
+         throw(EIOError("Receiving the wave function failed"));
+
       WaveFunction* ket = get_wf(file);
+      if (ket == NULL)
+         throw(EIOError("Receiving the wave function failed"));
+
+      if (Op == NULL) { // error has been sent
+         DELETE_WF(bra);
+         DELETE_WF(ket);
+         return;
+      }
 
       // Send Response
+      dcomplex res;
+
       try {
          if (!Op->Valid(bra)) Op->Init(bra);
          if (!Op->Valid(bra) || !Op->Valid(ket)) {
             send_error_message("Operator initialized with incompatible wfs");
             return;
          }
+
+         res = Op->MatrixElement(bra, ket);
       } catch (Exception& e) {
          send_error_message(e.GetMessage());
          throw(e);
       }
 
       // Send response
-      dcomplex res = Op->MatrixElement(bra, ket);
-
       Response resp;
       resp.set_response(Response_response_t_OK);
       resp.add_result(res.real());
@@ -752,6 +779,7 @@ namespace QDLIB
    {
       // Load Operator
       Operator* Op = get_operator_from_command(cmd);
+      if (Op == NULL) return; // error has been sent
 
       send_OK(false);
 
@@ -760,23 +788,31 @@ namespace QDLIB
       file.SetInputStream(*sin_);
 
       WaveFunction* bk = get_wf(file);
+      if (bk == NULL)
+         throw(EIOError("Receiving the wave function failed"));
 
       // Send Response
+      double res;
+
       try {
          if (!Op->Valid(bk)) Op->Init(bk);
          if (!Op->Valid(bk)) {
             send_error_message("Operator initialized with incompatible wfs");
             return;
          }
+
+         res = Op->Expec(bk);
       } catch (Exception& e) {
          send_error_message(e.GetMessage());
+         throw(e);
       }
 
-      double res = Op->Expec(bk);
       Response resp;
       resp.set_response(Response_response_t_OK);
       resp.add_result(res);
       send_response(resp);
+
+      DELETE_WF(bk);
    }
 
    /**
-- 
2.43.0


From 58cb0c908e8553e9e016676db2ba6b7b87d4a8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:08 +0000
Subject: [PATCH 21/64] fix: lasers and matrix operators could not be written
 through the command server

---
 src/qdlib/Laser.h            | 3 ++-
 src/qdlib/OHermitianMatrix.h | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/qdlib/Laser.h b/src/qdlib/Laser.h
index 9cb6929..1bb0be2 100644
--- a/src/qdlib/Laser.h
+++ b/src/qdlib/Laser.h
@@ -5,6 +5,7 @@
 #ifndef LASER_H
 #define LASER_H
 
+#include "qdlib/Serializable.h"
 #include "math/typedefs.h"
 #include "tools/ParamContainer.h"
 #include "tools/QDClock.h"
@@ -17,7 +18,7 @@ namespace QDLIB
    /**
     * Class which represents a laser field.
     */
-   class Laser : public dVec
+   class Laser : public dVec, public Serializiable
    {
       public:
          typedef FileSingle<Laser> FileLaser;
diff --git a/src/qdlib/OHermitianMatrix.h b/src/qdlib/OHermitianMatrix.h
index 7fa0f50..e36c95d 100644
--- a/src/qdlib/OHermitianMatrix.h
+++ b/src/qdlib/OHermitianMatrix.h
@@ -6,6 +6,7 @@
 #define OHERMAT_H
 
 #include "qdlib/ODSpace.h"
+#include "qdlib/Serializable.h"
 #include "tools/FileSingle.h"
 #include "qdlib/TransformMat.h"
 
@@ -25,7 +26,7 @@ namespace QDLIB
     *
     * \todo modify matrix classes to provide real, efficient hermitian matrices.
     */
-   class OHermitianMatrix: public dMat, public ODSpace
+   class OHermitianMatrix: public dMat, public ODSpace, public Serializiable
    {
       public:
          typedef FileSingle<OHermitianMatrix> FileMatrix;
@@ -81,6 +82,8 @@ namespace QDLIB
 
          OHermitianMatrix& operator=(OHermitianMatrix &O);
 
+         virtual ParamContainer& Params() { return Operator::Params(); }
+
          virtual void Serialize (std::ostream& os);
 
          virtual void DeSerialize (std::istream& is);
-- 
2.43.0


From aef559836c2888dd9307d1a8109f7b28f434a44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:08 +0000
Subject: [PATCH 22/64] fix: READ_OP and WRITE_OP with an unknown class ended
 the session without an answer

---
 src/CmdHandler.cpp | 52 ++++++++++++++++++++++++++++------------------
 1 file changed, 32 insertions(+), 20 deletions(-)

diff --git a/src/CmdHandler.cpp b/src/CmdHandler.cpp
index 6ca411e..4afdc0c 100644
--- a/src/CmdHandler.cpp
+++ b/src/CmdHandler.cpp
@@ -457,16 +457,23 @@ namespace QDLIB
          return;
       }
 
-      Operator* op = ModuleLoader<Operator>::Instance()->Load(cmd.param_s2());
+      Operator* op = NULL;
+      Serializiable* ser = NULL;
 
-      if (op == NULL)
-         throw(EParamProblem("Operator module not found"));
+      try {
+         op = ModuleLoader<Operator>::Instance()->Load(cmd.param_s2());
 
+         if (op == NULL)
+            throw(EParamProblem("Operator module not found"));
 
-      Serializiable* ser = dynamic_cast<Serializiable*>(op);
+         ser = dynamic_cast<Serializiable*>(op);
 
-      if (ser == NULL)
-         throw(EIncompatible("Not a serializable object", op->Name()));
+         if (ser == NULL)
+            throw(EIncompatible("Not a serializable object", op->Name()));
+      } catch (Exception& e) {
+         send_error_message(e.GetMessage());
+         return;
+      }
 
       // Read Operator from file
       FileSingle<Serializiable> file;
@@ -513,25 +520,30 @@ namespace QDLIB
       Laser* laser=NULL;
       Serializiable* ser;
 
-      if (cmd.param_s2() == "Laser") {
-         laser = new Laser();
-         ser = dynamic_cast<Serializiable*>(laser);
-      } else {
-         string op_name(cmd.param_s2());
-         if (op_name.length() == 0)
-            throw(EParamProblem("Empty operator name"));
+      try {
+         if (cmd.param_s2() == "Laser") {
+            laser = new Laser();
+            ser = laser;
+         } else {
+            string op_name(cmd.param_s2());
+            if (op_name.length() == 0)
+               throw(EParamProblem("Empty operator name"));
 
-         if (op_name[0] == 'O') op_name.erase(0, 1); // Kill the leading O
+            if (op_name[0] == 'O') op_name.erase(0, 1); // Kill the leading O
 
-         op = ModuleLoader<Operator>::Instance()->Load(op_name);
+            op = ModuleLoader<Operator>::Instance()->Load(op_name);
 
-         if (op == NULL)
-            throw(EParamProblem("Operator module not found"));
+            if (op == NULL)
+               throw(EParamProblem("Operator module not found"));
 
-         ser = dynamic_cast<Serializiable*>(op);
+            ser = dynamic_cast<Serializiable*>(op);
 
-         if (ser == NULL)
-            throw(EIncompatible("Not a serializable object", op->Name()));
+            if (ser == NULL)
+               throw(EIncompatible("Not a serializable object", op->Name()));
+         }
+      } catch (Exception& e) {
+         send_error_message(e.GetMessage());
+         return;
       }
 
       send_OK(false);
-- 
2.43.0


From cd533c3d24117b2aa961aca8b6d53e327fb73f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:34 +0000
Subject: [PATCH 23/64] fix: CLEAR_OBJECTS kept all loaded operators, with
 dangling clocks

---
 src/CmdHandler.cpp   | 2 +-
 src/GlobalOpList.cpp | 6 ++++--
 src/GlobalOpList.h   | 2 +-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/CmdHandler.cpp b/src/CmdHandler.cpp
index 4afdc0c..2869446 100644
--- a/src/CmdHandler.cpp
+++ b/src/CmdHandler.cpp
@@ -623,7 +623,7 @@ namespace QDLIB
     */
    void CmdHandler::cmd_clear_objects()
    {
-      GlobalOpList::Instance().Clear();
+      GlobalOpList::Instance().Clear(true); // they have been loaded as persistent
       Collector<QDClock>::Instance()->Delete();
       send_OK(false);
    }
diff --git a/src/GlobalOpList.cpp b/src/GlobalOpList.cpp
index 1b26364..d4c385a 100644
--- a/src/GlobalOpList.cpp
+++ b/src/GlobalOpList.cpp
@@ -208,14 +208,16 @@ namespace QDLIB {
 
    /**
     * Clear the Operators in the storage, but leave persistent Ops untouched.
+    *
+    * \param persistent Clear also the persistent Ops.
     */
-   void QDLIB::GlobalOpList::Clear()
+   void QDLIB::GlobalOpList::Clear(bool persistent)
    {
       map<string, _OpEntry>::iterator it;
 
       it = _OpStore.begin();
       while ( it != _OpStore.end() ) {
-         if ( ! ((*it).second).persist ) {
+         if ( persistent || ! ((*it).second).persist ) {
             DELETE_OP(((*it).second).Op);
             _OpStore.erase(it);
             it = _OpStore.begin(); /* iterator is now invalid => start over */
diff --git a/src/GlobalOpList.h b/src/GlobalOpList.h
index 4ee35d1..bb350a1 100644
--- a/src/GlobalOpList.h
+++ b/src/GlobalOpList.h
@@ -43,7 +43,7 @@ namespace QDLIB {
          static GlobalOpList& Instance();
          static void Destroy();
          
-         void Clear();
+         void Clear(bool persistent = false);
          
          void Add(string &key, Operator* op, bool persist = false);
          
-- 
2.43.0


From b6d4ca3572dbcdeff9023c824777cc6580897f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:29 +0000
Subject: [PATCH 24/64] fix: READ_WF and APPLY_OP wrote their answer to disk
 when wf_format=binary was set

READ_WF even overwrote the file it had just read. APPLY_OP also reduced
the result when lossy compression of stored wave functions was enabled.
---
 src/CmdHandler.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/CmdHandler.cpp b/src/CmdHandler.cpp
index 2869446..04444b1 100644
--- a/src/CmdHandler.cpp
+++ b/src/CmdHandler.cpp
@@ -391,7 +391,7 @@ namespace QDLIB
       // Write to stream
       file.Compress(false);
       file.SetOutputStream(*sout_);
-      file.Format(FileSingle<WaveFunction>::stream);
+      file.FormatOut(FileSingle<WaveFunction>::stream);
 
       // The format in the stream is as follows:
       // In case of success the file is sent which can
@@ -731,7 +731,9 @@ namespace QDLIB
       }
 
       // Send back WF
+      file.Compress(false);
       file.SetOutputStream(*sout_);
+      file.Format(FileSingle<WaveFunction>::stream);
       put_wf_to_stream(file, wf);
 
       DELETE_WF(wf);
-- 
2.43.0


From 8d5184142c8c3afcf8e70c1649677490f40696fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:29 +0000
Subject: [PATCH 25/64] fix: unparsable and unimplemented commands ended the
 session without an answer

---
 src/CmdHandler.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/CmdHandler.cpp b/src/CmdHandler.cpp
index 04444b1..d82b645 100644
--- a/src/CmdHandler.cpp
+++ b/src/CmdHandler.cpp
@@ -733,7 +733,7 @@ namespace QDLIB
       // Send back WF
       file.Compress(false);
       file.SetOutputStream(*sout_);
-      file.Format(FileSingle<WaveFunction>::stream);
+      file.FormatOut(FileSingle<WaveFunction>::stream);
       put_wf_to_stream(file, wf);
 
       DELETE_WF(wf);
@@ -860,8 +860,10 @@ namespace QDLIB
          if (sin_->fail())
             throw (EIOError("Connection lost while receiving a command"));
 
-         if ( !cmd.ParseFromArray(buffer, msg_size) )
+         if ( !cmd.ParseFromArray(buffer, msg_size) ) {
+            send_error_message("Parsing the command from input failed");
             throw (EParamProblem("Parsing the command from input failed"));
+         }
 
          log.cout() << "cmd_type: "
                   << cmd.command_t_descriptor()->FindValueByNumber(cmd.cmd())->name() << endl;
@@ -915,8 +917,8 @@ namespace QDLIB
                cmd_apply_op(cmd);
                break;
             default:
-               throw(EParamProblem("Unknown command code: ", cmd.cmd()));
-            break;
+               send_error_message("Command is not implemented");
+               break;
          }
 
          log.cout() << "completed\n";
-- 
2.43.0


From 3b8aeb206c6f77db7ff671e04f9c7e40c58a6f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:18 +0000
Subject: [PATCH 26/64] fix: some errors were thrown as plain strings and
 terminated the program

---
 src/ChainLoader.cpp     | 4 ++--
 src/qdlib/OGridGMat.cpp | 2 +-
 src/qdlib/ORK4.cpp      | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ChainLoader.cpp b/src/ChainLoader.cpp
index cfaa673..0c092d7 100644
--- a/src/ChainLoader.cpp
+++ b/src/ChainLoader.cpp
@@ -64,7 +64,7 @@ namespace QDLIB
 	    if (osub == NULL)
 	       throw ( EParamProblem("Can't load operator") );
 	    if ( (gsub = dynamic_cast<OGridSystem*>(osub) ) == NULL )
-	       throw ( EIncompatible("Tried to load into GridSum"), osub->Name() );
+	       throw ( EIncompatible("Tried to load into GridSum", osub->Name()) );
 	    sum->Add( gsub );
 	    child->NextNode();
 	 }
@@ -451,7 +451,7 @@ namespace QDLIB
       OPropagator* U = dynamic_cast<OPropagator*>(O);
 
       if (U == NULL)
-         throw (EIncompatible("This is not a propagator!"), O->Name());
+         throw (EIncompatible("This is not a propagator!", O->Name()));
 
       return U;
    }
diff --git a/src/qdlib/OGridGMat.cpp b/src/qdlib/OGridGMat.cpp
index 750c8be..6a7bac5 100644
--- a/src/qdlib/OGridGMat.cpp
+++ b/src/qdlib/OGridGMat.cpp
@@ -58,7 +58,7 @@ namespace QDLIB {
       WFGridSystem *psi = dynamic_cast<WFGridSystem*>(Psi);
 
       if (psi == NULL)
-         throw (EIncompatible ("Psi not a WFGridSystem"), Psi->Name() );
+         throw (EIncompatible ("Psi not a WFGridSystem", Psi->Name()) );
 
       if (buf != NULL) return;  // Avoid init twice
 
diff --git a/src/qdlib/ORK4.cpp b/src/qdlib/ORK4.cpp
index 8c25996..01744e4 100644
--- a/src/qdlib/ORK4.cpp
+++ b/src/qdlib/ORK4.cpp
@@ -111,7 +111,7 @@ namespace QDLIB
 
       o = dynamic_cast<ORK4*>(O);
       if (o == NULL)
-         throw (EIncompatible("ORK4: Can't copy operator"), O->Name());
+         throw (EIncompatible("ORK4: Can't copy operator", O->Name()));
 
 
       OPropagator::Copy(O);
-- 
2.43.0


From 4cb3e24b15aa3da8f2f342745ff3e857c81e89a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:18 +0000
Subject: [PATCH 27/64] fix: applying uninitialised operators and propagators
 through the command server crashed it

Valid() of Scalar, Projection and the propagators dereferenced objects that
only exist after Init(), or accepted wave functions their work space does
not fit. Propagators without a clock are refused.
---
 src/CmdHandler.cpp        | 6 ++++++
 src/qdlib/OArnoldi.cpp    | 4 +++-
 src/qdlib/OCheby.cpp      | 3 +++
 src/qdlib/OGSPO.cpp       | 5 +++--
 src/qdlib/OProjection.cpp | 2 +-
 src/qdlib/ORK4.cpp        | 3 +++
 src/qdlib/OSIL.cpp        | 3 ++-
 src/qdlib/OSPO.cpp        | 3 ++-
 src/qdlib/OScalar.cpp     | 2 +-
 9 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/CmdHandler.cpp b/src/CmdHandler.cpp
index d82b645..41ad890 100644
--- a/src/CmdHandler.cpp
+++ b/src/CmdHandler.cpp
@@ -706,6 +706,12 @@ namespace QDLIB
          cl->TimeStep(t);
       }
 
+      // A propagator can't work without a clock
+      if (dynamic_cast<OPropagator*>(Op) != NULL && Op->Clock() == NULL) {
+         send_error_message("Operator has no clock");
+         return;
+      }
+
       send_OK(true);
 
       // Receive WF
diff --git a/src/qdlib/OArnoldi.cpp b/src/qdlib/OArnoldi.cpp
index a39e7ff..ee4445c 100644
--- a/src/qdlib/OArnoldi.cpp
+++ b/src/qdlib/OArnoldi.cpp
@@ -243,7 +243,9 @@ namespace QDLIB
 
    bool OArnoldi::Valid(WaveFunction * Psi)
    {
-      if (H == NULL)
+      if (Psi == NULL || buf0 == NULL || H == NULL)
+         return false;
+      if (Psi->size() != buf0->size() || Psi->strides() != buf0->strides())
          return false;
 
       return H->Valid(Psi);
diff --git a/src/qdlib/OCheby.cpp b/src/qdlib/OCheby.cpp
index a52cf6a..ad60512 100644
--- a/src/qdlib/OCheby.cpp
+++ b/src/qdlib/OCheby.cpp
@@ -494,6 +494,9 @@ namespace QDLIB
 
    bool OCheby::Valid(WaveFunction * Psi)
    {
+      if (Psi == NULL || ket0 == NULL) return false;
+      if (Psi->size() != ket0->size() || Psi->strides() != ket0->strides()) return false;
+
       return H->Valid(Psi);
    }
 
diff --git a/src/qdlib/OGSPO.cpp b/src/qdlib/OGSPO.cpp
index 2fd0f6e..4881cb6 100644
--- a/src/qdlib/OGSPO.cpp
+++ b/src/qdlib/OGSPO.cpp
@@ -166,14 +166,15 @@ namespace QDLIB
 
    bool OGSPO::Valid(WaveFunction *Psi)
    {
-      bool valid = false;
+      if (Psi == NULL || _exp[0].size() == 0) return false;
+      if (Psi->size() != _exp[0].size() || Psi->strides() != _exp[0].strides()) return false;
 
       for (int i = 0; i < _spoLen; i++) {
          if (_ops[i]->Valid(Psi) == false)
             return false;
       }
 
-      return valid;
+      return true;
    }
 
 }
diff --git a/src/qdlib/OProjection.cpp b/src/qdlib/OProjection.cpp
index 52a1613..515664e 100644
--- a/src/qdlib/OProjection.cpp
+++ b/src/qdlib/OProjection.cpp
@@ -151,7 +151,7 @@ namespace QDLIB {
 
    bool OProjection::Valid(WaveFunction * Psi)
    {
-      if ( Psi == NULL ) return false;
+      if ( Psi == NULL || _buf == NULL ) return false;
       
       if (_buf->size() != Psi->size() ) return false;
       
diff --git a/src/qdlib/ORK4.cpp b/src/qdlib/ORK4.cpp
index 01744e4..a775851 100644
--- a/src/qdlib/ORK4.cpp
+++ b/src/qdlib/ORK4.cpp
@@ -126,6 +126,9 @@ namespace QDLIB
 
    bool ORK4::Valid(WaveFunction *Psi)
    {
+      if (Psi == NULL || _buf[0] == NULL) return false;
+      if (Psi->size() != _buf[0]->size() || Psi->strides() != _buf[0]->strides()) return false;
+
       return H->Valid(Psi);
    }
 
diff --git a/src/qdlib/OSIL.cpp b/src/qdlib/OSIL.cpp
index 325e7e8..10f09e0 100644
--- a/src/qdlib/OSIL.cpp
+++ b/src/qdlib/OSIL.cpp
@@ -228,7 +228,8 @@ namespace QDLIB {
 
     bool QDLIB::OSIL::Valid(WaveFunction * Psi)
     {
-        if (H == NULL) return false;
+        if (Psi == NULL || buf0 == NULL || H == NULL) return false;
+        if (Psi->size() != buf0->size() || Psi->strides() != buf0->strides()) return false;
 
         return H->Valid(Psi);
     }
diff --git a/src/qdlib/OSPO.cpp b/src/qdlib/OSPO.cpp
index 3d779d0..b2abc7e 100644
--- a/src/qdlib/OSPO.cpp
+++ b/src/qdlib/OSPO.cpp
@@ -470,7 +470,8 @@ namespace QDLIB {
    {
       bool valid = true;
       
-      if ( Psi == NULL ) return false;
+      if ( Psi == NULL || _buf == NULL ) return false;
+      if ( Psi->size() != _buf->size() || Psi->strides() != _buf->strides() ) return false;
       
       if (_coupling) {
          WFMultistate *wfm = dynamic_cast<WFMultistate*>(Psi);
diff --git a/src/qdlib/OScalar.cpp b/src/qdlib/OScalar.cpp
index 927569e..05ecd6b 100644
--- a/src/qdlib/OScalar.cpp
+++ b/src/qdlib/OScalar.cpp
@@ -80,7 +80,7 @@ namespace QDLIB {
    
    bool OScalar::Valid(WaveFunction * Psi)
    {
-      if ( Psi == NULL ) return false;
+      if ( Psi == NULL || _buf == NULL ) return false;
       if ( Psi->size() != _buf->size() ) return false;
       
       return true;
-- 
2.43.0


From 405a5658e09f0ac89bcb6ca8419fbdc34798a1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:56 +0000
Subject: [PATCH 28/64] fix: combining a grid wave function with one of another
 kind or size crashed

---
 src/qdlib/WFGridCartesian.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/qdlib/WFGridCartesian.cpp b/src/qdlib/WFGridCartesian.cpp
index ddd6d37..29057cd 100644
--- a/src/qdlib/WFGridCartesian.cpp
+++ b/src/qdlib/WFGridCartesian.cpp
@@ -54,7 +54,12 @@ namespace QDLIB {
    WaveFunction * WFGridCartesian::operator =(WaveFunction * Psi)
    {
       /* WFGridSystem already knows what to copy */
-      *((WFGridSystem*) this) = dynamic_cast<WFGridSystem*> (Psi);
+      WFGridSystem* psi = dynamic_cast<WFGridSystem*> (Psi);
+
+      if (psi == NULL)
+         throw ( EIncompatible("Incompatible in assignment", this->Name(), Psi->Name()) );
+
+      *((WFGridSystem*) this) = psi;
       
       return this;
    }
@@ -64,6 +69,9 @@ namespace QDLIB {
       dcomplex c(0,0);
       dcomplex cglob(0,0);
       
+      if (size() != Psi->size() || strides() != Psi->strides())
+         throw ( EIncompatible("WFs differ in size") );
+
       int s;
       lint size = lsize();
       dcomplex *a, *b;
-- 
2.43.0


From 97946582daac1d9faf2252543a453ef2e63496a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:36 +0000
Subject: [PATCH 29/64] fix: qdng read its input file without terminating the
 buffer and looped forever on a read error

---
 src/qdng.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/qdng.cpp b/src/qdng.cpp
index 48b03be..cc7d8f9 100644
--- a/src/qdng.cpp
+++ b/src/qdng.cpp
@@ -8,6 +8,7 @@
 
 #include <iostream>
 #include <cstdlib>
+#include <vector>
 
 #include <time.h>
 #include <sys/times.h>
@@ -117,20 +118,19 @@ void CheckInput(const string &name, string &xml)
       log.cout() << "XML-Input format" << endl;
       fstream infile;
       infile.open(name.c_str(), fstream::in);
+      if (!infile.is_open())
+         throw(EIOError("Can not open input file", name));
 
-      char* buf = (char*) malloc(QDNG_INPUT_BUFFER);
-      size_t size = 0;
+      vector<char> buf(QDNG_INPUT_BUFFER);
 
       /* Read clean XML input */
-      while (! infile.eof() ){
-         if (size > 0) buf = (char*) realloc(buf, size + QDNG_INPUT_BUFFER);
-
-         infile.read(buf+size, QDNG_INPUT_BUFFER);
-
-         size += infile.gcount();
+      xml.clear();
+      while (infile.good()){
+         infile.read(&buf[0], QDNG_INPUT_BUFFER);
+         xml.append(&buf[0], infile.gcount());
       }
-      xml = buf;
-      free(buf);
+      if (infile.bad() || !infile.eof())
+         throw(EIOError("Can not read input file", name));
    }
 
    if (type == QDSXML::UNKNOWN) {
-- 
2.43.0


From a3ef888f5bd681f59923aa0c3ae4fb757c0e008d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:36 +0000
Subject: [PATCH 30/64] fix: RK4 propagator did not hand its clock to a time
 dependent Hamiltonian (crash)

---
 src/qdlib/ORK4.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qdlib/ORK4.cpp b/src/qdlib/ORK4.cpp
index a775851..1864321 100644
--- a/src/qdlib/ORK4.cpp
+++ b/src/qdlib/ORK4.cpp
@@ -41,6 +41,7 @@ namespace QDLIB
       }
 
       OPropagator::Init(Psi);
+      H->Clock(Operator::Clock());
       H->Init(Psi);
    }
 
-- 
2.43.0


From 2639d763217250deb49b6ada33b1ed3f0b36178f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:33 +0000
Subject: [PATCH 31/64] fix: fftw_cleanup at exit ran before the last plans
 were destroyed (use after free)

---
 src/fft/FFTGlobal.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/fft/FFTGlobal.cpp b/src/fft/FFTGlobal.cpp
index 8ba07d2..03bf44c 100644
--- a/src/fft/FFTGlobal.cpp
+++ b/src/fft/FFTGlobal.cpp
@@ -88,12 +88,8 @@ namespace QDLIB {
    {
       FlushWisdom();
 
-      /* Cleanup memory */
-#ifdef _OPENMP
-      fftw_cleanup_threads();
-#else
-      fftw_cleanup();
-#endif
+      /* No fftw_cleanup() here: wave functions which are collected after this
+       * singleton still own plans, and these must not be destroyed after it. */
    }
 
    /**
-- 
2.43.0


From 7237a25dad3abb3c90a574e838d332ce6f10b88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:57 +0000
Subject: [PATCH 32/64] fix: unreadable configuration files were ignored or
 terminated qdng; parameter files needed write permission to be read

---
 src/qdng.cpp                 |  8 ++++++++
 src/tools/GlobalParams.cpp   | 14 +++++++++-----
 src/tools/ParamContainer.cpp |  2 +-
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/qdng.cpp b/src/qdng.cpp
index cc7d8f9..5a9a712 100644
--- a/src/qdng.cpp
+++ b/src/qdng.cpp
@@ -166,6 +166,14 @@ int main(int argc, char **argv)
 #endif
 
    Logger& log = Logger::InstanceRef();
+
+   /* The configuration files are read here */
+   try {
+      GlobalParams::Instance();
+   } catch (Exception &e) {
+      cerr << "Error: " << e.GetMessage() << "\n";
+      exit(EXIT_FAILURE);
+   }
    ParamContainer& gp = GlobalParams::Instance();
 
    bool CmdMode = false; /* interactive command mode */
diff --git a/src/tools/GlobalParams.cpp b/src/tools/GlobalParams.cpp
index 96e6291..111b31e 100644
--- a/src/tools/GlobalParams.cpp
+++ b/src/tools/GlobalParams.cpp
@@ -12,17 +12,21 @@ namespace QDLIB {
    {
       if (_ref == NULL)
       {
-         _ref = new ParamContainer();
+         ParamContainer params;
 
          /* Look for config file in home */
-         string home(getenv("HOME"));
-         if ( FS::IsFile(home + "/" + QD_CONFIG_FILE_HOME) ){
-            _ref->ReadFromFile(home + "/" + QD_CONFIG_FILE_HOME);
+         if (getenv("HOME") != NULL) {
+            string home(getenv("HOME"));
+            home += string("/") + QD_CONFIG_FILE_HOME;
+            if ( FS::IsFile(home) && !params.ReadFromFile(home) )
+               throw ( EIOError("Can not read configuration file", home) );
          }
          if ( FS::IsFile(QD_CONFIG_FILE_LOCAL) ){ /* Look for config in current directory */
-            _ref->ReadFromFile(QD_CONFIG_FILE_LOCAL);
+            if ( !params.ReadFromFile(QD_CONFIG_FILE_LOCAL) )
+               throw ( EIOError("Can not read configuration file", QD_CONFIG_FILE_LOCAL) );
          }
 
+         _ref = new ParamContainer(params);
       }
       return *_ref;
 
diff --git a/src/tools/ParamContainer.cpp b/src/tools/ParamContainer.cpp
index 27167d5..1422246 100644
--- a/src/tools/ParamContainer.cpp
+++ b/src/tools/ParamContainer.cpp
@@ -781,7 +781,7 @@ namespace QDLIB {
    {
       fstream file;
 
-      file.open(name.c_str());           // Open file
+      file.open(name.c_str(), ios_base::in);           // Open file
       if (file.fail()) return false;
 
       Parse(file);
-- 
2.43.0


From 1f6ec51a91c483118eba684d996dd0bf3661bc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:37 +0000
Subject: [PATCH 33/64] fix: objects freed after a failed constructor stayed
 registered and crashed the program at exit

---
 src/qdlib/Operator.h     |  1 +
 src/qdlib/WaveFunction.h |  1 +
 src/tools/Collector.h    | 16 ++++++++++++++++
 3 files changed, 18 insertions(+)

diff --git a/src/qdlib/Operator.h b/src/qdlib/Operator.h
index cbc89fd..b22042d 100644
--- a/src/qdlib/Operator.h
+++ b/src/qdlib/Operator.h
@@ -130,6 +130,7 @@ namespace QDLIB {
 	  */
 	 void operator delete(void *ptr)
 	 {
+	    Collector<Operator>::Instance()->Forget((Operator*) ptr);
 	    free(ptr);
 	 }
 
diff --git a/src/qdlib/WaveFunction.h b/src/qdlib/WaveFunction.h
index 706af0b..d09a8f7 100644
--- a/src/qdlib/WaveFunction.h
+++ b/src/qdlib/WaveFunction.h
@@ -57,6 +57,7 @@ namespace QDLIB {
 
          void operator delete(void *ptr)
          {
+            Collector<WaveFunction>::Instance()->Forget((WaveFunction*) ptr);
             free(ptr);
          }
 
diff --git a/src/tools/Collector.h b/src/tools/Collector.h
index b020e43..c5cca38 100644
--- a/src/tools/Collector.h
+++ b/src/tools/Collector.h
@@ -49,6 +49,7 @@ namespace QDLIB {
 	 void ShowElements();
          void Delete(T* obj);
          void Delete();
+         void Forget(T* obj);
          
    };
 
@@ -164,6 +165,21 @@ namespace QDLIB {
       }
    }
 
+   /**
+    * Remove a pointer from the list without deleting the object.
+    *
+    * Needed if the memory is released elsewhere, e.g. if a constructor has thrown.
+    */
+   template<typename T>
+   void Collector<T>::Forget(T* obj)
+   {
+      if (obj == NULL || _BigClean) return;
+
+      int ind = find(obj);
+      if (ind > -1)
+         _RefCount.erase(_RefCount.begin()+ind);
+   }
+
    /**
     * Delete all pointers in the collector, no matter if there are open references.
     *
-- 
2.43.0


From 4852fa06d1d4c47837ddc0a3ef112e1b10027468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:01 +0000
Subject: [PATCH 34/64] fix: input file type check searched an unterminated
 buffer and leaked its file on errors

---
 src/simpleXml/Simple2Xml.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/simpleXml/Simple2Xml.cpp b/src/simpleXml/Simple2Xml.cpp
index 414491f..009ef0a 100644
--- a/src/simpleXml/Simple2Xml.cpp
+++ b/src/simpleXml/Simple2Xml.cpp
@@ -28,7 +28,7 @@ namespace QDSXML {
    FileType CheckType(const string & name)
    {
       FILE *file;
-      char buf[CHUNK];
+      char buf[CHUNK+1];
       char *ind = NULL;
       size_t size = CHUNK;
       
@@ -38,12 +38,13 @@ namespace QDSXML {
       if (!file)
          throw (QDLIB::EIOError(errno, name) );
       
-      memset( (void*) buf, 0, CHUNK);
+      memset( (void*) buf, 0, CHUNK+1);
       
       /* Read a test chunk */
       size = fread( (void*) buf, 1, CHUNK, file );
       
-      if ( size == 0 ) {
+      if ( size == 0 || ferror(file) ) {
+         fclose(file);
          throw (QDLIB::EIOError("Can't read from file: ", name) );
       }
       
-- 
2.43.0


From 520719299ffdc9960c80fec9cd4c51837e89fde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:51 +0000
Subject: [PATCH 35/64] fix: a spectrum or energy file that could not be
 written terminated qdng or was reported as success

---
 src/ProgEigen.cpp |  4 +++-
 src/Reporter.cpp  | 10 ++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/ProgEigen.cpp b/src/ProgEigen.cpp
index 105a940..45cd5fa 100644
--- a/src/ProgEigen.cpp
+++ b/src/ProgEigen.cpp
@@ -59,7 +59,7 @@ namespace QDLIB
       sn = _dir + _ename;
       try {
 	 enfile.open(sn.c_str());
-	 if (!enfile.is_open()) throw;
+	 if (!enfile.is_open()) throw ( EIOError("Can not open file", sn) );
 
 	 for (int i=0; i < _Nef; i++){
 
@@ -83,8 +83,10 @@ namespace QDLIB
 	    enfile << endl;
 	 }
 	 enfile.close();
+	 if (enfile.fail()) throw ( EIOError("Can not write to file", sn) );
       } catch (...){
 	 log.cout() << "!!! Can't write energy file\n\n";
+	 throw;
       }
    }
 
diff --git a/src/Reporter.cpp b/src/Reporter.cpp
index 7e87690..21aad09 100644
--- a/src/Reporter.cpp
+++ b/src/Reporter.cpp
@@ -77,6 +77,7 @@ namespace QDLIB
       /* Write header */
       if (_step == 0){
  	 _specbuf.newsize(clock->Steps());
+ 	 _specbuf = dcomplex(0);
 	 log.cout() << "Step\tTime[au]";
 	 if (_norm) log.cout() << "\tPopulation";
 	 if (_multistate && _norm){
@@ -160,6 +161,10 @@ namespace QDLIB
    void Reporter::WriteSpectrum(cVec &correllation, double dt, const string& name)
    {      
       Logger& log = Logger::InstanceRef();
+
+      if (correllation.size() == 0)
+         throw ( EParamProblem("No data for the auto correlation spectrum") );
+
       cVec spec(correllation.size());
       FFT fftw(correllation, spec,true);
       ofstream ofile;
@@ -167,7 +172,7 @@ namespace QDLIB
       /* Autocorellation power spectrum */
       try {
        ofile.open(name.c_str());
-       if (!ofile.is_open()) throw;
+       if (!ofile.is_open()) throw ( EIOError("Can not open file", name) );
        
        fftw.forward();
        
@@ -186,9 +191,10 @@ namespace QDLIB
                    "\t" << spec[i].imag() / (N/2) << endl;
        }
        ofile.close();
+       if (ofile.fail()) throw ( EIOError("Can not write to file", name) );
        log.cout() << "Autocorellation power spectrum written to file: " << name.c_str() << endl << endl;
       }  catch (...)
-      {log.cout() << "!!! Can't write auto correlation spectrum\n\n";}
+      {log.cout() << "!!! Can't write auto correlation spectrum\n\n"; throw;}
    }
    
 
-- 
2.43.0


From b3ee82e983680fcda571728539658a6061f62793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:51 +0000
Subject: [PATCH 36/64] fix: expectation value and redirected log files that
 could not be written completely were reported as success

---
 src/FiltersList.cpp  | 16 ++++++++++++++++
 src/FiltersList.h    |  2 ++
 src/ProgFilter.cpp   |  1 +
 src/ProgPropa.cpp    |  3 +++
 src/tools/Logger.cpp | 19 ++++++++++++++++---
 src/tools/Logger.h   |  1 +
 6 files changed, 39 insertions(+), 3 deletions(-)

diff --git a/src/FiltersList.cpp b/src/FiltersList.cpp
index 6df5467..40696bd 100644
--- a/src/FiltersList.cpp
+++ b/src/FiltersList.cpp
@@ -140,6 +140,8 @@ namespace QDLIB {
          log.cout() << "Filter expectation value file: " << _fname << endl;
          log.flush();
          _ofile.open(_fname.c_str());
+         if (!_ofile.is_open())
+            throw ( EIOError("Can not open expectation value file", _fname) );
          _ofile.precision(10);
       }
    }
@@ -336,8 +338,22 @@ namespace QDLIB {
       }
       
       if (_writefile) _ofile << endl;
+      if (_writefile && _ofile.fail())
+         throw ( EIOError("Can not write expectation value file", _fname) );
       if (! _initalized) _initalized = true;
    }
+
+   /**
+    * Close the expectation value file and make sure that it is complete.
+    */
+   void FiltersList::Close()
+   {
+      if (!_ofile.is_open()) return;
+
+      _ofile.close();
+      if (_ofile.fail())
+         throw ( EIOError("Can not write expectation value file", _fname) );
+   }
    
 }
 
diff --git a/src/FiltersList.h b/src/FiltersList.h
index df1c1e4..eacd161 100644
--- a/src/FiltersList.h
+++ b/src/FiltersList.h
@@ -94,6 +94,8 @@ namespace QDLIB
          }
 
          void Apply(WaveFunction *Psi);
+
+         void Close();
    };
 
 }
diff --git a/src/ProgFilter.cpp b/src/ProgFilter.cpp
index cfe090e..3149a0c 100644
--- a/src/ProgFilter.cpp
+++ b/src/ProgFilter.cpp
@@ -171,6 +171,7 @@ namespace QDLIB
          report.Finalize();
          throw;
       }
+      _filter.Close();
       report.Finalize();
    }
 
diff --git a/src/ProgPropa.cpp b/src/ProgPropa.cpp
index e51bb93..9f59106 100644
--- a/src/ProgPropa.cpp
+++ b/src/ProgPropa.cpp
@@ -167,6 +167,8 @@ namespace QDLIB {
       if (_writenorm)
          log.FileClose();
 
+      _prefilter.Close();
+      _postfilter.Close();
       _reporter.Finalize();
       _WriteMeta();
    }
@@ -223,6 +225,7 @@ namespace QDLIB {
          filter.SetDefaultName(s);
          filter.Init( section );
          filter.Apply(Psi);
+         filter.Close();
          log.IndentDec();
          log.cout() << endl;
          log.flush();
diff --git a/src/tools/Logger.cpp b/src/tools/Logger.cpp
index fc44ef0..965cc84 100644
--- a/src/tools/Logger.cpp
+++ b/src/tools/Logger.cpp
@@ -107,6 +107,7 @@ namespace QDLIB {
 #ifdef HAVE_MPI
       if (MPI::COMM_WORLD.Get_rank() != 0) return;
 #endif
+      _ofile.clear();
       _ofile.open(filename.c_str());
       if( _ofile.fail() ) {
 	 string msg;
@@ -119,15 +120,27 @@ namespace QDLIB {
 
    /**
     * Close output file and switch back to console output.
+    *
+    * \return false if not everything could be written to the file.
     */
-   void Logger::FileClose()
+   bool Logger::_CloseFile()
    {
 #ifdef HAVE_MPI
-      if (MPI::COMM_WORLD.Get_rank() != 0) return;
+      if (MPI::COMM_WORLD.Get_rank() != 0) return true;
 #endif
       flush();
       _ofile.close();
       _global_out = &std::cout;
+      return !_ofile.fail();
+   }
+
+   /**
+    * Close output file and switch back to console output.
+    */
+   void Logger::FileClose()
+   {
+      if ( !_CloseFile() )
+         throw ( EIOError("Can not write to the output redirection file") );
    }
    
    
@@ -144,7 +157,7 @@ namespace QDLIB {
     */
    void Logger::ConsoleOutput()
    {
-      if ( _ofile.is_open() ) FileClose();
+      if ( _ofile.is_open() ) _CloseFile();
       _global_out = &std::cout;
    }
    
diff --git a/src/tools/Logger.h b/src/tools/Logger.h
index f8fefb7..12c3d1e 100644
--- a/src/tools/Logger.h
+++ b/src/tools/Logger.h
@@ -56,6 +56,7 @@ namespace QDLIB {
 	 ~Logger ( ){}
 
 	 void _IndentString(string &s);
+	 bool _CloseFile();
    public:
       
       enum  SectionType {Chapter, Section, SubSection};
-- 
2.43.0


From ed004f30221f953e36e2fdbad0f02951e0244c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:12 +0000
Subject: [PATCH 37/64] fix: a propagation that failed claimed all its steps in
 Propagation.meta and lost its error message

---
 src/ProgPropa.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ProgPropa.cpp b/src/ProgPropa.cpp
index 9f59106..dd1dfd4 100644
--- a/src/ProgPropa.cpp
+++ b/src/ProgPropa.cpp
@@ -329,7 +329,11 @@ namespace QDLIB {
         }
       }
       } catch (Exception &e) {
-         _Finalize();
+         /* Keep what has been done so far, the meta file already describes the complete write cycles */
+         log.ConsoleOutput();
+         try {
+            _reporter.Finalize();
+         } catch (Exception &ef) {}
          DELETE_WF(Psi);
          throw;
       }
-- 
2.43.0


From 8d2b41358d4c482cedfd6e8aa8254030dae744e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:37 +0000
Subject: [PATCH 38/64] fix: a killed propagation left a partial or outdated
 Propagation.meta

---
 src/ProgPropa.cpp            |  6 +++++-
 src/tools/ParamContainer.cpp | 12 ++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/ProgPropa.cpp b/src/ProgPropa.cpp
index dd1dfd4..28e846b 100644
--- a/src/ProgPropa.cpp
+++ b/src/ProgPropa.cpp
@@ -294,8 +294,12 @@ namespace QDLIB {
       
       if (_start != 0)
 	 wfile.Counter(_start);
-      else
+      else {
+         /* The description of an older propagation does not apply any more */
+         if (FS::IsFile(_dir + "Propagation" + METAFILE_SUFFIX))
+            FS::Remove(_dir + "Propagation" + METAFILE_SUFFIX);
          wfile << Psi;
+      }
       
       /* The propagation loop */
       log.Header( "Free propagation", Logger::Section);
diff --git a/src/tools/ParamContainer.cpp b/src/tools/ParamContainer.cpp
index 1422246..ac0b19d 100644
--- a/src/tools/ParamContainer.cpp
+++ b/src/tools/ParamContainer.cpp
@@ -834,20 +834,28 @@ namespace QDLIB {
     * \param name path
     * \param with_types add type info to keys
     *
+    * The file is replaced in one step: it is either the old or the complete new one.
+    *
     * \return true if written correct
     */
    bool ParamContainer::WriteToFile(const string& name, bool with_types)
    {
       ofstream file;
+      string tmpname(name + ".tmp");
 
-      file.open(name.c_str(),  ios_base::out);
+      file.open(tmpname.c_str(),  ios_base::out);
       if( file.fail() ) return false;
 
       Write(file, with_types);
 
       file.close();
 
-      return !file.fail();
+      if (file.fail() || rename(tmpname.c_str(), name.c_str()) != 0) {
+         remove(tmpname.c_str());
+         return false;
+      }
+
+      return true;
    }
 
 
-- 
2.43.0


From db0392bebd124e6281d73596707825c854b6a014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:37 +0000
Subject: [PATCH 39/64] fix: correlation method of the eigenfunction search
 ignored the steps of the propagation it reads and unreadable meta files

---
 src/ProgEigen.cpp     | 13 +++++++++++--
 src/tools/fstools.cpp |  4 +++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/ProgEigen.cpp b/src/ProgEigen.cpp
index 45cd5fa..61dfeae 100644
--- a/src/ProgEigen.cpp
+++ b/src/ProgEigen.cpp
@@ -467,13 +467,18 @@ namespace QDLIB
 	 log.flush();
       } else { /* Read propagation from disk */
 	log.cout() << "Read Propagation from disk\n\n"; log.flush();
+	int num = -1;
 
 	if (FS::IsDir(_read)) { /* Look for Propagation meta */
 	   ParamContainer meta;
 	   string s;
 	   int wcycle;
 
-	   meta.ReadFromFile(_read+"Propagation.meta");
+	   if (_read[_read.length()-1] != '/')
+	      _read += "/";
+
+	   if (!meta.ReadFromFile(_read+"Propagation.meta"))
+	      throw (EIOError("Can't read Propagation meta file", _read+"Propagation.meta"));
 
 	   meta.GetValue("CLASS", s);
 	   if (s != "Propagation")
@@ -498,6 +503,7 @@ namespace QDLIB
 	   _read += s;
 
 	   _dt *= double(wcycle);
+	   num = _MaxSteps / wcycle + 1;
 
 	   log.cout() << "Found Propgation meta:\n";
 	   log.IndentInc();
@@ -509,12 +515,15 @@ namespace QDLIB
 	   log.flush();
 	}
 
-	tbuf.ReadFromFiles(_read);
+	tbuf.ReadFromFiles(_read, 0, 1, num);
 
 	_MaxSteps = tbuf.Size();
 	if (_MaxSteps < 2)
 	   throw (EIOError("Not enough files for autocorrelation found"));
 
+	clock->Dt(_dt);
+	clock->Steps(_MaxSteps);
+
 	autocorr.newsize(_MaxSteps);
 	spectrum.newsize(_MaxSteps);
 
diff --git a/src/tools/fstools.cpp b/src/tools/fstools.cpp
index dd3ac1f..e0d1f98 100644
--- a/src/tools/fstools.cpp
+++ b/src/tools/fstools.cpp
@@ -107,8 +107,10 @@ namespace QDLIB {
       
       ret =  stat(name.c_str(), &statbuf);
       
-      if (ret != 0)
+      if (ret != 0 && errno != ENOENT)
 	 throw ( EIOError(errno, name) );
+      else if (ret != 0 && errno == ENOENT)
+         return false;
       
       if (S_ISDIR(statbuf.st_mode)) return true;
       
-- 
2.43.0


From 9507bbac372e1328457224cf334a41d726b3294b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:09 +0000
Subject: [PATCH 40/64] fix: correlation functions of a saved propagation could
 never be read, and leaked and freed the wrong wave functions

---
 src/ProgCfun.cpp | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/ProgCfun.cpp b/src/ProgCfun.cpp
index 2f943ff..80f6df7 100644
--- a/src/ProgCfun.cpp
+++ b/src/ProgCfun.cpp
@@ -225,6 +225,7 @@ namespace QDLIB
     }
 
     DELETE_WF(psi_t);
+    DELETE_WF(bra);
 
     log.cout() << "Write correlation function\n";
     /* Write correlation function to file */
@@ -374,6 +375,8 @@ namespace QDLIB
 
     DELETE_WF(psi_t_k);
     DELETE_WF(psi_t_b);
+    DELETE_WF(psi_t_s);
+    DELETE_WF(bra);
 
     log.cout() << "Write correlation function\n";
     /* Write correlation function to file */
@@ -432,22 +435,24 @@ namespace QDLIB
 
 	int Nt, wcycle;
 	double dt;
+	string name;
 	propagation_meta.GetValue("Nt", Nt);
-	propagation_meta.GetValue("wcycle", wcycle);
+	propagation_meta.GetValue("Wcycle", wcycle);
 	propagation_meta.GetValue("dt", dt);
+	propagation_meta.GetValue("WFBaseName", name);
+
+	if (wcycle < 1 || Nt < wcycle || name.empty())
+	    throw(EParamProblem("Invalid propagation meta file"));
 
 	master_clock_.Dt(dt);
 	master_clock_.Steps(Nt);
 	wcycle_ = wcycle;		/* use wcycle from propagation */
 
 	/* Read propagation */
-	wfbuffer.ReadFromFiles(read_dir_);
-
-	if (wfbuffer.Size() < uint(Nt/wcycle) ) master_clock_.Steps(wfbuffer.Size());
-	if (wfbuffer.Size() < 1 )
-	  throw (EParamProblem("Wave function buffer is empty"));
+	wfbuffer.ReadFromFiles(read_dir_ + "/" + name, 0, 1, Nt/wcycle);
 
-	Psi0 = wfbuffer[0];
+	Psi0 = wfbuffer[0]->NewInstance();
+	*Psi0 = wfbuffer[0];
     }
 
     log.IndentDec();
@@ -478,14 +483,14 @@ namespace QDLIB
 	    throw (EParamProblem("Last operator in bra definition has to be a propagator"));
     }
 
-    if (ket_.back() == NULL)
+    if (ket_.empty() || ket_.back() == NULL)
 	throw (EParamProblem("Last operator in bra definition has to be the signal mode operator"));
 
-    if (wfbuffer.Size() > 1 && (ket_[0] != NULL || bra_[0] != NULL))
+    if (wfbuffer.Size() > 1 && (ket_[0] != NULL || (!bra_.empty() && bra_[0] != NULL)))
       throw (EParamProblem("Pre-propagated time series requires a propagator as first element int the ket and bra definitions."));
 
     /* Run initial time series, if not already present */
-    if (wfbuffer.Size() == 1){
+    if (read_dir_.empty()){
 	log.cout() << "\nRun initial propagation U(t1,0)|psi>\n"; log.flush();
 
 	WaveFunction* psi_t = InitializeKetBra(false);
@@ -504,6 +509,9 @@ namespace QDLIB
 	/* Dump series to files */
 	if (! write_dir_.empty() ){
 	  FS::CreateDir(write_dir_);
+	  if (FS::IsFile(write_dir_ + "/Propagation" + METAFILE_SUFFIX))
+	     FS::Remove(write_dir_ + "/Propagation" + METAFILE_SUFFIX);
+	  wfbuffer.SaveToFiles(write_dir_ + "/WF");
 
 	  /* Write propagation meta file*/
 	  ParamContainer p;
@@ -515,8 +523,6 @@ namespace QDLIB
 
 	  if (!p.WriteToFile(write_dir_ + "/Propagation" + METAFILE_SUFFIX))
 	     throw( EIOError("Can not write meta file", write_dir_ + "/Propagation" + METAFILE_SUFFIX) );
-
-	  wfbuffer.SaveToFiles(write_dir_ + "/WF");
 	}
     }
 
-- 
2.43.0


From be8edf524f3cac9fa45f4db86366dc9d147d1c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:11 +0000
Subject: [PATCH 41/64] fix: a transient read error made a stream file look
 like a raw binary file

---
 src/tools/FileSingle.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tools/FileSingle.h b/src/tools/FileSingle.h
index 168a4fc..2558398 100644
--- a/src/tools/FileSingle.h
+++ b/src/tools/FileSingle.h
@@ -36,6 +36,7 @@
 
 #include "ParamContainer.h"
 #include "Exception.h"
+#include "fstools.h"
 
 #include "qdlib/WaveFunction.h"
 #include "qdlib/Operator.h"
@@ -1221,7 +1222,12 @@ namespace QDLIB
          CheckIntroFromStream();
          _type = stream;
       } catch (EIOError& e) { /* to fail means it must be _something else_ */
+         string name;
+         BuildDataFileName(name);
+         bool unreadable = (_sin != NULL) ? _sin->bad() : FS::IsFile(name);
+
          ReleaseInStream();
+         if (unreadable) throw; /* we can't tell what it is */
 
          _type = binary;
       }
-- 
2.43.0


From 865f4e5192836400948f900e73bf33a95d8c5b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:54 +0000
Subject: [PATCH 42/64] fix: a refused allocation left vectors and matrices in
 an undefined state and leaked

---
 src/math/Matrix.h |    4 +-
 src/math/Vector.h | 1822 +++++++++++++++++++++++----------------------
 2 files changed, 917 insertions(+), 909 deletions(-)

diff --git a/src/math/Matrix.h b/src/math/Matrix.h
index 3633b9f..66b3a4f 100644
--- a/src/math/Matrix.h
+++ b/src/math/Matrix.h
@@ -79,11 +79,11 @@ namespace QDLIB {
    template <class T>
    void Matrix<T>::_init(lint m, lint n)
    {
+      Memory::Instance().Align((void**) (&_v), sizeof(T) * m*n);
+
       _mn = m*n;
       _m = m;
       _n = n;
-      
-      Memory::Instance().Align((void**) (&_v), sizeof(T) * _mn);
 
       _col = new T*[_n];
       
diff --git a/src/math/Vector.h b/src/math/Vector.h
index b3821e0..1c6933e 100644
--- a/src/math/Vector.h
+++ b/src/math/Vector.h
@@ -1,915 +1,923 @@
-/*
-*
-* Template Numerical Toolkit (TNT)
-*
-* Mathematical and Computational Sciences Division
-* National Institute of Technology,
-* Gaithersburg, MD USA
-*
-*
-* This software was developed at the National Institute of Standards and
-* Technology (NIST) by employees of the Federal Government in the course
-* of their official duties. Pursuant to title 17 Section 105 of the
-* United States Code, this software is not subject to copyright protection
-* and is in the public domain. NIST assumes no responsibility whatsoever for
-* its use by other parties, and makes no guarantees, expressed or implied,
-* about its quality, reliability, or any other characteristic.
-*
-*/
-
-
-
-#ifndef QDLIBVECTOR_H
-#define QDLIBVECTOR_H
-
-#include <cstdlib>
-#include <cassert>
-#include <iostream>
-#include <sstream>
-#include <cmath>
-#include <string.h>
-
-
-#ifdef HAVE_MPI
-#include "mpi.h"
-#endif
-
-#include "tools/Memory.h"
-
-using namespace std;
-
-namespace QDLIB
-{
-
-//namespace Linear_Algebra
-// {
-
-
-/**
- * Linear algebra vector. 
- * 
- * Supports strided vectors which are discontinous in memory.
- */
-template <class T>
-class Vector 
-{
-
-
-  public:
-
-    typedef lint   size_type;
-    typedef         T   value_type;
-    typedef         T   element_type;
-    typedef         T*  pointer;
-    typedef         T*  iterator;
-    typedef         T&  reference;
-    typedef const   T*  const_iterator;
-    typedef const   T&  const_reference;
-
-    lint lbound() const { return 1;}
- 
-    
-  private:
-    T** v_;
-    lint n_;
-
-    Vector<T> **_StrideRefObj; /** If a stride is just reference, the pointer to master instance is here */
-    lint *_SourceStride;       /** Stride Ref source */
-    bool _StorageLocked;       /** Storage can not be retired */
-
-    size_type nstrides_;
-    size_type stride_size_;
-
-    bool isRef_;
-
-    int _mpirank;
-    int _mpisize;
-
-#ifdef HAVE_MPI
-    MPI::Intracomm *_comm;
-#endif
-    
-    
-    /**
-     * Initialize/allocate memory for the vector.
-     * 
-     * \param N       size of the vector.
-     * \param strides number of strides.
-     */
-    void initialize(lint N, lint strides)
-    {
-#ifdef HAVE_MPI
-       if (_comm != NULL){
-          _mpirank = _comm->Get_rank();
-          _mpisize = _comm->Get_size();
-       }
-#endif
-      nstrides_ = strides;
-      stride_size_ = N / strides;
-      n_ = N;
-      
-      v_ = new T*[strides];
-      _StrideRefObj = new Vector<T>*[strides];
-      _SourceStride = new lint[strides];
-      
-      isRef_ = false;
-      _StorageLocked = false;
-      
-      for (lint i=0; i < nstrides_; i++){
-         if (stride_size_ == 0)
-            v_[i] = NULL;
-         else {
-            Memory& mem = Memory::Instance();
-            mem.Align((void**) &(v_[i]), sizeof(T)*stride_size_);
-         }
-         _StrideRefObj[i] = NULL;
-         _SourceStride[i] = -1;
-      }
-    }
-   
-    /** copy only part out of the strides. */
-    void copy(T* const *v, lint begin, lint n)
-    {
-       for (lint s=0; s < nstrides_; s++)
-          for (lint i=0; i< n; i++)
-             v_[s][i] = v[s][begin+i];
-    }
-       
-    void copy(T* const *v)
-    {
-	for (lint s=0; s < nstrides_; s++){
-           lint i;
-#ifdef _OPENMP
-#pragma omp parallel for schedule(static) default(shared) private(i)
-#endif
-	   for (i=0; i< stride_size_; i++)
-            v_[s][i] = v[s][i];
-        }
-    }
-
-    void copy(const T *v)
-    {
-       for (lint s=0; s < nstrides_; s++){
-          lint i;
-#ifdef _OPENMP
-#pragma omp parallel for schedule(static) default(shared) private(i)
-#endif
-	  for (i=0; i< stride_size_; i++)
-	     v_[s][i] = v[i];
-       }
-    }
-
-    
-    void set(const T& val)
-    {
-       for (lint s=0; s < nstrides_; s++){
-          lint i;
-#ifdef _OPENMP
-#pragma omp parallel for schedule(static) default(shared) private(i)
-#endif
-	  for (i=0; i< stride_size_; i++){
-	     v_[s][i] = val;
-	  }
-       }
-	     
-
-    }
-    
-
-
-    void destroy()
-    {     
-        /* do nothing, if no memory has been previously allocated */
-       if (v_ != NULL && !isRef_){  /* Only destroy data if it's our own*/
-         for (lint s=0; s < nstrides_; s++){
-            if(v_[s] != NULL){
-               Memory::Instance().Free(v_[s]);
-               v_[s] = NULL;
-            }
-         }
-       }
-       if (v_ != NULL) { /* This pointer is always our own. */
-          delete[] v_;
-          v_ = NULL;
-       }
-       if (_StrideRefObj != NULL) {
-          delete[] _StrideRefObj;
-          delete[] _SourceStride;
-          _StrideRefObj = NULL;
-          _SourceStride = NULL;
-       }
-    }
-
-
-    protected:
-       /**
-        * Inject the pointer of a vector into a stride.
-        * 
-        * Use with extreme care. 
-        * If you destroy the original instance data in the strides
-        * it will be no longer valid!
-        * 
-        * \param vec    The vector to inject
-        * \param source The source stride in vec
-        * \param dest   The destination stride (Number must be larger!!!)
-        */
-       bool StrideRef(Vector<T> &vec, lint source, lint dest = 0)
-         {
-            if (isRef_ && vec.stride_size_ != stride_size_)
-               return false;
-
-            if (!isRef_) {
-               if (dest >= nstrides_)
-                  return false;
-               if (stride_size_ > 0)
-                  destroy();
-
-               initialize(0, nstrides_);
-
-               stride_size_ = vec.stride_size_;
-               isRef_ = true;
-            }
-            if (nstrides_ <= dest + 1)
-               nstrides_ = dest + 1;
-
-            n_ = nstrides_ * stride_size_;
-            v_[dest] = vec.v_[source];
-            _StrideRefObj[dest] = &vec;
-            _SourceStride[dest] = source;
-
-            return true;
-         }
-        
-       /**
-        * Reduce the size of the vector.
-        * 
-        * This is an irreversibel action.
-        */
-       void downsize(int N)
-       {
-          if (N <= n_) n_ = N;
-       }
-       
-  public:
-
-       /**
+/*
+*
+* Template Numerical Toolkit (TNT)
+*
+* Mathematical and Computational Sciences Division
+* National Institute of Technology,
+* Gaithersburg, MD USA
+*
+*
+* This software was developed at the National Institute of Standards and
+* Technology (NIST) by employees of the Federal Government in the course
+* of their official duties. Pursuant to title 17 Section 105 of the
+* United States Code, this software is not subject to copyright protection
+* and is in the public domain. NIST assumes no responsibility whatsoever for
+* its use by other parties, and makes no guarantees, expressed or implied,
+* about its quality, reliability, or any other characteristic.
+*
+*/
+
+
+
+#ifndef QDLIBVECTOR_H
+#define QDLIBVECTOR_H
+
+#include <cstdlib>
+#include <cassert>
+#include <iostream>
+#include <sstream>
+#include <cmath>
+#include <string.h>
+
+
+#ifdef HAVE_MPI
+#include "mpi.h"
+#endif
+
+#include "tools/Memory.h"
+
+using namespace std;
+
+namespace QDLIB
+{
+
+//namespace Linear_Algebra
+// {
+
+
+/**
+ * Linear algebra vector. 
+ * 
+ * Supports strided vectors which are discontinous in memory.
+ */
+template <class T>
+class Vector 
+{
+
+
+  public:
+
+    typedef lint   size_type;
+    typedef         T   value_type;
+    typedef         T   element_type;
+    typedef         T*  pointer;
+    typedef         T*  iterator;
+    typedef         T&  reference;
+    typedef const   T*  const_iterator;
+    typedef const   T&  const_reference;
+
+    lint lbound() const { return 1;}
+ 
+    
+  private:
+    T** v_;
+    lint n_;
+
+    Vector<T> **_StrideRefObj; /** If a stride is just reference, the pointer to master instance is here */
+    lint *_SourceStride;       /** Stride Ref source */
+    bool _StorageLocked;       /** Storage can not be retired */
+
+    size_type nstrides_;
+    size_type stride_size_;
+
+    bool isRef_;
+
+    int _mpirank;
+    int _mpisize;
+
+#ifdef HAVE_MPI
+    MPI::Intracomm *_comm;
+#endif
+    
+    
+    /**
+     * Initialize/allocate memory for the vector.
+     * 
+     * \param N       size of the vector.
+     * \param strides number of strides.
+     */
+    void initialize(lint N, lint strides)
+    {
+#ifdef HAVE_MPI
+       if (_comm != NULL){
+          _mpirank = _comm->Get_rank();
+          _mpisize = _comm->Get_size();
+       }
+#endif
+      nstrides_ = strides;
+      stride_size_ = N / strides;
+      n_ = N;
+      
+      v_ = new T*[strides];
+      _StrideRefObj = new Vector<T>*[strides];
+      _SourceStride = new lint[strides];
+      
+      isRef_ = false;
+      _StorageLocked = false;
+      
+      for (lint i=0; i < nstrides_; i++){
+         v_[i] = NULL;
+         _StrideRefObj[i] = NULL;
+         _SourceStride[i] = -1;
+      }
+
+      try {
+         for (lint i=0; i < nstrides_; i++){
+            if (stride_size_ > 0) {
+               Memory& mem = Memory::Instance();
+               mem.Align((void**) &(v_[i]), sizeof(T)*stride_size_);
+            }
+         }
+      } catch (...) { /* Leave an empty vector behind */
+         destroy();
+         n_ = nstrides_ = stride_size_ = 0;
+         throw;
+      }
+    }
+   
+    /** copy only part out of the strides. */
+    void copy(T* const *v, lint begin, lint n)
+    {
+       for (lint s=0; s < nstrides_; s++)
+          for (lint i=0; i< n; i++)
+             v_[s][i] = v[s][begin+i];
+    }
+       
+    void copy(T* const *v)
+    {
+	for (lint s=0; s < nstrides_; s++){
+           lint i;
+#ifdef _OPENMP
+#pragma omp parallel for schedule(static) default(shared) private(i)
+#endif
+	   for (i=0; i< stride_size_; i++)
+            v_[s][i] = v[s][i];
+        }
+    }
+
+    void copy(const T *v)
+    {
+       for (lint s=0; s < nstrides_; s++){
+          lint i;
+#ifdef _OPENMP
+#pragma omp parallel for schedule(static) default(shared) private(i)
+#endif
+	  for (i=0; i< stride_size_; i++)
+	     v_[s][i] = v[i];
+       }
+    }
+
+    
+    void set(const T& val)
+    {
+       for (lint s=0; s < nstrides_; s++){
+          lint i;
+#ifdef _OPENMP
+#pragma omp parallel for schedule(static) default(shared) private(i)
+#endif
+	  for (i=0; i< stride_size_; i++){
+	     v_[s][i] = val;
+	  }
+       }
+	     
+
+    }
+    
+
+
+    void destroy()
+    {     
+        /* do nothing, if no memory has been previously allocated */
+       if (v_ != NULL && !isRef_){  /* Only destroy data if it's our own*/
+         for (lint s=0; s < nstrides_; s++){
+            if(v_[s] != NULL){
+               Memory::Instance().Free(v_[s]);
+               v_[s] = NULL;
+            }
+         }
+       }
+       if (v_ != NULL) { /* This pointer is always our own. */
+          delete[] v_;
+          v_ = NULL;
+       }
+       if (_StrideRefObj != NULL) {
+          delete[] _StrideRefObj;
+          delete[] _SourceStride;
+          _StrideRefObj = NULL;
+          _SourceStride = NULL;
+       }
+    }
+
+
+    protected:
+       /**
+        * Inject the pointer of a vector into a stride.
+        * 
+        * Use with extreme care. 
+        * If you destroy the original instance data in the strides
+        * it will be no longer valid!
+        * 
+        * \param vec    The vector to inject
+        * \param source The source stride in vec
+        * \param dest   The destination stride (Number must be larger!!!)
+        */
+       bool StrideRef(Vector<T> &vec, lint source, lint dest = 0)
+         {
+            if (isRef_ && vec.stride_size_ != stride_size_)
+               return false;
+
+            if (!isRef_) {
+               if (dest >= nstrides_)
+                  return false;
+               if (stride_size_ > 0)
+                  destroy();
+
+               initialize(0, nstrides_);
+
+               stride_size_ = vec.stride_size_;
+               isRef_ = true;
+            }
+            if (nstrides_ <= dest + 1)
+               nstrides_ = dest + 1;
+
+            n_ = nstrides_ * stride_size_;
+            v_[dest] = vec.v_[source];
+            _StrideRefObj[dest] = &vec;
+            _SourceStride[dest] = source;
+
+            return true;
+         }
+        
+       /**
+        * Reduce the size of the vector.
+        * 
+        * This is an irreversibel action.
+        */
+       void downsize(int N)
+       {
+          if (N <= n_) n_ = N;
+       }
+       
+  public:
+
+       /**
         * Lock the internal storage against retirement.
-        */
-       void LockStorage() { _StorageLocked = true; }
-       void UnLockStorage() { _StorageLocked = false; }
-
-       /**
-        * Frees the data storage but not the properties.
-        *
-        * Use this feature to save memory. Advantegous if
-        * the object is used as temporary buffer.
-        */
-       void RetireStorage()
-       {
-          if (_StorageLocked)  return;
-          for (int s=0; s < nstrides_; s++){
-             if (_StrideRefObj[s] == NULL)
-                Memory::Instance().Free(v_[s]);
-             else
-                _StrideRefObj[s]->RetireStorage();
-
-             v_[s] = NULL; /* Invalidate pointer */
-          }
-       }
-
-       /**
+        */
+       void LockStorage() { _StorageLocked = true; }
+       void UnLockStorage() { _StorageLocked = false; }
+
+       /**
+        * Frees the data storage but not the properties.
+        *
+        * Use this feature to save memory. Advantegous if
+        * the object is used as temporary buffer.
+        */
+       void RetireStorage()
+       {
+          if (_StorageLocked)  return;
+          for (int s=0; s < nstrides_; s++){
+             if (_StrideRefObj[s] == NULL)
+                Memory::Instance().Free(v_[s]);
+             else
+                _StrideRefObj[s]->RetireStorage();
+
+             v_[s] = NULL; /* Invalidate pointer */
+          }
+       }
+
+       /**
         * Get back storage freed with RetireStorage.
-        */
-       void ReaquireStorage()
-       {
-          if (_StorageLocked)  return;
-          for (int s=0; s < nstrides_; s++){
-             if (v_[s] == NULL){ /* Check if reaquire is needed*/
-                if ( _StrideRefObj[s] == NULL )
-                   Memory::Instance().Align((void**) &(v_[s]), sizeof(T)*stride_size_);
-                else {
-                   _StrideRefObj[s]->ReaquireStorage();
-                   v_[s] = _StrideRefObj[s]->v_[_SourceStride[s]];  /* Re-link the stride */
-                }
-             }
-          }
-
-       }
-
-       /**
+        */
+       void ReaquireStorage()
+       {
+          if (_StorageLocked)  return;
+          for (int s=0; s < nstrides_; s++){
+             if (v_[s] == NULL){ /* Check if reaquire is needed*/
+                if ( _StrideRefObj[s] == NULL )
+                   Memory::Instance().Align((void**) &(v_[s]), sizeof(T)*stride_size_);
+                else {
+                   _StrideRefObj[s]->ReaquireStorage();
+                   v_[s] = _StrideRefObj[s]->v_[_SourceStride[s]];  /* Re-link the stride */
+                }
+             }
+          }
+
+       }
+
+       /**
         * Returns the rank in the stride distribution.
-        */
-       int MPIrank()
-       {
-          return _mpirank;
-       }
-
-       /**
+        */
+       int MPIrank()
+       {
+          return _mpirank;
+       }
+
+       /**
         * Returns the number of procs over which the strides are distributed.
-        */
-       int MPIsize()
-       {
-          return _mpisize;
-       }
-
-#ifdef HAVE_MPI
-       /**
-        * Returns the communicator over which the strides are spread.
-        *
+        */
+       int MPIsize()
+       {
+          return _mpisize;
+       }
+
+#ifdef HAVE_MPI
+       /**
+        * Returns the communicator over which the strides are spread.
+        *
         * \return NULL the vector is pure local.
-        */
-       MPI::Intracomm* GetComm()
-       {
-          return _comm;
-       }
-#endif
-       /**
-        * Sync Strides between processes.
-        *
-        * The strides of the local rank are broadcasted to all other ranks.
+        */
+       MPI::Intracomm* GetComm()
+       {
+          return _comm;
+       }
+#endif
+       /**
+        * Sync Strides between processes.
+        *
+        * The strides of the local rank are broadcasted to all other ranks.
         * Function is empty if mpi is not used.
-        */
-       void SyncStrides()
-       {
-#ifdef HAVE_MPI
-          if (_mpisize > 1 && _comm != NULL)
-             for (int s=0; s < nstrides_; s++)
-                _comm->Bcast( (void*) v_[s], sizeof(T) * stride_size_, MPI_BYTE, s % _mpisize);
-#endif
-       }
-    
-   /**
-    * Return a pointer to the local stride.
-    */
-    inline T* begin(lint stride) const { return v_[stride];}
-    
-    /**
-     * Return a pointer to the stride set.
-     * 
-     * This is a 2D array with sizes [strides][stride_size]
-     */
-    T** begin() const { return v_;}
-    
-    /**
-     * Get Size of a stride in bytes.
-     */
-    size_t sizeBytes() const { return stride_size_ * sizeof(T); }
-    
-    /**
-     * Swap the content of two vectors.
-     * 
-     * Only the pointers to the data will exchanged.
-     * Works only if both have the same size.
-     */
-    bool swap(Vector<T> &A)
-    {
-       T *p;
-       
-       if (n_ != A.n_) return false;
-       
-       for (lint s=0; s < nstrides_; s++){
-	 p = v_[s];
-	 v_[s] = A.v_[s];
-	 A.v_[s] = p;
-       }
-       return true;
-    }
-    
-   void FastCopy(Vector<T> &A)
-   {
-      if (n_ == A.n_ && nstrides_ == A.nstrides_) {
-         /* no need to re-alloc */
-         lint s;
+        */
+       void SyncStrides()
+       {
+#ifdef HAVE_MPI
+          if (_mpisize > 1 && _comm != NULL)
+             for (int s=0; s < nstrides_; s++)
+                _comm->Bcast( (void*) v_[s], sizeof(T) * stride_size_, MPI_BYTE, s % _mpisize);
+#endif
+       }
+    
+   /**
+    * Return a pointer to the local stride.
+    */
+    inline T* begin(lint stride) const { return v_[stride];}
+    
+    /**
+     * Return a pointer to the stride set.
+     * 
+     * This is a 2D array with sizes [strides][stride_size]
+     */
+    T** begin() const { return v_;}
+    
+    /**
+     * Get Size of a stride in bytes.
+     */
+    size_t sizeBytes() const { return stride_size_ * sizeof(T); }
+    
+    /**
+     * Swap the content of two vectors.
+     * 
+     * Only the pointers to the data will exchanged.
+     * Works only if both have the same size.
+     */
+    bool swap(Vector<T> &A)
+    {
+       T *p;
+       
+       if (n_ != A.n_) return false;
+       
+       for (lint s=0; s < nstrides_; s++){
+	 p = v_[s];
+	 v_[s] = A.v_[s];
+	 A.v_[s] = p;
+       }
+       return true;
+    }
+    
+   void FastCopy(Vector<T> &A)
+   {
+      if (n_ == A.n_ && nstrides_ == A.nstrides_) {
+         /* no need to re-alloc */
+         lint s;
 #ifdef _OPENMP  
 #pragma omp parallel for schedule(static) default(shared) private(s)
-#endif
-         for (s = _mpirank; s < nstrides_; s += _mpisize) {
-            Memory::Copy( (char*) v_[s], (char*) A.v_[s], sizeof(T) * stride_size_);
-
-         }
-      } else {
-         if (!isRef_)
-            destroy();
-
-#ifdef HAVE_MPI
-         _comm = A._comm;
-#endif
-         initialize(A.n_, A.nstrides_);
-         for (lint s = 0; s < nstrides_; s++)
-            Memory::Copy((char*) v_[s], (char*) A.v_[s], sizeof(T) * stride_size_);
-      }
-   }
-    
-    // destructor
-    ~Vector() 
-    {
-      destroy();
-    }
-
-    // constructors
-
-    Vector() : n_(0),
-               nstrides_(1),
-               stride_size_(0),
-               isRef_(false),
-               _mpirank(0),
-               _mpisize(1)
-#ifdef HAVE_MPI
-              ,_comm(NULL)
-#endif
-    {
-       initialize(n_, nstrides_);
-    }
-
-    
-    Vector(const Vector<T> &A) : n_(0),
-                                 nstrides_(1),
-                                 stride_size_(0),
-                                 isRef_(false),
-                                 _mpirank(0),
-                                 _mpisize(1)
-#ifdef HAVE_MPI
-                                 , _comm(NULL)
-#endif
-    {
-       initialize(A.n_, A.nstrides_);
-        copy(A.v_);
-    }
-   
-    Vector(lint N) : n_(0),
-                     nstrides_(1),
-                     stride_size_(0),
-                     isRef_(false),
-                     _mpirank(0),
-                     _mpisize(1)
-#ifdef HAVE_MPI
-                    ,_comm(NULL)
-#endif
-    {
-       initialize(N, nstrides_);
-    }
-    
-    Vector(lint N, lint strides) : n_(0),
-                                   nstrides_(0),
-                                   stride_size_(0),
-                                   isRef_(false),
-                                   _mpirank(0),
-                                   _mpisize(1)
-#ifdef HAVE_MPI
-                                   ,_comm(NULL)
-#endif
-    {
-       initialize(N, strides);
-    }
-    
-#ifdef HAVE_MPI
-    Vector(lint N, lint strides, MPI::Intracomm& comm) : n_(0),
-             nstrides_(0),
-             stride_size_(0),
-             isRef_(false),
-             _mpirank(0),
-             _mpisize(1),
-             _comm(&comm)
-    {
-       initialize(N, strides);
-    }
-#endif
-
-    Vector(lint N, const T& value) : n_(0),
-                                     nstrides_(1),
-                                     stride_size_(0),
-                                     isRef_(false),
-                                     _mpirank(0),
-                                     _mpisize(1)
-#ifdef HAVE_MPI
-                                     ,_comm(NULL)
-#endif
-    {
-        initialize(N, nstrides_);
-        set(value);
-    }
-
-    Vector(lint N, lint strides, const T** v) :  n_(N),
-                                                 nstrides_(strides),
-                                                 stride_size_(0),
-                                                 isRef_(false),
-                                                 _mpirank(0),
-                                                 _mpisize(1)
-#ifdef HAVE_MPI
-                                                 ,_comm(NULL)
-#endif
-    {
-        initialize(N, strides);
-        copy(v);
-    }
-
-    Vector(lint N, const T* v) :  n_(0),
-                                  nstrides_(1),
-                                  stride_size_(0),
-                                  isRef_(false),
-                                  _mpirank(0),
-                                  _mpisize(1)
-#ifdef HAVE_MPI
-                                  ,_comm(NULL)
-#endif
-    {
-       initialize(N, nstrides_);
-       copy(v);
-    }
-    
-    /**
-     * Resize the vector.
-     */
-    Vector<T>& newsize(lint N)
-    {
-        if (n_ == N) return *this;
-
-        if (!isRef_) destroy();
-        initialize(N, 1);
-
-        return *this;
-    }
-
-    /**
-     * Resize the vector with multiple strides.
-     * 
-     * \param N   Total size
-     * \param s   Number of strides
-     * \param comm Intracommunicator for stride split.
-     */
-#ifdef HAVE_MPI
-    Vector<T>& newsize(lint N, lint s, MPI::Intracomm* comm = NULL)
-    {
-       _comm = comm;
-#else
-    Vector<T>& newsize(lint N, lint s)
-    {
-#endif
-
-       if (n_ == N && nstrides_ == s) return *this;
-
-       destroy();
-       initialize(N, s);
-
-       return *this;
-    }
-    
-
-    void operator *=(const T &scalar)
-    {
-       for (lint s=0; s < nstrides_; s++){
-	  lint i;
-#ifdef _OPENMP    
-#pragma omp parallel for schedule(static) default(shared) private(i)
-#endif	  
-          for (i=0; i< stride_size_; i++){
-             v_[s][i] *= scalar;
-          }
-       }
-    }
-    
-    // assignments
-    //
-    Vector<T>& operator=(const Vector<T> &A)
-    {
-        if (v_ == A.v_)
-            return *this;
-
-	
-        if (n_ == A.n_ && nstrides_ == A.nstrides_){
-	   /* no need to re-alloc */
-            copy(A.v_);
-	} else {
-            if (!isRef_) destroy();
-            initialize(A.n_, A.nstrides_);
-            copy(A.v_);
-        }
-        return *this;
-    }
-        
-    Vector<T>& operator=(const T& scalar)
-    { 
-        set(scalar);
-        return *this;
-    }
-
-    /**
-     * Copy a vector into a single stride.
-     *
-     * \param vec    The vector to inject
-     * \param source The source stride in vec
-     * \param dest   The destination stride
-     */
-    bool StrideCopy(Vector<T> &vec, lint source, lint dest = 0)
-    {
-       if ( dest > nstrides_ || vec.stride_size_ != stride_size_ || source > vec.strides() )
-	  return false;
-	
-       for (lint i=0; i < stride_size_; i++)
-         v_[dest][i] = vec.v_[source][i];
-       
-       return true;
-    }
-    
-    /**
-     */
-    Vector<T>& CopySub(Vector<T> &A, lint begin, lint end)
-    {
-       if (v_ == A.v_)
-          return *this;
-
-       lint rsize = abs(end-begin)+1;
-       
-       if ( abs(rsize) > A.n_) return *this;
-	
-       if (n_ >= rsize  && nstrides_ == A.nstrides_){
-          /* no need to re-alloc */
-          copy(A.v_, begin, rsize);
-       } else {
-          if (!isRef_) destroy();
-          initialize(rsize, A.nstrides_);
-          copy(A.v_, begin, rsize);
-       }
-       return *this;
-    }
-    
-    inline lint size() const
-    {
-        return  n_;
-    }
-
-    /**
-     * Gives the local size of the actual stride.
-     * 
-     * We need this later for vectors which are strided by over multiple processes (e.g. MPI);
-     */
-    inline lint lsize() const
-    {
-       return  stride_size_;
-    }
-
-    /**
-     * Returns the number of strides.
-     */
-    inline lint strides() const 
-    {
-       return  nstrides_;
-    }
-
-    /**
-     * Gives the global start index of the actual stride.
-     * 
-     * We need this later for vectors which are strided by over multiple processes (e.g. MPI);
-     */
-    inline lint start() const 
-    {
-       return  0;
-    }
-
-    /**
-     * Gives the global end index+1 of the actual stride.
-     * 
-     * We need this later for vectors which are strided by over multiple processes (e.g. MPI);
-     */
-    inline lint stop() const 
-    {
-       return  n_;
-    }
-
-
-    inline reference operator[](lint i)
-    { 
-	lint s = i / stride_size_;
-	lint j = i % stride_size_;
-        return v_[s][j];
-    }
-
-    inline const_reference operator[](lint i) const
-    {
-	lint s = i / stride_size_;
-	lint j = i % stride_size_;
-        return v_[s][j];
-    }
-
-
-    inline T Norm() const
-    {
-       T sum=0;
-       for (lint i=0; i < n_; i++)
-          sum += conj((*this)[i]) * (*this)[i];
-
-       return sqrt(sum);
-    }
-};
-
-
-/* ***************************  I/O  ********************************/
-
-template <class T>
-std::ostream& operator<<(std::ostream &s, const Vector<T> &A)
-{
-    lint N=A.size();
-
-    s <<  N << "\n";
-
-    for (lint i=0; i<N; i++)
-        s   << A[i] << " " << "\n";
-    s << "\n";
-
-    return s;
-}
-
-template <class T>
-std::istream & operator>>(std::istream &s, Vector<T> &A)
-{
-
-    lint N;
-
-    s >> N;
-
-    if ( !(N == A.size() ))
-    {
-        A.newsize(N);
-    }
-
-
-    for (lint i=0; i<N; i++)
-            s >>  A[i];
-
-
-    return s;
-}
-
-// *******************[ basic matrix algorithms ]***************************
-
-template <class T>
-void operator+=(Vector<T> &A, const T val)
-{
-   lint N = A.size();
-
-   for (int i=0; i<N; i++)
-      A[i] += val;
-}
-
-template <class T>
-void operator-=(Vector<T> &A, const T val)
-{
-   lint N = A.size();
-
-   for (int i=0; i<N; i++)
-      A[i] -= val;
-}
-
-
-template <class T>
-Vector<T> operator+(const Vector<T> &A, 
-    const Vector<T> &B)
-{
-    lint N = A.size();
-
-    assert(N==B.size());
-
-    Vector<T> tmp(N);
-    lint i;
-
-    for (i=0; i<N; i++)
-            tmp[i] = A[i] + B[i];
-
-    return tmp;
-}
-
-template <class T>
-Vector<T> operator+=(Vector<T> &A, 
-    const Vector<T> &B)
-{
-   lint N = A.size();
-
-   assert(N==B.size());
-
-    lint i;
-
-    for (i=0; i<N; i++)
-            A[i] += B[i];
-
-    return A;
-}
-
-template <class T>
-Vector<T> operator-(const Vector<T> &A, 
-    const Vector<T> &B)
-{
-   lint N = A.size();
-
-   assert(N==B.size());
-
-    Vector<T> tmp(N);
-    lint i;
-
-    for (i=0; i<N; i++)
-            tmp[i] = A[i] - B[i];
-
-    return tmp;
-}
-
-template <class T>
-Vector<T> operator-=(Vector<T> &A, 
-    const Vector<T> &B)
-{
-   lint N = A.size();
-
-   assert(N==B.size());
-
-    lint i;
-
-    for (i=0; i<N; i++)
-            A[i] -= B[i];
-
-    return A;
-}
-
-
-
-
-template <class T>
-Vector<T> elementwise_mult(const Vector<T> &A, const Vector<T> &B)
-{
-   lint N = A.size();
-
-   assert(N==B.size());
-
-    Vector<T> tmp(N);
-    lint i;
-
-    for (i=0; i<N; i++)
-            tmp[i] = A[i] * B[i];
-
-    return tmp;
-}
-
-
-template <class T>
-double norm(const Vector<T> &A)
-{
-	lint N = A.size();
-
-	double sum = 0.0;
-	for (int i=0; i<N; i++)
-		sum +=  abs(A[i])*abs(A[i]);
-	return sqrt(sum);
-}
-
-
-
-template <class T>
-inline T dot_prod(const Vector<T> &A, const Vector<T> &B)
-{
-    lint N = A.size();
-    assert(N == B.size());
-
-    lint i;
-    T sum = 0;
-
-    for (i=0; i<N; i++)
-        sum += A[i] * B[i];
-    return sum;
-}
-
-template <class T>
-inline T dot_product(const Vector<T> &A, const Vector<T> &B)
-{
-	return dot_prod(A, B);
-}
-
-
-template <class T>
-inline T operator*(const Vector<T> &A, 
-    const Vector<T> &B)
-{
-    return dot_prod(A,B);
-}
-
-
-template <class T>
-Vector<T> operator*(const T &a, const Vector<T> &A)
-{
-   lint N = A.size();
-	Vector<T> r(N);
-
-	for (int i=0; i<N; i++)
-		r[i] = A[i] * a;
-
-	return r;
-}
-
-template <class T>
-inline Vector<T> operator*(const Vector<T> &A, const T& a)
-{
-	return a * A;
-}
-
-
-}   /* namespace QDLIB */
-
-
-#endif
-
+#endif
+         for (s = _mpirank; s < nstrides_; s += _mpisize) {
+            Memory::Copy( (char*) v_[s], (char*) A.v_[s], sizeof(T) * stride_size_);
+
+         }
+      } else {
+         if (!isRef_)
+            destroy();
+
+#ifdef HAVE_MPI
+         _comm = A._comm;
+#endif
+         initialize(A.n_, A.nstrides_);
+         for (lint s = 0; s < nstrides_; s++)
+            Memory::Copy((char*) v_[s], (char*) A.v_[s], sizeof(T) * stride_size_);
+      }
+   }
+    
+    // destructor
+    ~Vector() 
+    {
+      destroy();
+    }
+
+    // constructors
+
+    Vector() : n_(0),
+               nstrides_(1),
+               stride_size_(0),
+               isRef_(false),
+               _mpirank(0),
+               _mpisize(1)
+#ifdef HAVE_MPI
+              ,_comm(NULL)
+#endif
+    {
+       initialize(n_, nstrides_);
+    }
+
+    
+    Vector(const Vector<T> &A) : n_(0),
+                                 nstrides_(1),
+                                 stride_size_(0),
+                                 isRef_(false),
+                                 _mpirank(0),
+                                 _mpisize(1)
+#ifdef HAVE_MPI
+                                 , _comm(NULL)
+#endif
+    {
+       initialize(A.n_, A.nstrides_);
+        copy(A.v_);
+    }
+   
+    Vector(lint N) : n_(0),
+                     nstrides_(1),
+                     stride_size_(0),
+                     isRef_(false),
+                     _mpirank(0),
+                     _mpisize(1)
+#ifdef HAVE_MPI
+                    ,_comm(NULL)
+#endif
+    {
+       initialize(N, nstrides_);
+    }
+    
+    Vector(lint N, lint strides) : n_(0),
+                                   nstrides_(0),
+                                   stride_size_(0),
+                                   isRef_(false),
+                                   _mpirank(0),
+                                   _mpisize(1)
+#ifdef HAVE_MPI
+                                   ,_comm(NULL)
+#endif
+    {
+       initialize(N, strides);
+    }
+    
+#ifdef HAVE_MPI
+    Vector(lint N, lint strides, MPI::Intracomm& comm) : n_(0),
+             nstrides_(0),
+             stride_size_(0),
+             isRef_(false),
+             _mpirank(0),
+             _mpisize(1),
+             _comm(&comm)
+    {
+       initialize(N, strides);
+    }
+#endif
+
+    Vector(lint N, const T& value) : n_(0),
+                                     nstrides_(1),
+                                     stride_size_(0),
+                                     isRef_(false),
+                                     _mpirank(0),
+                                     _mpisize(1)
+#ifdef HAVE_MPI
+                                     ,_comm(NULL)
+#endif
+    {
+        initialize(N, nstrides_);
+        set(value);
+    }
+
+    Vector(lint N, lint strides, const T** v) :  n_(N),
+                                                 nstrides_(strides),
+                                                 stride_size_(0),
+                                                 isRef_(false),
+                                                 _mpirank(0),
+                                                 _mpisize(1)
+#ifdef HAVE_MPI
+                                                 ,_comm(NULL)
+#endif
+    {
+        initialize(N, strides);
+        copy(v);
+    }
+
+    Vector(lint N, const T* v) :  n_(0),
+                                  nstrides_(1),
+                                  stride_size_(0),
+                                  isRef_(false),
+                                  _mpirank(0),
+                                  _mpisize(1)
+#ifdef HAVE_MPI
+                                  ,_comm(NULL)
+#endif
+    {
+       initialize(N, nstrides_);
+       copy(v);
+    }
+    
+    /**
+     * Resize the vector.
+     */
+    Vector<T>& newsize(lint N)
+    {
+        if (n_ == N) return *this;
+
+        if (!isRef_) destroy();
+        initialize(N, 1);
+
+        return *this;
+    }
+
+    /**
+     * Resize the vector with multiple strides.
+     * 
+     * \param N   Total size
+     * \param s   Number of strides
+     * \param comm Intracommunicator for stride split.
+     */
+#ifdef HAVE_MPI
+    Vector<T>& newsize(lint N, lint s, MPI::Intracomm* comm = NULL)
+    {
+       _comm = comm;
+#else
+    Vector<T>& newsize(lint N, lint s)
+    {
+#endif
+
+       if (n_ == N && nstrides_ == s) return *this;
+
+       destroy();
+       initialize(N, s);
+
+       return *this;
+    }
+    
+
+    void operator *=(const T &scalar)
+    {
+       for (lint s=0; s < nstrides_; s++){
+	  lint i;
+#ifdef _OPENMP    
+#pragma omp parallel for schedule(static) default(shared) private(i)
+#endif	  
+          for (i=0; i< stride_size_; i++){
+             v_[s][i] *= scalar;
+          }
+       }
+    }
+    
+    // assignments
+    //
+    Vector<T>& operator=(const Vector<T> &A)
+    {
+        if (v_ == A.v_)
+            return *this;
+
+	
+        if (n_ == A.n_ && nstrides_ == A.nstrides_){
+	   /* no need to re-alloc */
+            copy(A.v_);
+	} else {
+            if (!isRef_) destroy();
+            initialize(A.n_, A.nstrides_);
+            copy(A.v_);
+        }
+        return *this;
+    }
+        
+    Vector<T>& operator=(const T& scalar)
+    { 
+        set(scalar);
+        return *this;
+    }
+
+    /**
+     * Copy a vector into a single stride.
+     *
+     * \param vec    The vector to inject
+     * \param source The source stride in vec
+     * \param dest   The destination stride
+     */
+    bool StrideCopy(Vector<T> &vec, lint source, lint dest = 0)
+    {
+       if ( dest > nstrides_ || vec.stride_size_ != stride_size_ || source > vec.strides() )
+	  return false;
+	
+       for (lint i=0; i < stride_size_; i++)
+         v_[dest][i] = vec.v_[source][i];
+       
+       return true;
+    }
+    
+    /**
+     */
+    Vector<T>& CopySub(Vector<T> &A, lint begin, lint end)
+    {
+       if (v_ == A.v_)
+          return *this;
+
+       lint rsize = abs(end-begin)+1;
+       
+       if ( abs(rsize) > A.n_) return *this;
+	
+       if (n_ >= rsize  && nstrides_ == A.nstrides_){
+          /* no need to re-alloc */
+          copy(A.v_, begin, rsize);
+       } else {
+          if (!isRef_) destroy();
+          initialize(rsize, A.nstrides_);
+          copy(A.v_, begin, rsize);
+       }
+       return *this;
+    }
+    
+    inline lint size() const
+    {
+        return  n_;
+    }
+
+    /**
+     * Gives the local size of the actual stride.
+     * 
+     * We need this later for vectors which are strided by over multiple processes (e.g. MPI);
+     */
+    inline lint lsize() const
+    {
+       return  stride_size_;
+    }
+
+    /**
+     * Returns the number of strides.
+     */
+    inline lint strides() const 
+    {
+       return  nstrides_;
+    }
+
+    /**
+     * Gives the global start index of the actual stride.
+     * 
+     * We need this later for vectors which are strided by over multiple processes (e.g. MPI);
+     */
+    inline lint start() const 
+    {
+       return  0;
+    }
+
+    /**
+     * Gives the global end index+1 of the actual stride.
+     * 
+     * We need this later for vectors which are strided by over multiple processes (e.g. MPI);
+     */
+    inline lint stop() const 
+    {
+       return  n_;
+    }
+
+
+    inline reference operator[](lint i)
+    { 
+	lint s = i / stride_size_;
+	lint j = i % stride_size_;
+        return v_[s][j];
+    }
+
+    inline const_reference operator[](lint i) const
+    {
+	lint s = i / stride_size_;
+	lint j = i % stride_size_;
+        return v_[s][j];
+    }
+
+
+    inline T Norm() const
+    {
+       T sum=0;
+       for (lint i=0; i < n_; i++)
+          sum += conj((*this)[i]) * (*this)[i];
+
+       return sqrt(sum);
+    }
+};
+
+
+/* ***************************  I/O  ********************************/
+
+template <class T>
+std::ostream& operator<<(std::ostream &s, const Vector<T> &A)
+{
+    lint N=A.size();
+
+    s <<  N << "\n";
+
+    for (lint i=0; i<N; i++)
+        s   << A[i] << " " << "\n";
+    s << "\n";
+
+    return s;
+}
+
+template <class T>
+std::istream & operator>>(std::istream &s, Vector<T> &A)
+{
+
+    lint N;
+
+    s >> N;
+
+    if ( !(N == A.size() ))
+    {
+        A.newsize(N);
+    }
+
+
+    for (lint i=0; i<N; i++)
+            s >>  A[i];
+
+
+    return s;
+}
+
+// *******************[ basic matrix algorithms ]***************************
+
+template <class T>
+void operator+=(Vector<T> &A, const T val)
+{
+   lint N = A.size();
+
+   for (int i=0; i<N; i++)
+      A[i] += val;
+}
+
+template <class T>
+void operator-=(Vector<T> &A, const T val)
+{
+   lint N = A.size();
+
+   for (int i=0; i<N; i++)
+      A[i] -= val;
+}
+
+
+template <class T>
+Vector<T> operator+(const Vector<T> &A, 
+    const Vector<T> &B)
+{
+    lint N = A.size();
+
+    assert(N==B.size());
+
+    Vector<T> tmp(N);
+    lint i;
+
+    for (i=0; i<N; i++)
+            tmp[i] = A[i] + B[i];
+
+    return tmp;
+}
+
+template <class T>
+Vector<T> operator+=(Vector<T> &A, 
+    const Vector<T> &B)
+{
+   lint N = A.size();
+
+   assert(N==B.size());
+
+    lint i;
+
+    for (i=0; i<N; i++)
+            A[i] += B[i];
+
+    return A;
+}
+
+template <class T>
+Vector<T> operator-(const Vector<T> &A, 
+    const Vector<T> &B)
+{
+   lint N = A.size();
+
+   assert(N==B.size());
+
+    Vector<T> tmp(N);
+    lint i;
+
+    for (i=0; i<N; i++)
+            tmp[i] = A[i] - B[i];
+
+    return tmp;
+}
+
+template <class T>
+Vector<T> operator-=(Vector<T> &A, 
+    const Vector<T> &B)
+{
+   lint N = A.size();
+
+   assert(N==B.size());
+
+    lint i;
+
+    for (i=0; i<N; i++)
+            A[i] -= B[i];
+
+    return A;
+}
+
+
+
+
+template <class T>
+Vector<T> elementwise_mult(const Vector<T> &A, const Vector<T> &B)
+{
+   lint N = A.size();
+
+   assert(N==B.size());
+
+    Vector<T> tmp(N);
+    lint i;
+
+    for (i=0; i<N; i++)
+            tmp[i] = A[i] * B[i];
+
+    return tmp;
+}
+
+
+template <class T>
+double norm(const Vector<T> &A)
+{
+	lint N = A.size();
+
+	double sum = 0.0;
+	for (int i=0; i<N; i++)
+		sum +=  abs(A[i])*abs(A[i]);
+	return sqrt(sum);
+}
+
+
+
+template <class T>
+inline T dot_prod(const Vector<T> &A, const Vector<T> &B)
+{
+    lint N = A.size();
+    assert(N == B.size());
+
+    lint i;
+    T sum = 0;
+
+    for (i=0; i<N; i++)
+        sum += A[i] * B[i];
+    return sum;
+}
+
+template <class T>
+inline T dot_product(const Vector<T> &A, const Vector<T> &B)
+{
+	return dot_prod(A, B);
+}
+
+
+template <class T>
+inline T operator*(const Vector<T> &A, 
+    const Vector<T> &B)
+{
+    return dot_prod(A,B);
+}
+
+
+template <class T>
+Vector<T> operator*(const T &a, const Vector<T> &A)
+{
+   lint N = A.size();
+	Vector<T> r(N);
+
+	for (int i=0; i<N; i++)
+		r[i] = A[i] * a;
+
+	return r;
+}
+
+template <class T>
+inline Vector<T> operator*(const Vector<T> &A, const T& a)
+{
+	return a * A;
+}
+
+
+}   /* namespace QDLIB */
+
+
+#endif
+
-- 
2.43.0


From 7a3bf945688f0876623996239607af17ccb2df92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:14 +0000
Subject: [PATCH 43/64] fix: restore the line endings of Vector.h changed by
 the previous commit

---
 src/math/Vector.h | 1846 ++++++++++++++++++++++-----------------------
 1 file changed, 923 insertions(+), 923 deletions(-)

diff --git a/src/math/Vector.h b/src/math/Vector.h
index 1c6933e..6db9ce2 100644
--- a/src/math/Vector.h
+++ b/src/math/Vector.h
@@ -1,923 +1,923 @@
-/*
-*
-* Template Numerical Toolkit (TNT)
-*
-* Mathematical and Computational Sciences Division
-* National Institute of Technology,
-* Gaithersburg, MD USA
-*
-*
-* This software was developed at the National Institute of Standards and
-* Technology (NIST) by employees of the Federal Government in the course
-* of their official duties. Pursuant to title 17 Section 105 of the
-* United States Code, this software is not subject to copyright protection
-* and is in the public domain. NIST assumes no responsibility whatsoever for
-* its use by other parties, and makes no guarantees, expressed or implied,
-* about its quality, reliability, or any other characteristic.
-*
-*/
-
-
-
-#ifndef QDLIBVECTOR_H
-#define QDLIBVECTOR_H
-
-#include <cstdlib>
-#include <cassert>
-#include <iostream>
-#include <sstream>
-#include <cmath>
-#include <string.h>
-
-
-#ifdef HAVE_MPI
-#include "mpi.h"
-#endif
-
-#include "tools/Memory.h"
-
-using namespace std;
-
-namespace QDLIB
-{
-
-//namespace Linear_Algebra
-// {
-
-
-/**
- * Linear algebra vector. 
- * 
- * Supports strided vectors which are discontinous in memory.
- */
-template <class T>
-class Vector 
-{
-
-
-  public:
-
-    typedef lint   size_type;
-    typedef         T   value_type;
-    typedef         T   element_type;
-    typedef         T*  pointer;
-    typedef         T*  iterator;
-    typedef         T&  reference;
-    typedef const   T*  const_iterator;
-    typedef const   T&  const_reference;
-
-    lint lbound() const { return 1;}
- 
-    
-  private:
-    T** v_;
-    lint n_;
-
-    Vector<T> **_StrideRefObj; /** If a stride is just reference, the pointer to master instance is here */
-    lint *_SourceStride;       /** Stride Ref source */
-    bool _StorageLocked;       /** Storage can not be retired */
-
-    size_type nstrides_;
-    size_type stride_size_;
-
-    bool isRef_;
-
-    int _mpirank;
-    int _mpisize;
-
-#ifdef HAVE_MPI
-    MPI::Intracomm *_comm;
-#endif
-    
-    
-    /**
-     * Initialize/allocate memory for the vector.
-     * 
-     * \param N       size of the vector.
-     * \param strides number of strides.
-     */
-    void initialize(lint N, lint strides)
-    {
-#ifdef HAVE_MPI
-       if (_comm != NULL){
-          _mpirank = _comm->Get_rank();
-          _mpisize = _comm->Get_size();
-       }
-#endif
-      nstrides_ = strides;
-      stride_size_ = N / strides;
-      n_ = N;
-      
-      v_ = new T*[strides];
-      _StrideRefObj = new Vector<T>*[strides];
-      _SourceStride = new lint[strides];
-      
-      isRef_ = false;
-      _StorageLocked = false;
-      
-      for (lint i=0; i < nstrides_; i++){
-         v_[i] = NULL;
-         _StrideRefObj[i] = NULL;
-         _SourceStride[i] = -1;
-      }
-
-      try {
-         for (lint i=0; i < nstrides_; i++){
-            if (stride_size_ > 0) {
-               Memory& mem = Memory::Instance();
-               mem.Align((void**) &(v_[i]), sizeof(T)*stride_size_);
-            }
-         }
-      } catch (...) { /* Leave an empty vector behind */
-         destroy();
-         n_ = nstrides_ = stride_size_ = 0;
-         throw;
-      }
-    }
-   
-    /** copy only part out of the strides. */
-    void copy(T* const *v, lint begin, lint n)
-    {
-       for (lint s=0; s < nstrides_; s++)
-          for (lint i=0; i< n; i++)
-             v_[s][i] = v[s][begin+i];
-    }
-       
-    void copy(T* const *v)
-    {
-	for (lint s=0; s < nstrides_; s++){
-           lint i;
-#ifdef _OPENMP
-#pragma omp parallel for schedule(static) default(shared) private(i)
-#endif
-	   for (i=0; i< stride_size_; i++)
-            v_[s][i] = v[s][i];
-        }
-    }
-
-    void copy(const T *v)
-    {
-       for (lint s=0; s < nstrides_; s++){
-          lint i;
-#ifdef _OPENMP
-#pragma omp parallel for schedule(static) default(shared) private(i)
-#endif
-	  for (i=0; i< stride_size_; i++)
-	     v_[s][i] = v[i];
-       }
-    }
-
-    
-    void set(const T& val)
-    {
-       for (lint s=0; s < nstrides_; s++){
-          lint i;
-#ifdef _OPENMP
-#pragma omp parallel for schedule(static) default(shared) private(i)
-#endif
-	  for (i=0; i< stride_size_; i++){
-	     v_[s][i] = val;
-	  }
-       }
-	     
-
-    }
-    
-
-
-    void destroy()
-    {     
-        /* do nothing, if no memory has been previously allocated */
-       if (v_ != NULL && !isRef_){  /* Only destroy data if it's our own*/
-         for (lint s=0; s < nstrides_; s++){
-            if(v_[s] != NULL){
-               Memory::Instance().Free(v_[s]);
-               v_[s] = NULL;
-            }
-         }
-       }
-       if (v_ != NULL) { /* This pointer is always our own. */
-          delete[] v_;
-          v_ = NULL;
-       }
-       if (_StrideRefObj != NULL) {
-          delete[] _StrideRefObj;
-          delete[] _SourceStride;
-          _StrideRefObj = NULL;
-          _SourceStride = NULL;
-       }
-    }
-
-
-    protected:
-       /**
-        * Inject the pointer of a vector into a stride.
-        * 
-        * Use with extreme care. 
-        * If you destroy the original instance data in the strides
-        * it will be no longer valid!
-        * 
-        * \param vec    The vector to inject
-        * \param source The source stride in vec
-        * \param dest   The destination stride (Number must be larger!!!)
-        */
-       bool StrideRef(Vector<T> &vec, lint source, lint dest = 0)
-         {
-            if (isRef_ && vec.stride_size_ != stride_size_)
-               return false;
-
-            if (!isRef_) {
-               if (dest >= nstrides_)
-                  return false;
-               if (stride_size_ > 0)
-                  destroy();
-
-               initialize(0, nstrides_);
-
-               stride_size_ = vec.stride_size_;
-               isRef_ = true;
-            }
-            if (nstrides_ <= dest + 1)
-               nstrides_ = dest + 1;
-
-            n_ = nstrides_ * stride_size_;
-            v_[dest] = vec.v_[source];
-            _StrideRefObj[dest] = &vec;
-            _SourceStride[dest] = source;
-
-            return true;
-         }
-        
-       /**
-        * Reduce the size of the vector.
-        * 
-        * This is an irreversibel action.
-        */
-       void downsize(int N)
-       {
-          if (N <= n_) n_ = N;
-       }
-       
-  public:
-
-       /**
-        * Lock the internal storage against retirement.
-        */
-       void LockStorage() { _StorageLocked = true; }
-       void UnLockStorage() { _StorageLocked = false; }
-
-       /**
-        * Frees the data storage but not the properties.
-        *
-        * Use this feature to save memory. Advantegous if
-        * the object is used as temporary buffer.
-        */
-       void RetireStorage()
-       {
-          if (_StorageLocked)  return;
-          for (int s=0; s < nstrides_; s++){
-             if (_StrideRefObj[s] == NULL)
-                Memory::Instance().Free(v_[s]);
-             else
-                _StrideRefObj[s]->RetireStorage();
-
-             v_[s] = NULL; /* Invalidate pointer */
-          }
-       }
-
-       /**
-        * Get back storage freed with RetireStorage.
-        */
-       void ReaquireStorage()
-       {
-          if (_StorageLocked)  return;
-          for (int s=0; s < nstrides_; s++){
-             if (v_[s] == NULL){ /* Check if reaquire is needed*/
-                if ( _StrideRefObj[s] == NULL )
-                   Memory::Instance().Align((void**) &(v_[s]), sizeof(T)*stride_size_);
-                else {
-                   _StrideRefObj[s]->ReaquireStorage();
-                   v_[s] = _StrideRefObj[s]->v_[_SourceStride[s]];  /* Re-link the stride */
-                }
-             }
-          }
-
-       }
-
-       /**
-        * Returns the rank in the stride distribution.
-        */
-       int MPIrank()
-       {
-          return _mpirank;
-       }
-
-       /**
-        * Returns the number of procs over which the strides are distributed.
-        */
-       int MPIsize()
-       {
-          return _mpisize;
-       }
-
-#ifdef HAVE_MPI
-       /**
-        * Returns the communicator over which the strides are spread.
-        *
-        * \return NULL the vector is pure local.
-        */
-       MPI::Intracomm* GetComm()
-       {
-          return _comm;
-       }
-#endif
-       /**
-        * Sync Strides between processes.
-        *
-        * The strides of the local rank are broadcasted to all other ranks.
-        * Function is empty if mpi is not used.
-        */
-       void SyncStrides()
-       {
-#ifdef HAVE_MPI
-          if (_mpisize > 1 && _comm != NULL)
-             for (int s=0; s < nstrides_; s++)
-                _comm->Bcast( (void*) v_[s], sizeof(T) * stride_size_, MPI_BYTE, s % _mpisize);
-#endif
-       }
-    
-   /**
-    * Return a pointer to the local stride.
-    */
-    inline T* begin(lint stride) const { return v_[stride];}
-    
-    /**
-     * Return a pointer to the stride set.
-     * 
-     * This is a 2D array with sizes [strides][stride_size]
-     */
-    T** begin() const { return v_;}
-    
-    /**
-     * Get Size of a stride in bytes.
-     */
-    size_t sizeBytes() const { return stride_size_ * sizeof(T); }
-    
-    /**
-     * Swap the content of two vectors.
-     * 
-     * Only the pointers to the data will exchanged.
-     * Works only if both have the same size.
-     */
-    bool swap(Vector<T> &A)
-    {
-       T *p;
-       
-       if (n_ != A.n_) return false;
-       
-       for (lint s=0; s < nstrides_; s++){
-	 p = v_[s];
-	 v_[s] = A.v_[s];
-	 A.v_[s] = p;
-       }
-       return true;
-    }
-    
-   void FastCopy(Vector<T> &A)
-   {
-      if (n_ == A.n_ && nstrides_ == A.nstrides_) {
-         /* no need to re-alloc */
-         lint s;
-#ifdef _OPENMP  
-#pragma omp parallel for schedule(static) default(shared) private(s)
-#endif
-         for (s = _mpirank; s < nstrides_; s += _mpisize) {
-            Memory::Copy( (char*) v_[s], (char*) A.v_[s], sizeof(T) * stride_size_);
-
-         }
-      } else {
-         if (!isRef_)
-            destroy();
-
-#ifdef HAVE_MPI
-         _comm = A._comm;
-#endif
-         initialize(A.n_, A.nstrides_);
-         for (lint s = 0; s < nstrides_; s++)
-            Memory::Copy((char*) v_[s], (char*) A.v_[s], sizeof(T) * stride_size_);
-      }
-   }
-    
-    // destructor
-    ~Vector() 
-    {
-      destroy();
-    }
-
-    // constructors
-
-    Vector() : n_(0),
-               nstrides_(1),
-               stride_size_(0),
-               isRef_(false),
-               _mpirank(0),
-               _mpisize(1)
-#ifdef HAVE_MPI
-              ,_comm(NULL)
-#endif
-    {
-       initialize(n_, nstrides_);
-    }
-
-    
-    Vector(const Vector<T> &A) : n_(0),
-                                 nstrides_(1),
-                                 stride_size_(0),
-                                 isRef_(false),
-                                 _mpirank(0),
-                                 _mpisize(1)
-#ifdef HAVE_MPI
-                                 , _comm(NULL)
-#endif
-    {
-       initialize(A.n_, A.nstrides_);
-        copy(A.v_);
-    }
-   
-    Vector(lint N) : n_(0),
-                     nstrides_(1),
-                     stride_size_(0),
-                     isRef_(false),
-                     _mpirank(0),
-                     _mpisize(1)
-#ifdef HAVE_MPI
-                    ,_comm(NULL)
-#endif
-    {
-       initialize(N, nstrides_);
-    }
-    
-    Vector(lint N, lint strides) : n_(0),
-                                   nstrides_(0),
-                                   stride_size_(0),
-                                   isRef_(false),
-                                   _mpirank(0),
-                                   _mpisize(1)
-#ifdef HAVE_MPI
-                                   ,_comm(NULL)
-#endif
-    {
-       initialize(N, strides);
-    }
-    
-#ifdef HAVE_MPI
-    Vector(lint N, lint strides, MPI::Intracomm& comm) : n_(0),
-             nstrides_(0),
-             stride_size_(0),
-             isRef_(false),
-             _mpirank(0),
-             _mpisize(1),
-             _comm(&comm)
-    {
-       initialize(N, strides);
-    }
-#endif
-
-    Vector(lint N, const T& value) : n_(0),
-                                     nstrides_(1),
-                                     stride_size_(0),
-                                     isRef_(false),
-                                     _mpirank(0),
-                                     _mpisize(1)
-#ifdef HAVE_MPI
-                                     ,_comm(NULL)
-#endif
-    {
-        initialize(N, nstrides_);
-        set(value);
-    }
-
-    Vector(lint N, lint strides, const T** v) :  n_(N),
-                                                 nstrides_(strides),
-                                                 stride_size_(0),
-                                                 isRef_(false),
-                                                 _mpirank(0),
-                                                 _mpisize(1)
-#ifdef HAVE_MPI
-                                                 ,_comm(NULL)
-#endif
-    {
-        initialize(N, strides);
-        copy(v);
-    }
-
-    Vector(lint N, const T* v) :  n_(0),
-                                  nstrides_(1),
-                                  stride_size_(0),
-                                  isRef_(false),
-                                  _mpirank(0),
-                                  _mpisize(1)
-#ifdef HAVE_MPI
-                                  ,_comm(NULL)
-#endif
-    {
-       initialize(N, nstrides_);
-       copy(v);
-    }
-    
-    /**
-     * Resize the vector.
-     */
-    Vector<T>& newsize(lint N)
-    {
-        if (n_ == N) return *this;
-
-        if (!isRef_) destroy();
-        initialize(N, 1);
-
-        return *this;
-    }
-
-    /**
-     * Resize the vector with multiple strides.
-     * 
-     * \param N   Total size
-     * \param s   Number of strides
-     * \param comm Intracommunicator for stride split.
-     */
-#ifdef HAVE_MPI
-    Vector<T>& newsize(lint N, lint s, MPI::Intracomm* comm = NULL)
-    {
-       _comm = comm;
-#else
-    Vector<T>& newsize(lint N, lint s)
-    {
-#endif
-
-       if (n_ == N && nstrides_ == s) return *this;
-
-       destroy();
-       initialize(N, s);
-
-       return *this;
-    }
-    
-
-    void operator *=(const T &scalar)
-    {
-       for (lint s=0; s < nstrides_; s++){
-	  lint i;
-#ifdef _OPENMP    
-#pragma omp parallel for schedule(static) default(shared) private(i)
-#endif	  
-          for (i=0; i< stride_size_; i++){
-             v_[s][i] *= scalar;
-          }
-       }
-    }
-    
-    // assignments
-    //
-    Vector<T>& operator=(const Vector<T> &A)
-    {
-        if (v_ == A.v_)
-            return *this;
-
-	
-        if (n_ == A.n_ && nstrides_ == A.nstrides_){
-	   /* no need to re-alloc */
-            copy(A.v_);
-	} else {
-            if (!isRef_) destroy();
-            initialize(A.n_, A.nstrides_);
-            copy(A.v_);
-        }
-        return *this;
-    }
-        
-    Vector<T>& operator=(const T& scalar)
-    { 
-        set(scalar);
-        return *this;
-    }
-
-    /**
-     * Copy a vector into a single stride.
-     *
-     * \param vec    The vector to inject
-     * \param source The source stride in vec
-     * \param dest   The destination stride
-     */
-    bool StrideCopy(Vector<T> &vec, lint source, lint dest = 0)
-    {
-       if ( dest > nstrides_ || vec.stride_size_ != stride_size_ || source > vec.strides() )
-	  return false;
-	
-       for (lint i=0; i < stride_size_; i++)
-         v_[dest][i] = vec.v_[source][i];
-       
-       return true;
-    }
-    
-    /**
-     */
-    Vector<T>& CopySub(Vector<T> &A, lint begin, lint end)
-    {
-       if (v_ == A.v_)
-          return *this;
-
-       lint rsize = abs(end-begin)+1;
-       
-       if ( abs(rsize) > A.n_) return *this;
-	
-       if (n_ >= rsize  && nstrides_ == A.nstrides_){
-          /* no need to re-alloc */
-          copy(A.v_, begin, rsize);
-       } else {
-          if (!isRef_) destroy();
-          initialize(rsize, A.nstrides_);
-          copy(A.v_, begin, rsize);
-       }
-       return *this;
-    }
-    
-    inline lint size() const
-    {
-        return  n_;
-    }
-
-    /**
-     * Gives the local size of the actual stride.
-     * 
-     * We need this later for vectors which are strided by over multiple processes (e.g. MPI);
-     */
-    inline lint lsize() const
-    {
-       return  stride_size_;
-    }
-
-    /**
-     * Returns the number of strides.
-     */
-    inline lint strides() const 
-    {
-       return  nstrides_;
-    }
-
-    /**
-     * Gives the global start index of the actual stride.
-     * 
-     * We need this later for vectors which are strided by over multiple processes (e.g. MPI);
-     */
-    inline lint start() const 
-    {
-       return  0;
-    }
-
-    /**
-     * Gives the global end index+1 of the actual stride.
-     * 
-     * We need this later for vectors which are strided by over multiple processes (e.g. MPI);
-     */
-    inline lint stop() const 
-    {
-       return  n_;
-    }
-
-
-    inline reference operator[](lint i)
-    { 
-	lint s = i / stride_size_;
-	lint j = i % stride_size_;
-        return v_[s][j];
-    }
-
-    inline const_reference operator[](lint i) const
-    {
-	lint s = i / stride_size_;
-	lint j = i % stride_size_;
-        return v_[s][j];
-    }
-
-
-    inline T Norm() const
-    {
-       T sum=0;
-       for (lint i=0; i < n_; i++)
-          sum += conj((*this)[i]) * (*this)[i];
-
-       return sqrt(sum);
-    }
-};
-
-
-/* ***************************  I/O  ********************************/
-
-template <class T>
-std::ostream& operator<<(std::ostream &s, const Vector<T> &A)
-{
-    lint N=A.size();
-
-    s <<  N << "\n";
-
-    for (lint i=0; i<N; i++)
-        s   << A[i] << " " << "\n";
-    s << "\n";
-
-    return s;
-}
-
-template <class T>
-std::istream & operator>>(std::istream &s, Vector<T> &A)
-{
-
-    lint N;
-
-    s >> N;
-
-    if ( !(N == A.size() ))
-    {
-        A.newsize(N);
-    }
-
-
-    for (lint i=0; i<N; i++)
-            s >>  A[i];
-
-
-    return s;
-}
-
-// *******************[ basic matrix algorithms ]***************************
-
-template <class T>
-void operator+=(Vector<T> &A, const T val)
-{
-   lint N = A.size();
-
-   for (int i=0; i<N; i++)
-      A[i] += val;
-}
-
-template <class T>
-void operator-=(Vector<T> &A, const T val)
-{
-   lint N = A.size();
-
-   for (int i=0; i<N; i++)
-      A[i] -= val;
-}
-
-
-template <class T>
-Vector<T> operator+(const Vector<T> &A, 
-    const Vector<T> &B)
-{
-    lint N = A.size();
-
-    assert(N==B.size());
-
-    Vector<T> tmp(N);
-    lint i;
-
-    for (i=0; i<N; i++)
-            tmp[i] = A[i] + B[i];
-
-    return tmp;
-}
-
-template <class T>
-Vector<T> operator+=(Vector<T> &A, 
-    const Vector<T> &B)
-{
-   lint N = A.size();
-
-   assert(N==B.size());
-
-    lint i;
-
-    for (i=0; i<N; i++)
-            A[i] += B[i];
-
-    return A;
-}
-
-template <class T>
-Vector<T> operator-(const Vector<T> &A, 
-    const Vector<T> &B)
-{
-   lint N = A.size();
-
-   assert(N==B.size());
-
-    Vector<T> tmp(N);
-    lint i;
-
-    for (i=0; i<N; i++)
-            tmp[i] = A[i] - B[i];
-
-    return tmp;
-}
-
-template <class T>
-Vector<T> operator-=(Vector<T> &A, 
-    const Vector<T> &B)
-{
-   lint N = A.size();
-
-   assert(N==B.size());
-
-    lint i;
-
-    for (i=0; i<N; i++)
-            A[i] -= B[i];
-
-    return A;
-}
-
-
-
-
-template <class T>
-Vector<T> elementwise_mult(const Vector<T> &A, const Vector<T> &B)
-{
-   lint N = A.size();
-
-   assert(N==B.size());
-
-    Vector<T> tmp(N);
-    lint i;
-
-    for (i=0; i<N; i++)
-            tmp[i] = A[i] * B[i];
-
-    return tmp;
-}
-
-
-template <class T>
-double norm(const Vector<T> &A)
-{
-	lint N = A.size();
-
-	double sum = 0.0;
-	for (int i=0; i<N; i++)
-		sum +=  abs(A[i])*abs(A[i]);
-	return sqrt(sum);
-}
-
-
-
-template <class T>
-inline T dot_prod(const Vector<T> &A, const Vector<T> &B)
-{
-    lint N = A.size();
-    assert(N == B.size());
-
-    lint i;
-    T sum = 0;
-
-    for (i=0; i<N; i++)
-        sum += A[i] * B[i];
-    return sum;
-}
-
-template <class T>
-inline T dot_product(const Vector<T> &A, const Vector<T> &B)
-{
-	return dot_prod(A, B);
-}
-
-
-template <class T>
-inline T operator*(const Vector<T> &A, 
-    const Vector<T> &B)
-{
-    return dot_prod(A,B);
-}
-
-
-template <class T>
-Vector<T> operator*(const T &a, const Vector<T> &A)
-{
-   lint N = A.size();
-	Vector<T> r(N);
-
-	for (int i=0; i<N; i++)
-		r[i] = A[i] * a;
-
-	return r;
-}
-
-template <class T>
-inline Vector<T> operator*(const Vector<T> &A, const T& a)
-{
-	return a * A;
-}
-
-
-}   /* namespace QDLIB */
-
-
-#endif
-
+/*
+*
+* Template Numerical Toolkit (TNT)
+*
+* Mathematical and Computational Sciences Division
+* National Institute of Technology,
+* Gaithersburg, MD USA
+*
+*
+* This software was developed at the National Institute of Standards and
+* Technology (NIST) by employees of the Federal Government in the course
+* of their official duties. Pursuant to title 17 Section 105 of the
+* United States Code, this software is not subject to copyright protection
+* and is in the public domain. NIST assumes no responsibility whatsoever for
+* its use by other parties, and makes no guarantees, expressed or implied,
+* about its quality, reliability, or any other characteristic.
+*
+*/
+
+
+
+#ifndef QDLIBVECTOR_H
+#define QDLIBVECTOR_H
+
+#include <cstdlib>
+#include <cassert>
+#include <iostream>
+#include <sstream>
+#include <cmath>
+#include <string.h>
+
+
+#ifdef HAVE_MPI
+#include "mpi.h"
+#endif
+
+#include "tools/Memory.h"
+
+using namespace std;
+
+namespace QDLIB
+{
+
+//namespace Linear_Algebra
+// {
+
+
+/**
+ * Linear algebra vector. 
+ * 
+ * Supports strided vectors which are discontinous in memory.
+ */
+template <class T>
+class Vector 
+{
+
+
+  public:
+
+    typedef lint   size_type;
+    typedef         T   value_type;
+    typedef         T   element_type;
+    typedef         T*  pointer;
+    typedef         T*  iterator;
+    typedef         T&  reference;
+    typedef const   T*  const_iterator;
+    typedef const   T&  const_reference;
+
+    lint lbound() const { return 1;}
+ 
+    
+  private:
+    T** v_;
+    lint n_;
+
+    Vector<T> **_StrideRefObj; /** If a stride is just reference, the pointer to master instance is here */
+    lint *_SourceStride;       /** Stride Ref source */
+    bool _StorageLocked;       /** Storage can not be retired */
+
+    size_type nstrides_;
+    size_type stride_size_;
+
+    bool isRef_;
+
+    int _mpirank;
+    int _mpisize;
+
+#ifdef HAVE_MPI
+    MPI::Intracomm *_comm;
+#endif
+    
+    
+    /**
+     * Initialize/allocate memory for the vector.
+     * 
+     * \param N       size of the vector.
+     * \param strides number of strides.
+     */
+    void initialize(lint N, lint strides)
+    {
+#ifdef HAVE_MPI
+       if (_comm != NULL){
+          _mpirank = _comm->Get_rank();
+          _mpisize = _comm->Get_size();
+       }
+#endif
+      nstrides_ = strides;
+      stride_size_ = N / strides;
+      n_ = N;
+      
+      v_ = new T*[strides];
+      _StrideRefObj = new Vector<T>*[strides];
+      _SourceStride = new lint[strides];
+      
+      isRef_ = false;
+      _StorageLocked = false;
+      
+      for (lint i=0; i < nstrides_; i++){
+         v_[i] = NULL;
+         _StrideRefObj[i] = NULL;
+         _SourceStride[i] = -1;
+      }
+
+      try {
+         for (lint i=0; i < nstrides_; i++){
+            if (stride_size_ > 0) {
+               Memory& mem = Memory::Instance();
+               mem.Align((void**) &(v_[i]), sizeof(T)*stride_size_);
+            }
+         }
+      } catch (...) { /* Leave an empty vector behind */
+         destroy();
+         n_ = nstrides_ = stride_size_ = 0;
+         throw;
+      }
+    }
+   
+    /** copy only part out of the strides. */
+    void copy(T* const *v, lint begin, lint n)
+    {
+       for (lint s=0; s < nstrides_; s++)
+          for (lint i=0; i< n; i++)
+             v_[s][i] = v[s][begin+i];
+    }
+       
+    void copy(T* const *v)
+    {
+	for (lint s=0; s < nstrides_; s++){
+           lint i;
+#ifdef _OPENMP
+#pragma omp parallel for schedule(static) default(shared) private(i)
+#endif
+	   for (i=0; i< stride_size_; i++)
+            v_[s][i] = v[s][i];
+        }
+    }
+
+    void copy(const T *v)
+    {
+       for (lint s=0; s < nstrides_; s++){
+          lint i;
+#ifdef _OPENMP
+#pragma omp parallel for schedule(static) default(shared) private(i)
+#endif
+	  for (i=0; i< stride_size_; i++)
+	     v_[s][i] = v[i];
+       }
+    }
+
+    
+    void set(const T& val)
+    {
+       for (lint s=0; s < nstrides_; s++){
+          lint i;
+#ifdef _OPENMP
+#pragma omp parallel for schedule(static) default(shared) private(i)
+#endif
+	  for (i=0; i< stride_size_; i++){
+	     v_[s][i] = val;
+	  }
+       }
+	     
+
+    }
+    
+
+
+    void destroy()
+    {     
+        /* do nothing, if no memory has been previously allocated */
+       if (v_ != NULL && !isRef_){  /* Only destroy data if it's our own*/
+         for (lint s=0; s < nstrides_; s++){
+            if(v_[s] != NULL){
+               Memory::Instance().Free(v_[s]);
+               v_[s] = NULL;
+            }
+         }
+       }
+       if (v_ != NULL) { /* This pointer is always our own. */
+          delete[] v_;
+          v_ = NULL;
+       }
+       if (_StrideRefObj != NULL) {
+          delete[] _StrideRefObj;
+          delete[] _SourceStride;
+          _StrideRefObj = NULL;
+          _SourceStride = NULL;
+       }
+    }
+
+
+    protected:
+       /**
+        * Inject the pointer of a vector into a stride.
+        * 
+        * Use with extreme care. 
+        * If you destroy the original instance data in the strides
+        * it will be no longer valid!
+        * 
+        * \param vec    The vector to inject
+        * \param source The source stride in vec
+        * \param dest   The destination stride (Number must be larger!!!)
+        */
+       bool StrideRef(Vector<T> &vec, lint source, lint dest = 0)
+         {
+            if (isRef_ && vec.stride_size_ != stride_size_)
+               return false;
+
+            if (!isRef_) {
+               if (dest >= nstrides_)
+                  return false;
+               if (stride_size_ > 0)
+                  destroy();
+
+               initialize(0, nstrides_);
+
+               stride_size_ = vec.stride_size_;
+               isRef_ = true;
+            }
+            if (nstrides_ <= dest + 1)
+               nstrides_ = dest + 1;
+
+            n_ = nstrides_ * stride_size_;
+            v_[dest] = vec.v_[source];
+            _StrideRefObj[dest] = &vec;
+            _SourceStride[dest] = source;
+
+            return true;
+         }
+        
+       /**
+        * Reduce the size of the vector.
+        * 
+        * This is an irreversibel action.
+        */
+       void downsize(int N)
+       {
+          if (N <= n_) n_ = N;
+       }
+       
+  public:
+
+       /**
+        * Lock the internal storage against retirement.
+        */
+       void LockStorage() { _StorageLocked = true; }
+       void UnLockStorage() { _StorageLocked = false; }
+
+       /**
+        * Frees the data storage but not the properties.
+        *
+        * Use this feature to save memory. Advantegous if
+        * the object is used as temporary buffer.
+        */
+       void RetireStorage()
+       {
+          if (_StorageLocked)  return;
+          for (int s=0; s < nstrides_; s++){
+             if (_StrideRefObj[s] == NULL)
+                Memory::Instance().Free(v_[s]);
+             else
+                _StrideRefObj[s]->RetireStorage();
+
+             v_[s] = NULL; /* Invalidate pointer */
+          }
+       }
+
+       /**
+        * Get back storage freed with RetireStorage.
+        */
+       void ReaquireStorage()
+       {
+          if (_StorageLocked)  return;
+          for (int s=0; s < nstrides_; s++){
+             if (v_[s] == NULL){ /* Check if reaquire is needed*/
+                if ( _StrideRefObj[s] == NULL )
+                   Memory::Instance().Align((void**) &(v_[s]), sizeof(T)*stride_size_);
+                else {
+                   _StrideRefObj[s]->ReaquireStorage();
+                   v_[s] = _StrideRefObj[s]->v_[_SourceStride[s]];  /* Re-link the stride */
+                }
+             }
+          }
+
+       }
+
+       /**
+        * Returns the rank in the stride distribution.
+        */
+       int MPIrank()
+       {
+          return _mpirank;
+       }
+
+       /**
+        * Returns the number of procs over which the strides are distributed.
+        */
+       int MPIsize()
+       {
+          return _mpisize;
+       }
+
+#ifdef HAVE_MPI
+       /**
+        * Returns the communicator over which the strides are spread.
+        *
+        * \return NULL the vector is pure local.
+        */
+       MPI::Intracomm* GetComm()
+       {
+          return _comm;
+       }
+#endif
+       /**
+        * Sync Strides between processes.
+        *
+        * The strides of the local rank are broadcasted to all other ranks.
+        * Function is empty if mpi is not used.
+        */
+       void SyncStrides()
+       {
+#ifdef HAVE_MPI
+          if (_mpisize > 1 && _comm != NULL)
+             for (int s=0; s < nstrides_; s++)
+                _comm->Bcast( (void*) v_[s], sizeof(T) * stride_size_, MPI_BYTE, s % _mpisize);
+#endif
+       }
+    
+   /**
+    * Return a pointer to the local stride.
+    */
+    inline T* begin(lint stride) const { return v_[stride];}
+    
+    /**
+     * Return a pointer to the stride set.
+     * 
+     * This is a 2D array with sizes [strides][stride_size]
+     */
+    T** begin() const { return v_;}
+    
+    /**
+     * Get Size of a stride in bytes.
+     */
+    size_t sizeBytes() const { return stride_size_ * sizeof(T); }
+    
+    /**
+     * Swap the content of two vectors.
+     * 
+     * Only the pointers to the data will exchanged.
+     * Works only if both have the same size.
+     */
+    bool swap(Vector<T> &A)
+    {
+       T *p;
+       
+       if (n_ != A.n_) return false;
+       
+       for (lint s=0; s < nstrides_; s++){
+	 p = v_[s];
+	 v_[s] = A.v_[s];
+	 A.v_[s] = p;
+       }
+       return true;
+    }
+    
+   void FastCopy(Vector<T> &A)
+   {
+      if (n_ == A.n_ && nstrides_ == A.nstrides_) {
+         /* no need to re-alloc */
+         lint s;
+#ifdef _OPENMP  
+#pragma omp parallel for schedule(static) default(shared) private(s)
+#endif
+         for (s = _mpirank; s < nstrides_; s += _mpisize) {
+            Memory::Copy( (char*) v_[s], (char*) A.v_[s], sizeof(T) * stride_size_);
+
+         }
+      } else {
+         if (!isRef_)
+            destroy();
+
+#ifdef HAVE_MPI
+         _comm = A._comm;
+#endif
+         initialize(A.n_, A.nstrides_);
+         for (lint s = 0; s < nstrides_; s++)
+            Memory::Copy((char*) v_[s], (char*) A.v_[s], sizeof(T) * stride_size_);
+      }
+   }
+    
+    // destructor
+    ~Vector() 
+    {
+      destroy();
+    }
+
+    // constructors
+
+    Vector() : n_(0),
+               nstrides_(1),
+               stride_size_(0),
+               isRef_(false),
+               _mpirank(0),
+               _mpisize(1)
+#ifdef HAVE_MPI
+              ,_comm(NULL)
+#endif
+    {
+       initialize(n_, nstrides_);
+    }
+
+    
+    Vector(const Vector<T> &A) : n_(0),
+                                 nstrides_(1),
+                                 stride_size_(0),
+                                 isRef_(false),
+                                 _mpirank(0),
+                                 _mpisize(1)
+#ifdef HAVE_MPI
+                                 , _comm(NULL)
+#endif
+    {
+       initialize(A.n_, A.nstrides_);
+        copy(A.v_);
+    }
+   
+    Vector(lint N) : n_(0),
+                     nstrides_(1),
+                     stride_size_(0),
+                     isRef_(false),
+                     _mpirank(0),
+                     _mpisize(1)
+#ifdef HAVE_MPI
+                    ,_comm(NULL)
+#endif
+    {
+       initialize(N, nstrides_);
+    }
+    
+    Vector(lint N, lint strides) : n_(0),
+                                   nstrides_(0),
+                                   stride_size_(0),
+                                   isRef_(false),
+                                   _mpirank(0),
+                                   _mpisize(1)
+#ifdef HAVE_MPI
+                                   ,_comm(NULL)
+#endif
+    {
+       initialize(N, strides);
+    }
+    
+#ifdef HAVE_MPI
+    Vector(lint N, lint strides, MPI::Intracomm& comm) : n_(0),
+             nstrides_(0),
+             stride_size_(0),
+             isRef_(false),
+             _mpirank(0),
+             _mpisize(1),
+             _comm(&comm)
+    {
+       initialize(N, strides);
+    }
+#endif
+
+    Vector(lint N, const T& value) : n_(0),
+                                     nstrides_(1),
+                                     stride_size_(0),
+                                     isRef_(false),
+                                     _mpirank(0),
+                                     _mpisize(1)
+#ifdef HAVE_MPI
+                                     ,_comm(NULL)
+#endif
+    {
+        initialize(N, nstrides_);
+        set(value);
+    }
+
+    Vector(lint N, lint strides, const T** v) :  n_(N),
+                                                 nstrides_(strides),
+                                                 stride_size_(0),
+                                                 isRef_(false),
+                                                 _mpirank(0),
+                                                 _mpisize(1)
+#ifdef HAVE_MPI
+                                                 ,_comm(NULL)
+#endif
+    {
+        initialize(N, strides);
+        copy(v);
+    }
+
+    Vector(lint N, const T* v) :  n_(0),
+                                  nstrides_(1),
+                                  stride_size_(0),
+                                  isRef_(false),
+                                  _mpirank(0),
+                                  _mpisize(1)
+#ifdef HAVE_MPI
+                                  ,_comm(NULL)
+#endif
+    {
+       initialize(N, nstrides_);
+       copy(v);
+    }
+    
+    /**
+     * Resize the vector.
+     */
+    Vector<T>& newsize(lint N)
+    {
+        if (n_ == N) return *this;
+
+        if (!isRef_) destroy();
+        initialize(N, 1);
+
+        return *this;
+    }
+
+    /**
+     * Resize the vector with multiple strides.
+     * 
+     * \param N   Total size
+     * \param s   Number of strides
+     * \param comm Intracommunicator for stride split.
+     */
+#ifdef HAVE_MPI
+    Vector<T>& newsize(lint N, lint s, MPI::Intracomm* comm = NULL)
+    {
+       _comm = comm;
+#else
+    Vector<T>& newsize(lint N, lint s)
+    {
+#endif
+
+       if (n_ == N && nstrides_ == s) return *this;
+
+       destroy();
+       initialize(N, s);
+
+       return *this;
+    }
+    
+
+    void operator *=(const T &scalar)
+    {
+       for (lint s=0; s < nstrides_; s++){
+	  lint i;
+#ifdef _OPENMP    
+#pragma omp parallel for schedule(static) default(shared) private(i)
+#endif	  
+          for (i=0; i< stride_size_; i++){
+             v_[s][i] *= scalar;
+          }
+       }
+    }
+    
+    // assignments
+    //
+    Vector<T>& operator=(const Vector<T> &A)
+    {
+        if (v_ == A.v_)
+            return *this;
+
+	
+        if (n_ == A.n_ && nstrides_ == A.nstrides_){
+	   /* no need to re-alloc */
+            copy(A.v_);
+	} else {
+            if (!isRef_) destroy();
+            initialize(A.n_, A.nstrides_);
+            copy(A.v_);
+        }
+        return *this;
+    }
+        
+    Vector<T>& operator=(const T& scalar)
+    { 
+        set(scalar);
+        return *this;
+    }
+
+    /**
+     * Copy a vector into a single stride.
+     *
+     * \param vec    The vector to inject
+     * \param source The source stride in vec
+     * \param dest   The destination stride
+     */
+    bool StrideCopy(Vector<T> &vec, lint source, lint dest = 0)
+    {
+       if ( dest > nstrides_ || vec.stride_size_ != stride_size_ || source > vec.strides() )
+	  return false;
+	
+       for (lint i=0; i < stride_size_; i++)
+         v_[dest][i] = vec.v_[source][i];
+       
+       return true;
+    }
+    
+    /**
+     */
+    Vector<T>& CopySub(Vector<T> &A, lint begin, lint end)
+    {
+       if (v_ == A.v_)
+          return *this;
+
+       lint rsize = abs(end-begin)+1;
+       
+       if ( abs(rsize) > A.n_) return *this;
+	
+       if (n_ >= rsize  && nstrides_ == A.nstrides_){
+          /* no need to re-alloc */
+          copy(A.v_, begin, rsize);
+       } else {
+          if (!isRef_) destroy();
+          initialize(rsize, A.nstrides_);
+          copy(A.v_, begin, rsize);
+       }
+       return *this;
+    }
+    
+    inline lint size() const
+    {
+        return  n_;
+    }
+
+    /**
+     * Gives the local size of the actual stride.
+     * 
+     * We need this later for vectors which are strided by over multiple processes (e.g. MPI);
+     */
+    inline lint lsize() const
+    {
+       return  stride_size_;
+    }
+
+    /**
+     * Returns the number of strides.
+     */
+    inline lint strides() const 
+    {
+       return  nstrides_;
+    }
+
+    /**
+     * Gives the global start index of the actual stride.
+     * 
+     * We need this later for vectors which are strided by over multiple processes (e.g. MPI);
+     */
+    inline lint start() const 
+    {
+       return  0;
+    }
+
+    /**
+     * Gives the global end index+1 of the actual stride.
+     * 
+     * We need this later for vectors which are strided by over multiple processes (e.g. MPI);
+     */
+    inline lint stop() const 
+    {
+       return  n_;
+    }
+
+
+    inline reference operator[](lint i)
+    { 
+	lint s = i / stride_size_;
+	lint j = i % stride_size_;
+        return v_[s][j];
+    }
+
+    inline const_reference operator[](lint i) const
+    {
+	lint s = i / stride_size_;
+	lint j = i % stride_size_;
+        return v_[s][j];
+    }
+
+
+    inline T Norm() const
+    {
+       T sum=0;
+       for (lint i=0; i < n_; i++)
+          sum += conj((*this)[i]) * (*this)[i];
+
+       return sqrt(sum);
+    }
+};
+
+
+/* ***************************  I/O  ********************************/
+
+template <class T>
+std::ostream& operator<<(std::ostream &s, const Vector<T> &A)
+{
+    lint N=A.size();
+
+    s <<  N << "\n";
+
+    for (lint i=0; i<N; i++)
+        s   << A[i] << " " << "\n";
+    s << "\n";
+
+    return s;
+}
+
+template <class T>
+std::istream & operator>>(std::istream &s, Vector<T> &A)
+{
+
+    lint N;
+
+    s >> N;
+
+    if ( !(N == A.size() ))
+    {
+        A.newsize(N);
+    }
+
+
+    for (lint i=0; i<N; i++)
+            s >>  A[i];
+
+
+    return s;
+}
+
+// *******************[ basic matrix algorithms ]***************************
+
+template <class T>
+void operator+=(Vector<T> &A, const T val)
+{
+   lint N = A.size();
+
+   for (int i=0; i<N; i++)
+      A[i] += val;
+}
+
+template <class T>
+void operator-=(Vector<T> &A, const T val)
+{
+   lint N = A.size();
+
+   for (int i=0; i<N; i++)
+      A[i] -= val;
+}
+
+
+template <class T>
+Vector<T> operator+(const Vector<T> &A, 
+    const Vector<T> &B)
+{
+    lint N = A.size();
+
+    assert(N==B.size());
+
+    Vector<T> tmp(N);
+    lint i;
+
+    for (i=0; i<N; i++)
+            tmp[i] = A[i] + B[i];
+
+    return tmp;
+}
+
+template <class T>
+Vector<T> operator+=(Vector<T> &A, 
+    const Vector<T> &B)
+{
+   lint N = A.size();
+
+   assert(N==B.size());
+
+    lint i;
+
+    for (i=0; i<N; i++)
+            A[i] += B[i];
+
+    return A;
+}
+
+template <class T>
+Vector<T> operator-(const Vector<T> &A, 
+    const Vector<T> &B)
+{
+   lint N = A.size();
+
+   assert(N==B.size());
+
+    Vector<T> tmp(N);
+    lint i;
+
+    for (i=0; i<N; i++)
+            tmp[i] = A[i] - B[i];
+
+    return tmp;
+}
+
+template <class T>
+Vector<T> operator-=(Vector<T> &A, 
+    const Vector<T> &B)
+{
+   lint N = A.size();
+
+   assert(N==B.size());
+
+    lint i;
+
+    for (i=0; i<N; i++)
+            A[i] -= B[i];
+
+    return A;
+}
+
+
+
+
+template <class T>
+Vector<T> elementwise_mult(const Vector<T> &A, const Vector<T> &B)
+{
+   lint N = A.size();
+
+   assert(N==B.size());
+
+    Vector<T> tmp(N);
+    lint i;
+
+    for (i=0; i<N; i++)
+            tmp[i] = A[i] * B[i];
+
+    return tmp;
+}
+
+
+template <class T>
+double norm(const Vector<T> &A)
+{
+	lint N = A.size();
+
+	double sum = 0.0;
+	for (int i=0; i<N; i++)
+		sum +=  abs(A[i])*abs(A[i]);
+	return sqrt(sum);
+}
+
+
+
+template <class T>
+inline T dot_prod(const Vector<T> &A, const Vector<T> &B)
+{
+    lint N = A.size();
+    assert(N == B.size());
+
+    lint i;
+    T sum = 0;
+
+    for (i=0; i<N; i++)
+        sum += A[i] * B[i];
+    return sum;
+}
+
+template <class T>
+inline T dot_product(const Vector<T> &A, const Vector<T> &B)
+{
+	return dot_prod(A, B);
+}
+
+
+template <class T>
+inline T operator*(const Vector<T> &A, 
+    const Vector<T> &B)
+{
+    return dot_prod(A,B);
+}
+
+
+template <class T>
+Vector<T> operator*(const T &a, const Vector<T> &A)
+{
+   lint N = A.size();
+	Vector<T> r(N);
+
+	for (int i=0; i<N; i++)
+		r[i] = A[i] * a;
+
+	return r;
+}
+
+template <class T>
+inline Vector<T> operator*(const Vector<T> &A, const T& a)
+{
+	return a * A;
+}
+
+
+}   /* namespace QDLIB */
+
+
+#endif
+
-- 
2.43.0


From 8b04738fa7a930ad211ac8eea2aee715cd6bde38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:51 +0000
Subject: [PATCH 44/64] fix: qdz loses data when interrupted and hides errors

Write the new version to a temporary file and rename it when it is complete,
end a series only where there is no further file, accept members of different
type, release the wave functions before the memory management goes away,
and make the documented default compression method work.
---
 src/qdz.cpp | 145 +++++++++++++++++++++++++++++++++-------------------
 1 file changed, 91 insertions(+), 54 deletions(-)

diff --git a/src/qdz.cpp b/src/qdz.cpp
index fc8d5f8..5a0d050 100644
--- a/src/qdz.cpp
+++ b/src/qdz.cpp
@@ -7,10 +7,17 @@
 #endif
 
 #include <iostream>
+#include <sstream>
 #include <cstdlib>
+#include <cstdio>
+#include <cerrno>
+
+#include <sys/stat.h>
+#include <unistd.h>
 
 #include "tools/Exception.h"
 #include "tools/Getopt.h"
+#include "tools/Memory.h"
 
 #include "qdlib/FileWF.h"
 
@@ -36,11 +43,59 @@ void PrepareCmdline(Getopt &cmdline)
                    "compression level (0=no compression, 9=best & slowest)", "4");
 
    cmdline.SetHelp('m', "compression method", false,
-                   "compression method (z=zlib [default], j=bzip2)", "m");
+                   "compression method (z=zlib [default], j=bzip2)", "z");
 
 
 }
 
+/**
+ * Check if a series has a file with the given number.
+ *
+ * Raw multistate sets have a file for every state.
+ */
+bool SeriesHasMember(const string &fname, int counter)
+{
+   const char* state[] = {"", "-0"};
+
+   for (int i=0; i < 2; i++) {
+      struct stat st;
+      stringstream ss;
+
+      ss << fname << state[i] << "_" << counter << BINARY_WF_SUFFIX;
+      if (stat(ss.str().c_str(), &st) == 0) return true;
+      if (errno != ENOENT)
+         throw (EIOError("Can not access file", ss.str()));
+   }
+
+   return false;
+}
+
+/**
+ * Replace a file by its new version.
+ *
+ * The old file is kept until the new one is complete. The wave function is released.
+ */
+void ReplaceFile(FileWF &wio, const string &name, WaveFunction *WF)
+{
+   string suffix = wio.Suffix();
+   string tmp = name + suffix + ".tmp";
+
+   wio.Suffix(suffix + ".tmp");
+   try {
+      wio << WF;
+
+      if (rename(tmp.c_str(), (name + suffix).c_str()) != 0)
+         throw (EIOError("Can not replace file", name + suffix));
+   } catch (...) {
+      unlink(tmp.c_str());
+      DELETE_WF(WF);
+      throw;
+   }
+
+   wio.Suffix(suffix);
+   DELETE_WF(WF);
+}
+
 /**
  * Decompress WF files.
  * 
@@ -61,42 +116,30 @@ void DeCompress(string fname, bool series)
       /* Remove compression flag */
       ParamContainer &p = WF->Params();
       p.SetValue("compress", false);
-      wio << WF;
+      ReplaceFile(wio, fname, WF);
    } else {
       int counter;
       wio.ActivateSequence();
       
+      /* Loop over the series */
       counter = wio.Counter();
-      WF = wio.LoadWaveFunctionByMeta();
-      
-      /* Remove compression flag */
-      ParamContainer &p = WF->Params();
-      p.SetValue("compress", false);
-      cout << "inflate " << counter << endl;
-      wio.Counter(counter);
-      wio << WF;
-      
-      /* Loop over rest of series */
-      try {
-         while (true){
-            counter = wio.Counter();
-            wio >> WF;
-            
-            cout << "inflate " << counter << endl;
-            /* Remove compression flag */
-            p = WF->Params();
-            p.SetValue("compress", false);
-            
-            wio.Counter(counter);
-            wio << WF;
-         }
-      } catch (Exception e) {
-         /** \todo capture real errors here */
-      }
-         
+      do {
+         stringstream name;
+         name << fname << "_" << counter;
+
+         WF = wio.LoadWaveFunctionByMeta();
+
+         cout << "inflate " << counter << endl;
+         /* Remove compression flag */
+         ParamContainer &p = WF->Params();
+         p.SetValue("compress", false);
+
+         wio.Counter(counter);
+         ReplaceFile(wio, name.str(), WF);
+
+         wio.Counter(++counter);
+      } while (SeriesHasMember(fname, counter));
    }
-      
-   DELETE_WF(WF);
 }
 
 
@@ -126,36 +169,27 @@ void Compress(string fname, bool series, double tol, int level, const string &me
    
    if (!series) {
       WF = wio.LoadWaveFunctionByMeta();
-      wio << WF;
+      ReplaceFile(wio, fname, WF);
    } else {
       int counter;
       wio.ActivateSequence();
       
+      /* Loop over the series */
       counter = wio.Counter();
-      WF = wio.LoadWaveFunctionByMeta();
-      
-      cout << "deflate " << counter << endl;
-      wio.Counter(counter);
-      wio << WF;
-      
-      /* Loop over rest of series */
-      try {
-         while (true){
-            counter = wio.Counter();
-            wio >> WF;
-            
-            cout << "deflate " << counter << endl;
-            
-            wio.Counter(counter);
-            wio << WF;
-         }
-      } catch (Exception e) {
-         /** \todo capture real errors here */
-      }
+      do {
+         stringstream name;
+         name << fname << "_" << counter;
 
+         WF = wio.LoadWaveFunctionByMeta();
+
+         cout << "deflate " << counter << endl;
+
+         wio.Counter(counter);
+         ReplaceFile(wio, name.str(), WF);
+
+         wio.Counter(++counter);
+      } while (SeriesHasMember(fname, counter));
    }
-   
-   DELETE_WF(WF);
 }
 
 
@@ -193,6 +227,9 @@ int main (int argc, char **argv)
    
    /* Global try-catch block */
    try {
+      /* The memory management has to live longer than the objects */
+      Memory::Instance();
+
       series = cmdline.GetOption('s');
       
       if ( cmdline.GetOption('d') ) {
-- 
2.43.0


From 53b64dce1ad4423c3318f2c21f72f5e988427738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:25 +0000
Subject: [PATCH 45/64] fix: GSPO propagator missed the transform normalization
 when the Hamiltonian had not been applied before

---
 src/qdlib/OGSPO.cpp | 10 ++++++++--
 src/qdlib/OGSPO.h   |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/qdlib/OGSPO.cpp b/src/qdlib/OGSPO.cpp
index 4881cb6..c62d150 100644
--- a/src/qdlib/OGSPO.cpp
+++ b/src/qdlib/OGSPO.cpp
@@ -27,7 +27,7 @@ namespace QDLIB
     *
     * Checks if an update is really needed (time dependent operators).
     */
-   void OGSPO::InitExp()
+   void OGSPO::InitExp(WaveFunction *Psi)
    {
       double sf = 1; /* First Element is middle => factor 1 */
 
@@ -37,6 +37,12 @@ namespace QDLIB
             _ops[i]->InitExponential(&(_exp[i]), Exponent() * sf);
             /* Include transform normalization here */
             if (_ops[i]->Transformation() != NULL){
+               if (_laststep == -1) { /* The normalization is known only after the first use */
+                  WaveFunction *tmp = Psi->NewInstance();
+                  *tmp = Psi;
+                  _ops[i]->Transformation()->Forward(tmp);
+                  DELETE_WF(tmp);
+               }
                _exp[i] *= _ops[i]->Transformation()->Normalization();
             }
          }
@@ -113,7 +119,7 @@ namespace QDLIB
 
    void OGSPO::Apply(WaveFunction *Psi)
    {
-      InitExp();
+      InitExp(Psi);
 
       /* e^1/2B e^1/2C ..., apply from right */
       for (int i = _spoLen - 1; i > 0; i--) {
diff --git a/src/qdlib/OGSPO.h b/src/qdlib/OGSPO.h
index 06c3caa..f0ec27b 100644
--- a/src/qdlib/OGSPO.h
+++ b/src/qdlib/OGSPO.h
@@ -40,7 +40,7 @@ namespace QDLIB
          int _laststep;                /* Remember last time step for update */
          dcomplex _lastexp;            /* Last exponential factor used */
 
-         void InitExp();
+         void InitExp(WaveFunction *Psi);
       public:
          OGSPO();
 
-- 
2.43.0


From 653840e8926c1f5e4b5ef0413e3e618a91b67004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:19 +0000
Subject: [PATCH 46/64] fix: qdz damaged or lost data if the configuration file
 asks for raw or compressed files

---
 src/qdz.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qdz.cpp b/src/qdz.cpp
index 5a0d050..12d861c 100644
--- a/src/qdz.cpp
+++ b/src/qdz.cpp
@@ -110,6 +110,8 @@ void DeCompress(string fname, bool series)
    
    wio.Suffix(BINARY_WF_SUFFIX);
    wio.Name(fname);
+   wio.Compress(false);                /* don't let the configuration file decide */
+   wio.FormatOut(FileWF::stream);
    
    if (!series) {
       WF = wio.LoadWaveFunctionByMeta();
@@ -159,6 +161,7 @@ void Compress(string fname, bool series, double tol, int level, const string &me
    /* Init */
    wio.Suffix(BINARY_WF_SUFFIX);
    wio.Name(fname);
+   wio.FormatOut(FileWF::stream);      /* only streams can be compressed */
    
    wio.Compress(true);
    wio.CompressionTolerance(tol);
-- 
2.43.0


From 5808cc2fbcc3da021f6d02cf0740a4f61e8b170b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:42 +0000
Subject: [PATCH 47/64] fix: diagonalisation in the calculated basis used a
 wave function that the buffer had paged out

---
 src/ProgEigen.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ProgEigen.cpp b/src/ProgEigen.cpp
index 61dfeae..f1430ec 100644
--- a/src/ProgEigen.cpp
+++ b/src/ProgEigen.cpp
@@ -105,8 +105,8 @@ namespace QDLIB
       S = 0;
       WaveFunction *bra, *ket;
       for (int i = 0; i < _Nef; i++) {
-         bra = _P->Get(i);
          for (int j = 0; j < i; j++) {
+            bra = _P->Get(i); /* only the last two entries are kept in memory */
             ket = _P->Get(j);
             S(j, i) = _H->MatrixElement(bra, ket).real();
          }
-- 
2.43.0


From 3b5dbdccb7bd670eccb97e9665dd7a82917ce52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:49 +0000
Subject: [PATCH 48/64] fix: TmpFile lost track of its size and mapping, kept
 files and stale descriptors after errors, ignored failing mmap and gave up on
 short transfers

---
 src/tools/TmpFile.h | 143 +++++++++++++++++++++++++-------------------
 1 file changed, 83 insertions(+), 60 deletions(-)

diff --git a/src/tools/TmpFile.h b/src/tools/TmpFile.h
index 83eb651..f9afe1f 100644
--- a/src/tools/TmpFile.h
+++ b/src/tools/TmpFile.h
@@ -3,7 +3,7 @@
 // SPDX-License-Identifier: gpl-3-only
 
 #ifndef QDLIBTMPFILE_H
-#define QDLIBMPFILE_H
+#define QDLIBTMPFILE_H
 
 #include "tools/GlobalParams.h"
 #include "tools/fstools.h"
@@ -42,6 +42,8 @@ namespace QDLIB {
          void *_mapbase;
          
          void _Upsize(size_t size);
+         void _Discard();
+         void _Fail(int err);
       public:
          TmpFile() : _fd(-1), _size(0), _fpos(0), _open(false), _mmap(false), _mapbase(NULL) {}
          
@@ -68,27 +70,48 @@ namespace QDLIB {
    template<typename T>
    TmpFile<T>::~TmpFile()
    {
-       Close();
+       try {
+          Close();
+       } catch (Exception& e) {} /* Never throw from a destructor */
    }
 
+   /**
+    * Unmap, close and remove the file, whatever happens.
+    */
    template<typename T>
-   void TmpFile<T>::_Upsize(size_t size)
-   {  
-      int res = lseek(_fd, size*sizeof(T)-1, SEEK_SET);
-      if (res == -1){
+   void TmpFile<T>::_Discard()
+   {
+      if (_mapbase != NULL) munmap(_mapbase, _size * sizeof (T));
+      if (_fd != -1) {
          close(_fd);
-         _open = false;
-         throw(EIOError("Seek error"));
+         unlink(_fname.c_str());
       }
-      
-      res = write(_fd, "", 1); /* Make a dummy write force the OS to enlarge the file */
-      if (res == -1){
-         close(_fd);
-         _open = false;
-         FS::Remove(_fname);
-         throw(EIOError(errno, _fname));
-      }         
-            
+
+      _mapbase = NULL;
+      _mmap = false;
+      _fd = -1;
+      _size = 0;
+      _fpos = 0;
+      _open = false;
+   }
+
+   /**
+    * Give up the file after an error.
+    */
+   template<typename T>
+   void TmpFile<T>::_Fail(int err)
+   {
+      string name(_fname);
+
+      _Discard();
+      throw(EIOError(err, name));
+   }
+
+   template<typename T>
+   void TmpFile<T>::_Upsize(size_t size)
+   {  
+      if (ftruncate(_fd, size*sizeof(T)) != 0) _Fail(errno);
+
       _size = size;
    }
    
@@ -109,9 +132,6 @@ namespace QDLIB {
       
       if (_open) Close();
      
-      _size = size;
-      _mmap = memmap;
-      
       /* Look for the tmp path */
       if (gp.isPresent("tmpdir")){
          gp.GetValue("tmpdir", tmpdir);
@@ -138,20 +158,19 @@ namespace QDLIB {
          throw (EIOError(errno, _fname));
    
       _open = true;
+      _size = 0;
+      _fpos = 0;
       
       /* Re-size the file */
       if (size > 0) _Upsize(size);
     
       /* Create memory mapping */
-      if (_mmap) {
-         _mapbase = mmap(NULL, size*sizeof(T), PROT_WRITE|PROT_READ, MAP_SHARED, _fd, 0);
+      if (memmap) {
+         void *base = mmap(NULL, size*sizeof(T), PROT_WRITE|PROT_READ, MAP_SHARED, _fd, 0);
          
-         if (_mapbase == NULL){
-            close(_fd);
-            _open = false;
-	    FS::Remove(_fname);
-            throw(EIOError(errno, _fname));
-         }
+         if (base == MAP_FAILED) _Fail(errno);
+
+         _mapbase = base;
          _mmap = true;
          return (T*) _mapbase;
       }
@@ -172,30 +191,22 @@ namespace QDLIB {
 
       /* Resize */
       int res = ftruncate(_fd, size*sizeof(T));
-      if (res != 0){
-         close(_fd);
-         _open = false;
-	 FS::Remove(_fname);
-         throw (EIOError(errno, _fname));
-      }
+      if (res != 0) _Fail(errno);
 
-       
       /* Remap memory */
       if (_mmap) {
          msync(_mapbase, oldsize*sizeof(T), MS_SYNC);
-       _mapbase = mremap(_mapbase, oldsize*sizeof(T), size*sizeof(T), MREMAP_MAYMOVE);
-        
-        if (_mapbase == MAP_FAILED){
-           close(_fd);
-           _open = false;
-	   FS::Remove(_fname);
-           throw(EIOError(errno, _fname));
-        }
+         void *base = mremap(_mapbase, oldsize*sizeof(T), size*sizeof(T), MREMAP_MAYMOVE);
         
+        if (base == MAP_FAILED) _Fail(errno);
+
+        _mapbase = base;
+        _size = size;
         _mmap = true;
         return (T*) _mapbase;
       }
       
+      _size = size;
       return NULL;
    }
    
@@ -222,11 +233,13 @@ namespace QDLIB {
       }
       
       _size = 0;
+      _fpos = 0;
       _open = false;
       
-      if (remove) FS::Remove(_fname);
-      
+      string name(_fname);
       _fname.clear();
+
+      if (remove) FS::Remove(name);
    }
    
    /**
@@ -246,12 +259,11 @@ namespace QDLIB {
    template<typename T>
    void TmpFile<T>::Seek(size_t pos)
    {
-      int res = lseek(_fd, pos*sizeof(T), SEEK_SET);
-      if (res == -1){
-         close(_fd);
-         _open = false;
+      if (lseek(_fd, pos*sizeof(T), SEEK_SET) == -1){
+         _Discard();
          throw(EIOError("Seek error"));
       }
+      _fpos = pos;
    }
    
    /**
@@ -260,13 +272,18 @@ namespace QDLIB {
    template<typename T>
    size_t TmpFile<T>::Read(T* buf, size_t count)
    {
-      ssize_t res = read(_fd, (T*) buf, sizeof(T) * count);
-      if (res == -1 || (size_t) res != count * sizeof(T) ){
-         close(_fd);
-         _open = false;
-         throw(EIOError("Read error"));
+      size_t done = 0;
+      while (done < count * sizeof(T)) {
+         ssize_t res = read(_fd, (char*) buf + done, sizeof(T) * count - done);
+         if (res == -1 && errno == EINTR) continue;
+         if (res <= 0){
+            _Discard();
+            throw(EIOError("Read error"));
+         }
+         done += res;
       }
-      return (size_t) res;
+      _fpos += count;
+      return done;
    }
    
    /**
@@ -275,12 +292,18 @@ namespace QDLIB {
    template<typename T>
    void TmpFile<T>::Write(T* buf, size_t count)
    {
-      ssize_t res = write(_fd, (T*) buf, sizeof(T) * count);
-      if (res == -1 || (size_t) res != count * sizeof(T) ){
-         close(_fd);
-         _open = false;
-         throw(EIOError("Write error"));
+      size_t done = 0;
+      while (done < count * sizeof(T)) {
+         ssize_t res = write(_fd, (char*) buf + done, sizeof(T) * count - done);
+         if (res == -1 && errno == EINTR) continue;
+         if (res <= 0){
+            _Discard();
+            throw(EIOError("Write error"));
+         }
+         done += res;
       }
+      _fpos += count;
+      if (!_mmap && _fpos > _size) _size = _fpos;
    }
 }
 
-- 
2.43.0


From c9c66ffd9ac17aad08a2f6629ee658b8a66db68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:49 +0000
Subject: [PATCH 49/64] fix: unnamed FIFOs all used the same name; errors left
 pipes behind

---
 src/tools/FIFO.cpp | 49 ++++++++++++++++++++++++++++++++++------------
 src/tools/FIFO.h   |  1 +
 2 files changed, 38 insertions(+), 12 deletions(-)

diff --git a/src/tools/FIFO.cpp b/src/tools/FIFO.cpp
index 2a21e8d..d5ea6cd 100644
--- a/src/tools/FIFO.cpp
+++ b/src/tools/FIFO.cpp
@@ -16,6 +16,8 @@
 #include <sys/types.h>
 #include <sys/stat.h>
 #include <stdlib.h>
+#include <errno.h>
+#include <sstream>
 
 
 #include "Exception.h"
@@ -27,15 +29,14 @@ namespace QDLIB
    void FIFO::_Open()
    {
       /* Create two new FIFO channels */
-      int ret = mkfifo((_fname + "rx").c_str(), S_IRUSR | S_IWUSR);
+      if (mkfifo((_fname + "rx").c_str(), S_IRUSR | S_IWUSR) != 0)
+         throw(EIOError(errno, _fname+"rx"));
 
-      if (ret != 0)
-         throw(EIOError(ret, _fname));
-
-      ret = mkfifo((_fname + "tx").c_str(), S_IRUSR | S_IWUSR);
-
-      if (ret != 0)
-         throw(EIOError(ret, _fname));
+      if (mkfifo((_fname + "tx").c_str(), S_IRUSR | S_IWUSR) != 0) {
+         int err = errno;
+         unlink((_fname + "rx").c_str());
+         throw(EIOError(err, _fname+"tx"));
+      }
 
       /* Open the FIFO
        * Since a FIFO is unidirectional according to posix standard we have to open two.
@@ -44,13 +45,26 @@ namespace QDLIB
        */
       _istream.open((_fname + "rx").c_str(), fstream::in | fstream::out);
 
-      if (! _istream.is_open())
+      if (! _istream.is_open()) {
+         _Remove();
          throw (EIOError("Failed to open FIFO", _fname+"rx") );
+      }
 
       _ostream.open((_fname + "tx").c_str(), fstream::in | fstream::out);
 
-      if (! _ostream.is_open())
+      if (! _ostream.is_open()) {
+         _Remove();
          throw (EIOError("Failed to open FIFO", _fname+"tx") );
+      }
+   }
+
+   /**
+    * Remove both channels.
+    */
+   void FIFO::_Remove()
+   {
+      unlink((_fname + "rx").c_str());
+      unlink((_fname + "tx").c_str());
    }
 
    /**
@@ -77,6 +91,18 @@ namespace QDLIB
       else
          _fname = QDNG_FIFO_BASENAME;
 
+      _fname.erase(_fname.size() - 6); /* the X's */
+
+      static unsigned long instances = 0;
+      const string base(_fname);
+      struct stat st;
+
+      do { /* The process id and the instance, skipping what a killed process has left */
+         stringstream ss;
+         ss << getpid() << "_" << instances++;
+         _fname = base + ss.str();
+      } while (lstat((_fname + "rx").c_str(), &st) == 0 || lstat((_fname + "tx").c_str(), &st) == 0);
+
       _Open();
    }
 
@@ -96,8 +122,7 @@ namespace QDLIB
 
       _istream.close();
       _ostream.close();
-      FS::Remove(_fname+"rx");
-      FS::Remove(_fname+"tx");
+      _Remove();
    }
 
 } /* namespace QDLIB */
diff --git a/src/tools/FIFO.h b/src/tools/FIFO.h
index c1e9774..5ce7450 100644
--- a/src/tools/FIFO.h
+++ b/src/tools/FIFO.h
@@ -34,6 +34,7 @@ namespace QDLIB
          fstream _ostream;
 
          void _Open();
+         void _Remove();
       public:
          FIFO();
          FIFO(const string& path);
-- 
2.43.0


From 88d5f38e25a7fca34e9b310b2b8398997768116f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:51 +0000
Subject: [PATCH 50/64] fix: memory limit was exceeded by rounding, refused
 requests that cached blocks could satisfy, and wrapped around when lowered

---
 src/tools/Memory.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/tools/Memory.cpp b/src/tools/Memory.cpp
index 6a5f8e2..6ab1827 100644
--- a/src/tools/Memory.cpp
+++ b/src/tools/Memory.cpp
@@ -64,8 +64,10 @@ namespace QDLIB
                _MaxMem = ReadFromString(s);
             } else {                           /* Default: Half of system RAM */
                struct sysinfo info;
-               sysinfo(&info);
-               _MaxMem = info.totalram / 2;
+               if (sysinfo(&info) == 0)
+                  _MaxMem = info.totalram / 2;
+               else
+                  _MaxMem = (size_t) -1;        /* unknown: no limit */
             }
 
     }
@@ -85,6 +87,8 @@ namespace QDLIB
      */
     size_t Memory::CurrentSizeAvail() const
     {
+       if (_used > _MaxMem) return 0; /* limit has been lowered */
+
        return _MaxMem - _used;
     }
 
@@ -204,10 +208,6 @@ namespace QDLIB
      */
     void Memory::Align(void **p, size_t size)
     {
-       /* Check if we have enough free space */
-       if ( CurrentSizeAvail() < size)
-          throw(EMemory());
-
        // calc amounts of blocks needed
        size_t nb = size / QDMEM_BLOCK_SIZE;
        if (size % QDMEM_BLOCK_SIZE > 0) nb++;
@@ -217,6 +217,12 @@ namespace QDLIB
        //cout << nb << " "<< slot_map.size() << " " << free_map.size() << " " << CurrentSizeAvail() <<endl;
 
        if (fit == free_map.end()){
+          /* Check if we have enough free space */
+          if ( CurrentSizeAvail() < nb * QDMEM_BLOCK_SIZE)
+             Cleanup(); /* unused slots may block it */
+          if ( CurrentSizeAvail() < nb * QDMEM_BLOCK_SIZE)
+             throw(EMemory());
+
           // Create a new entry
           int ret = ::posix_memalign( p, QDLIB_DATA_ALIGNMENT, nb * QDMEM_BLOCK_SIZE);
           if (ret != 0) throw(EMemory());
-- 
2.43.0


From 6a10b02581be7094bf57166789c8292a9d153986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:51 +0000
Subject: [PATCH 51/64] fix: a memory limit given in the input file or by a
 command was ignored

---
 src/CmdHandler.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/CmdHandler.cpp b/src/CmdHandler.cpp
index 41ad890..13fcd1e 100644
--- a/src/CmdHandler.cpp
+++ b/src/CmdHandler.cpp
@@ -19,6 +19,7 @@
 #include "tools/XmlParser.h"
 #include "tools/Logger.h"
 #include "tools/GlobalParams.h"
+#include "tools/Memory.h"
 
 #include "qdlib/FileWF.h"
 
@@ -101,6 +102,7 @@ namespace QDLIB
       if (rnodes.Name() == "multi" || rnodes.Name() == "qdng") {
          /* Read out global attributes/parameters */
          gp += rnodes.Attributes();
+         Memory::Instance().Reconfigure();
          prognodes = rnodes.NextChild();
       } else prognodes = &rnodes;
 
@@ -598,6 +600,7 @@ namespace QDLIB
 
       ParamContainer& gp = GlobalParams::Instance();
       gp += pm;  // Add to paraemters
+      Memory::Instance().Reconfigure();
 
       string s;
       gp.Write(s, false);
-- 
2.43.0


From eda5c7ba447bb23b5963a46e468b9df724c57e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:51 +0000
Subject: [PATCH 52/64] fix: LAPACK workspaces were too small (heap overflow)
 or leaked

---
 src/linalg/LapackDiag.cpp | 32 +++++++++-----------------------
 1 file changed, 9 insertions(+), 23 deletions(-)

diff --git a/src/linalg/LapackDiag.cpp b/src/linalg/LapackDiag.cpp
index df0964c..68d2fda 100644
--- a/src/linalg/LapackDiag.cpp
+++ b/src/linalg/LapackDiag.cpp
@@ -63,17 +63,11 @@ namespace LAPACK {
       char jobz = 'V';
       char uplo = 'U';
       
-      double *ws;
-      Memory::Instance().Align( (void**) &ws, ws_size*sizeof(dcomplex));
-
-      dcomplex *wsC;
-      Memory::Instance().Align((void**) &wsC, ws_size*sizeof(double));
+      dVec ws(ws_size);
+      cVec wsC(ws_size);
 
       ZHEEV_F77(&jobz, &uplo, &size, mat->begin(),  &size,
-	     evals->begin(0) , wsC , &ws_size, ws, &info);
-      
-      Memory::Instance().Free( (void*) ws );
-      Memory::Instance().Free( (void*) wsC );
+	     evals->begin(0) , wsC.begin(0) , &ws_size, ws.begin(0), &info);
 
       return info;
    }
@@ -126,7 +120,6 @@ namespace LAPACK {
       if (mat->rows() != mat->cols()) return -1;
       if (evals->strides() != 1) return -2;
 
-      Memory& mem = Memory::Instance();
       const char job='E';
       const char compz = 'N';
       const int n=mat->rows();
@@ -134,7 +127,6 @@ namespace LAPACK {
       int info;
 
       int wsize = n*n;
-      dcomplex* ws;
 
       evals->newsize(n);
       evecsL->newsize(n,n);
@@ -143,10 +135,10 @@ namespace LAPACK {
 
       matbuf = *mat;
 
-      mem.Align( (void**) &ws, wsize * sizeof(dcomplex) );
+      cVec ws(wsize);
 
 
-      ZHSEQR_F77(&job, &compz, &n, &ilo, &n, mat->begin(), &n, evals->begin(0), ws , &n, ws, &wsize, &info);
+      ZHSEQR_F77(&job, &compz, &n, &ilo, &n, mat->begin(), &n, evals->begin(0), ws.begin(0) , &n, ws.begin(0), &wsize, &info);
 
 
       if (info > 0)
@@ -165,17 +157,12 @@ namespace LAPACK {
       Vector<int> rfail(n);
       cVec ebuf = *evals;
 
-      double* rws;
+      dVec rws(n);
 
       select = 1;
 
-      mem.Align( (void**) &rws, n * sizeof(double) );
-
       ZHSEIN_F77(&side, &eigsrc, &initv, select.begin(0), &n, matbuf.begin(0), &n, ebuf.begin(0),
-               evecsL->begin(), &n, evecsR->begin(), &n, &n, &nevs, ws, rws, lfail.begin(0), rfail.begin(0), &info);
-
-      mem.Free( ws );
-      mem.Free( rws );
+               evecsL->begin(), &n, evecsR->begin(), &n, &n, &nevs, ws.begin(0), rws.begin(0), lfail.begin(0), rfail.begin(0), &info);
 
       if (info > 0)
          cout << "\n*** ZHSEIN Warning: Eigenvalues failed: " << info << endl;
@@ -229,10 +216,9 @@ namespace LAPACK {
 
 
       int wsize = 10*n;
-      dcomplex* ws;
-      Memory::Instance().Align( (void**) &ws, wsize * sizeof(dcomplex) );
+      cVec ws(wsize);
 
-      ZGETRI_F77(&n, mat->begin(0), &m, ipiv.begin(0), ws, &wsize, &info);
+      ZGETRI_F77(&n, mat->begin(0), &m, ipiv.begin(0), ws.begin(0), &wsize, &info);
 
       if (info < 0){
          cout << "*** GETRF Error: Invalid argument: " << info << endl;
-- 
2.43.0


From 7e9dc12e1d6f3239723f616590b3a7139e1196a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:51 +0000
Subject: [PATCH 53/64] fix: a refused allocation leaked the states of a new
 multi state wave function

---
 src/qdlib/WFMultistate.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/qdlib/WFMultistate.cpp b/src/qdlib/WFMultistate.cpp
index a0abc8e..4501775 100644
--- a/src/qdlib/WFMultistate.cpp
+++ b/src/qdlib/WFMultistate.cpp
@@ -72,6 +72,7 @@ namespace QDLIB
    {
       WFMultistate *r = new WFMultistate();
       
+      try {
       r->_nstates = _nstates;
 #ifdef HAVE_MPI
       r->newsize(0, _nstates, GetComm());
@@ -83,6 +84,10 @@ namespace QDLIB
          r->StrideRef(*(r->_states[i]), 0, i);
       }
       r->_params = _params;
+      } catch (...) {
+         DELETE_WF(r);
+         throw;
+      }
       return r;
    }
 
-- 
2.43.0


From a1c7de7ee30d20fe36341ad60d2fe54f009601af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:44 +0000
Subject: [PATCH 54/64] fix: data races in the Chebychev norm and the Stokes
 operator

OCheby::raw_norm: the partial norms of the states were added without synchronisation, giving wrong convergence decisions and warnings.
OGridGStokes::Apply: expectation values were evaluated in parallel on one shared wave function, transform and log.
---
 src/qdlib/OCheby.cpp       | 2 +-
 src/qdlib/OGridGStokes.cpp | 3 ---
 2 files changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/qdlib/OCheby.cpp b/src/qdlib/OCheby.cpp
index ad60512..a1fc7dc 100644
--- a/src/qdlib/OCheby.cpp
+++ b/src/qdlib/OCheby.cpp
@@ -72,7 +72,7 @@ namespace QDLIB
       double norm(0);
 
 #ifdef _OPENMP
-#pragma omp parallel for shared(norm)
+#pragma omp parallel for reduction(+:norm)
 #endif
       for (int s = rank; s < strides; s += msize) {
          double lnorm(0);
diff --git a/src/qdlib/OGridGStokes.cpp b/src/qdlib/OGridGStokes.cpp
index d58c704..cee4f18 100644
--- a/src/qdlib/OGridGStokes.cpp
+++ b/src/qdlib/OGridGStokes.cpp
@@ -194,9 +194,6 @@ namespace QDLIB
       /* <p>*/
       _p.newsize(Dim());
       int i;
-#ifdef _OPENMP
-#pragma omp parallel for default(shared) private(i)
-#endif
       for (i=0; i < Dim(); i++){
          _p[i] = Get(i)->Expec(sourcePsi);
          log.coutdbg() << "\tCalc momentum, dim = " << i << " <p> = " <<  _p[i] << endl;
-- 
2.43.0


From f87c8072198f6a3b836c7c53675768d375de0379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:50 +0000
Subject: [PATCH 55/64] fix: an empty or cut off stream file was read as the
 older raw object of that name

---
 src/tools/FileSingle.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/tools/FileSingle.h b/src/tools/FileSingle.h
index 2558398..3b5bcdb 100644
--- a/src/tools/FileSingle.h
+++ b/src/tools/FileSingle.h
@@ -220,6 +220,7 @@ namespace QDLIB
          istream* _sin;            /* I/O streams used for StorageType streams */
          bool _our_in_stream;
          bool _intro_read;
+         bool _intro_cut;          /* the last intro read is the beginning of a valid one */
 
          ostream* _sout;
          bool _our_out_stream;
@@ -421,7 +422,7 @@ namespace QDLIB
    template<class C>
    FileSingle<C>::FileSingle() :
      _type(autodetect), _type_out(autodetect), _sequence(false), _sequence_init(false),
-     _counter(0), _increment(1), _sin(NULL), _our_in_stream(false), _intro_read(false),
+     _counter(0), _increment(1), _sin(NULL), _our_in_stream(false), _intro_read(false), _intro_cut(false),
      _sout(NULL), _our_out_stream(false), _intro_written(false),
      _buffer(NULL), _buffer_size(0),
      _drop_meta(false), _counter_last(0),  _fsize(0), _freadsize(0), _compMethod(UNCOMPRESSED)
@@ -1145,7 +1146,10 @@ namespace QDLIB
 
       _sin->read(reinterpret_cast<char*>(&intro), sizeof(PbufHeader));
 
-      if ((size_t) _sin->gcount() != sizeof(PbufHeader))
+      size_t got = _sin->gcount();
+      _intro_cut = got < sizeof(PbufHeader) && memcmp(intro.magic, PBUF_MAGIC, min(got, sizeof(PBUF_MAGIC))) == 0;
+
+      if (got != sizeof(PbufHeader))
          throw(EIOError("Malformated stream. Stream is too short."));
 
       if (memcmp(intro.magic, PBUF_MAGIC, sizeof(PBUF_MAGIC)) != 0)
@@ -1224,7 +1228,8 @@ namespace QDLIB
       } catch (EIOError& e) { /* to fail means it must be _something else_ */
          string name;
          BuildDataFileName(name);
-         bool unreadable = (_sin != NULL) ? _sin->bad() : FS::IsFile(name);
+         /* The beginning of a stream (or an empty file) is what remains of an interrupted write */
+         bool unreadable = (_sin != NULL) ? _sin->bad() || _intro_cut : FS::IsFile(name);
 
          ReleaseInStream();
          if (unreadable) throw; /* we can't tell what it is */
-- 
2.43.0


From f701fd429a325f7a210dd53212c61cf300e96156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:04 +0000
Subject: [PATCH 56/64] fix: operators referenced by a program were destroyed
 with it, and kept a pointer to its clock

---
 src/qdlib/OPropagator.h   |  8 +++++++-
 src/tools/QDGlobalClock.h | 10 +++++-----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/qdlib/OPropagator.h b/src/qdlib/OPropagator.h
index f912b84..5f56a21 100644
--- a/src/qdlib/OPropagator.h
+++ b/src/qdlib/OPropagator.h
@@ -38,7 +38,13 @@ namespace QDLIB {
 	 {
 	 }
       
-	 ~OPropagator() { DELETE_OP(H); }
+	 ~OPropagator()
+	 {
+	    for (int i=0; i < Size(); i++)
+	       if (Get(i) == H) return; /* belongs to the operator list, not to us */
+
+	    DELETE_OP(H);
+	 }
 	    
 	 
 	 virtual void Clock(QDClock *cl)
diff --git a/src/tools/QDGlobalClock.h b/src/tools/QDGlobalClock.h
index e1ed1e2..5e3ec64 100644
--- a/src/tools/QDGlobalClock.h
+++ b/src/tools/QDGlobalClock.h
@@ -39,16 +39,16 @@ namespace QDLIB {
 	 }
             
 	 /**
-	  * Destroys the global clock.
+	  * Resets the global clock.
+	  *
+	  * The clock itself stays: operators which outlive the master programm still point to it.
 	  * 
 	  * Use this in the destructors of a master programm.
 	  */
 	 static void Destroy()
 	 {
-	    if (_ref != 0){
-	       delete _ref;
-	       _ref = 0;
-	    }
+	    if (_ref != 0)
+	       *_ref = QDClock();
 	 }
    };
    
-- 
2.43.0


From 4863a4a5efd4c784f32bca6f1da96f31120bba39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:25 +0000
Subject: [PATCH 57/64] fix: diagonalising when the correlation method finds no
 eigenvalues ended the whole process with success

---
 src/ProgEigen.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ProgEigen.cpp b/src/ProgEigen.cpp
index f1430ec..e3f1ca3 100644
--- a/src/ProgEigen.cpp
+++ b/src/ProgEigen.cpp
@@ -736,7 +736,7 @@ namespace QDLIB
       }
 
       /* Optional basis diagonalization */
-      if (_diag)  DiagBasis();
+      if (_diag && _Nef > 0)  DiagBasis();   /* (the ac method may find no peaks) */
 
       log.cout() << endl;
 
-- 
2.43.0


From 122b07adac1a2310650527203a3892730511078b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:29 +0000
Subject: [PATCH 58/64] fix: operators shared through opdefs kept the grid of
 the program which used them first

---
 src/GlobalOpList.cpp        |  4 ++--
 src/qdlib/OGridKick.cpp     |  2 +-
 src/qdlib/OGridNabla.cpp    |  4 +++-
 src/qdlib/OGridNablaSq.cpp  |  2 +-
 src/qdlib/OGridPosition.cpp |  2 +-
 src/qdlib/OMultistate.cpp   |  5 ++++-
 src/qdlib/OScalar.cpp       |  3 ++-
 src/qdlib/OSum.cpp          |  6 ++----
 src/qdlib/Operator.h        | 25 +++++++++++++++++++------
 9 files changed, 35 insertions(+), 18 deletions(-)

diff --git a/src/GlobalOpList.cpp b/src/GlobalOpList.cpp
index d4c385a..688c03b 100644
--- a/src/GlobalOpList.cpp
+++ b/src/GlobalOpList.cpp
@@ -136,7 +136,7 @@ namespace QDLIB {
             ((*it).second).initialized = true;
             found = true;
          } else if (((*it).second).Op == Op && ((*it).second).initialized) { /* Operator exists but already initialized */
-            ((*it).second).Op->Valid(Psi); /* Check if Initialzation is valid */
+            if (! ((*it).second).Op->Valid(Psi)) ((*it).second).Op->Init(Psi); /* Initialzation is not valid for Psi */
             found = true;
          }
       }
@@ -166,7 +166,7 @@ namespace QDLIB {
          _OpStore[key].Op->Init(Psi);
          _OpStore[key].initialized = true;
       } else {
-         _OpStore[key].Op->Valid(Psi); /* Check if initialization is compatible */
+         if (! _OpStore[key].Op->Valid(Psi)) _OpStore[key].Op->Init(Psi); /* Initialization is not compatible */
       }
    }
    
diff --git a/src/qdlib/OGridKick.cpp b/src/qdlib/OGridKick.cpp
index 82fb545..992f8cb 100644
--- a/src/qdlib/OGridKick.cpp
+++ b/src/qdlib/OGridKick.cpp
@@ -55,7 +55,7 @@ namespace QDLIB {
       if (opPsi == NULL)
          throw(EIncompatible("Psi is not of type WFGridSystem", Psi->Name()));
       
-      if (_exp != NULL) return;  // Avoid init twice
+      if (_exp != NULL && Valid(Psi)) return;  // Avoid init twice
       
       if ( GridSystem::Dim() == 0){ /* Take Dims from WF*/
          Dim(opPsi->Dim());
diff --git a/src/qdlib/OGridNabla.cpp b/src/qdlib/OGridNabla.cpp
index 99ed516..cb7e92b 100644
--- a/src/qdlib/OGridNabla.cpp
+++ b/src/qdlib/OGridNabla.cpp
@@ -190,7 +190,9 @@ namespace QDLIB {
    {
       if (_kspace == NULL)
          _kspace = new dVec(GridSystem::Size(), true);
-         
+      else
+         _kspace->newsize(GridSystem::Size());
+
       *_kspace = double(0); /* Init with zeros */
 
       dVecView view(*_kspace, GridSystem::Dim(), GridSystem::DimSizes());
diff --git a/src/qdlib/OGridNablaSq.cpp b/src/qdlib/OGridNablaSq.cpp
index 2a22f95..b52fca9 100644
--- a/src/qdlib/OGridNablaSq.cpp
+++ b/src/qdlib/OGridNablaSq.cpp
@@ -67,7 +67,7 @@ namespace QDLIB
 
       
       /* re-Init k-space ?*/
-      if (_dspace != NULL) return;  // Avoid init twice
+      if (_dspace != NULL && Valid(Psi)) return;  // Avoid init twice
 
       if ( GridSystem::Dim() == 0){ /* Take Dims from WF*/
          GridSystem::Dim(opPsi->Dim());
diff --git a/src/qdlib/OGridPosition.cpp b/src/qdlib/OGridPosition.cpp
index f8c630b..4453710 100644
--- a/src/qdlib/OGridPosition.cpp
+++ b/src/qdlib/OGridPosition.cpp
@@ -62,7 +62,7 @@ namespace QDLIB {
       if (wf == NULL)
          throw ( EIncompatible("OGridPosition needs a gridsystem wavefunction: ", Psi->Name()) );
       
-      if (dVec::size() > 0) return; // Avoid init twice
+      if (dVec::size() > 0 && Valid(Psi)) return; // Avoid init twice
       
       /* Copy grid parameters */
       *((GridSystem*) this) = *((GridSystem*) wf);
diff --git a/src/qdlib/OMultistate.cpp b/src/qdlib/OMultistate.cpp
index 77c993d..c3b16e9 100644
--- a/src/qdlib/OMultistate.cpp
+++ b/src/qdlib/OMultistate.cpp
@@ -111,8 +111,11 @@ namespace QDLIB
       if (psi->States() != _nstates)
 	 throw (EParamProblem ("Multistate operator can only use WFs with same number of states"));
       
-      if (_buf1 != NULL) return; // Avoid init twice
+      if (_buf1 != NULL && Valid(Psi)) return; // Avoid init twice
       
+      DELETE_WF(_buf1);
+      DELETE_WF(_buf2);
+
       _buf1 = dynamic_cast<WFMultistate*>(Psi->NewInstance());
       _buf1->Retire();
 
diff --git a/src/qdlib/OScalar.cpp b/src/qdlib/OScalar.cpp
index 05ecd6b..6fff836 100644
--- a/src/qdlib/OScalar.cpp
+++ b/src/qdlib/OScalar.cpp
@@ -34,8 +34,9 @@ namespace QDLIB {
       if (Psi == NULL)
          throw( EIncompatible("Scalar got empty wavefunction") );
       
-      if (_buf != NULL) return; // Avoid init twice
+      if (_buf != NULL && Valid(Psi)) return; // Avoid init twice
       
+      DELETE_WF(_buf);
       _buf = Psi->NewInstance();
    }
 
diff --git a/src/qdlib/OSum.cpp b/src/qdlib/OSum.cpp
index a03dfcd..5e66d5b 100644
--- a/src/qdlib/OSum.cpp
+++ b/src/qdlib/OSum.cpp
@@ -62,8 +62,7 @@ namespace QDLIB {
    void OSum::Apply(WaveFunction *Psi)
    {
       
-      if (_WFbuf[0] == NULL) _WFbuf[0] = Psi->NewInstance();
-      else _WFbuf[0]->Reaquire();
+      _AquireBuffer(_WFbuf[0], Psi);
 
       _WFbuf[0]->FastCopy(*Psi);
       Get(0)->Apply(Psi);
@@ -77,8 +76,7 @@ namespace QDLIB {
    
    void OSum::ApplyParent(WaveFunction *destPsi, WaveFunction *sourcePsi)
    {
-      if (_WFbuf[0] == NULL) _WFbuf[0] = sourcePsi->NewInstance();
-      else _WFbuf[0]->Reaquire();
+      _AquireBuffer(_WFbuf[0], sourcePsi);
 
       Get(0)->ApplyParent(destPsi, sourcePsi);
       
diff --git a/src/qdlib/Operator.h b/src/qdlib/Operator.h
index b22042d..02aa4cd 100644
--- a/src/qdlib/Operator.h
+++ b/src/qdlib/Operator.h
@@ -88,6 +88,22 @@ namespace QDLIB {
 	        * Indicates that the operator is hermitian.
 	        */
 	       bool _hermitian;
+
+	       /**
+	        * Prepare an internal buffer which fits to the given wave function.
+	        *
+	        * Operators can be shared between wave functions of different size.
+	        */
+	       static void _AquireBuffer(WaveFunction* &buf, WaveFunction *Psi)
+	       {
+	          if (buf != NULL && (buf->size() != Psi->size() || buf->strides() != Psi->strides())) {
+	             DELETE_WF(buf);
+	             buf = NULL;
+	          }
+
+	          if (buf == NULL) buf = Psi->NewInstance();
+	          else buf->Reaquire();
+	       }
       public:
           /**
           * Make class pure virtual
@@ -226,8 +242,7 @@ namespace QDLIB {
 	  */
 	 virtual dcomplex MatrixElement(WaveFunction *PsiBra, WaveFunction *PsiKet)
 	 {
-	    if (_buf == NULL) _buf = PsiKet->NewInstance();
-	    else _buf->Reaquire();
+	    _AquireBuffer(_buf, PsiKet);
 
 	    dcomplex result;
 
@@ -281,8 +296,7 @@ namespace QDLIB {
 	  */
 	 virtual void Apply(WaveFunction *Psi)
 	 {
-      if (_buf == NULL) _buf = Psi->NewInstance();
-      else _buf->Reaquire();
+      _AquireBuffer(_buf, Psi);
 
       *_buf = Psi;
       Apply(Psi, _buf);
@@ -307,8 +321,7 @@ namespace QDLIB {
      */
     virtual void ApplyAdd(WaveFunction *destPsi, WaveFunction *sourcePsi)
     {
-       if (_buf1 == NULL) _buf1 = sourcePsi->NewInstance();
-       else _buf1->Reaquire();
+       _AquireBuffer(_buf1, sourcePsi);
 
        Apply(_buf1, sourcePsi);
        AddElements(destPsi, _buf1);
-- 
2.43.0


From 43e548511d5c33c5337e9dac36a6e6ab81c32b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:24 +0000
Subject: [PATCH 59/64] fix: RK4 applied with a destination copied the
 destination over its source and left the destination as it was

---
 src/qdlib/ORK4.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qdlib/ORK4.cpp b/src/qdlib/ORK4.cpp
index 1864321..65a108b 100644
--- a/src/qdlib/ORK4.cpp
+++ b/src/qdlib/ORK4.cpp
@@ -47,8 +47,8 @@ namespace QDLIB
 
    void ORK4::Apply(WaveFunction *destPsi, WaveFunction *sourcePsi)
    {
-      *sourcePsi = destPsi;
-      Apply(sourcePsi);
+      *destPsi = sourcePsi;
+      Apply(destPsi);
    }
 
 
-- 
2.43.0


From a9a85ef5972df84f5500a6cf19dba0497839f288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:16 +0000
Subject: [PATCH 60/64] fix: a program run by the command server left its clock
 in the operators loaded before

---
 src/CmdHandler.cpp      | 10 ++++++++++
 src/GlobalOpList.cpp    | 24 ++++++++++++++++++++++++
 src/GlobalOpList.h      |  7 ++++++-
 src/qdlib/OPropagator.h |  2 ++
 4 files changed, 42 insertions(+), 1 deletion(-)

diff --git a/src/CmdHandler.cpp b/src/CmdHandler.cpp
index 13fcd1e..4944260 100644
--- a/src/CmdHandler.cpp
+++ b/src/CmdHandler.cpp
@@ -362,13 +362,19 @@ namespace QDLIB
          return;
       }
 
+      /* Programs attach their own clock to the operators they refer to */
+      GlobalOpList::Instance().SaveClocks();
+
       try {
          RunXML(cmd.xml().c_str(), cmd.xml().size(), dir);
       } catch (Exception& e) {
+         GlobalOpList::Instance().RestoreClocks();
          send_error_message(e.GetMessage());
          throw (e);
       }
 
+      GlobalOpList::Instance().RestoreClocks();
+
       send_OK(false);
    }
 
@@ -775,6 +781,8 @@ namespace QDLIB
       dcomplex res;
 
       try {
+         if (dynamic_cast<OPropagator*>(Op) != NULL && Op->Clock() == NULL)
+            throw(EParamProblem("Operator has no clock"));
          if (!Op->Valid(bra)) Op->Init(bra);
          if (!Op->Valid(bra) || !Op->Valid(ket)) {
             send_error_message("Operator initialized with incompatible wfs");
@@ -818,6 +826,8 @@ namespace QDLIB
       double res;
 
       try {
+         if (dynamic_cast<OPropagator*>(Op) != NULL && Op->Clock() == NULL)
+            throw(EParamProblem("Operator has no clock"));
          if (!Op->Valid(bk)) Op->Init(bk);
          if (!Op->Valid(bk)) {
             send_error_message("Operator initialized with incompatible wfs");
diff --git a/src/GlobalOpList.cpp b/src/GlobalOpList.cpp
index 688c03b..739aaa0 100644
--- a/src/GlobalOpList.cpp
+++ b/src/GlobalOpList.cpp
@@ -206,6 +206,30 @@ namespace QDLIB {
 
    }
 
+   /**
+    * Remember the clocks of all operators in the list.
+    */
+   void GlobalOpList::SaveClocks()
+   {
+      map<string, _OpEntry>::iterator it;
+
+      for (it = _OpStore.begin(); it != _OpStore.end(); it++)
+         ((*it).second).clock = ((*it).second).Op->Clock();
+   }
+
+   /**
+    * Give the operators in the list the clocks back they had at SaveClocks().
+    */
+   void GlobalOpList::RestoreClocks()
+   {
+      map<string, _OpEntry>::iterator it;
+
+      for (it = _OpStore.begin(); it != _OpStore.end(); it++) {
+         _OpEntry& e = (*it).second;
+         if (e.Op->Clock() != e.clock) e.Op->Clock(e.clock);
+      }
+   }
+
    /**
     * Clear the Operators in the storage, but leave persistent Ops untouched.
     *
diff --git a/src/GlobalOpList.h b/src/GlobalOpList.h
index bb350a1..f0f2259 100644
--- a/src/GlobalOpList.h
+++ b/src/GlobalOpList.h
@@ -28,7 +28,8 @@ namespace QDLIB {
             bool initialized;
             bool persist;
             string label;
-            _OpEntry() : Op(NULL), initialized(false), persist(false), label() {}
+            QDClock* clock;
+            _OpEntry() : Op(NULL), initialized(false), persist(false), label(), clock(NULL) {}
          };
         
          static GlobalOpList *_ref;
@@ -60,6 +61,10 @@ namespace QDLIB {
          Operator* operator[]( const string &key );
          
          void PrintList();
+
+         void SaveClocks();
+
+         void RestoreClocks();
          
    };
 
diff --git a/src/qdlib/OPropagator.h b/src/qdlib/OPropagator.h
index 5f56a21..dab4a8e 100644
--- a/src/qdlib/OPropagator.h
+++ b/src/qdlib/OPropagator.h
@@ -50,6 +50,8 @@ namespace QDLIB {
 	 virtual void Clock(QDClock *cl)
 	 {
 	    clock = cl;
+	    if (clock == NULL) return;
+
 	    _c0 = I*clock->Dt();
 
 	    if (forward)
-- 
2.43.0


From b1c82c36314448410b12cbe0b540320e1a3c3450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:27 +0000
Subject: [PATCH 61/64] fix: a propagator used again kept the wave function and
 time step of its first (even failed) initialisation

---
 src/qdlib/OArnoldi.cpp |  7 +++++--
 src/qdlib/OCheby.cpp   | 35 ++++++++++++++++++++++++-----------
 src/qdlib/OCheby.h     |  2 ++
 src/qdlib/ORK4.cpp     | 14 +++++++++-----
 src/qdlib/OSIL.cpp     |  7 ++++++-
 src/qdlib/OSPO.cpp     | 24 ++++++++++++++++++++----
 src/qdlib/OSPO.h       |  1 +
 7 files changed, 67 insertions(+), 23 deletions(-)

diff --git a/src/qdlib/OArnoldi.cpp b/src/qdlib/OArnoldi.cpp
index ee4445c..8a00f96 100644
--- a/src/qdlib/OArnoldi.cpp
+++ b/src/qdlib/OArnoldi.cpp
@@ -62,8 +62,11 @@ namespace QDLIB
    {
       OPropagator::Init(Psi);
 
-      if (buf0 != NULL)
-         return; //Avoid init twice
+      /* Forget what belongs to the previous wave function */
+      DELETE_WF(buf0);
+      DELETE_WF(buf1);
+      buf0 = buf1 = NULL;
+      _Lzb.Clear();
 
       H = Get("hamiltonian");
 
diff --git a/src/qdlib/OCheby.cpp b/src/qdlib/OCheby.cpp
index a1fc7dc..dfce773 100644
--- a/src/qdlib/OCheby.cpp
+++ b/src/qdlib/OCheby.cpp
@@ -20,7 +20,7 @@ namespace QDLIB
    QDNG_OPERATOR_NEW_INSTANCE_FUNCTION(OCheby)
 
    OCheby::OCheby() :
-      OPropagator(), _name("OCheby"), _order(0), _coeff(0), _scaling(1.), _prec(DEFAULT_PREC),
+      OPropagator(), _name("OCheby"), _order(0), _coeff(0), _dt(0), _scaling(1.), _prec(DEFAULT_PREC),
                      _offset(0), ket0(NULL),
                       ket1(NULL), ket2(NULL), buf(NULL)
    {
@@ -52,6 +52,7 @@ namespace QDLIB
 
    void OCheby::Init(ParamContainer & params)
    {
+      _input = params;
       _params = params;
       if (_params.isPresent(string("order"))) {
          _params.GetValue("order", _order);
@@ -339,6 +340,7 @@ namespace QDLIB
       OPropagator::Copy(O);
 
       _isTimedependent = P->_isTimedependent;
+      _input = P->_input;
       _params = P->_params;
       clock = P->clock;
 
@@ -368,16 +370,14 @@ namespace QDLIB
       OPropagator::Init(Psi);
 
 
-      if (ket0 != NULL) return;  // Avoid init twice
-      ket0 = Psi->NewInstance();
-      ket1 = Psi->NewInstance();
-      ket2 = Psi->NewInstance();
-      buf = Psi->NewInstance();
-
-      ket0->Retire();
-      ket1->Retire();
-      ket2->Retire();
-      buf->Retire();
+      /* Forget what belongs to the previous wave function or time step */
+      DELETE_WF(ket0);
+      DELETE_WF(ket1);
+      DELETE_WF(ket2);
+      DELETE_WF(buf);
+      ket0 = ket1 = ket2 = buf = NULL;
+      _params = _input;
+      _order = 0;
 
       dcomplex Emax(H->Emax());
       dcomplex Emin(H->Emin());
@@ -490,11 +490,24 @@ namespace QDLIB
       _params.SetValue("exponent Re", _exp.real());
       _params.SetValue("exponent Im", _exp.imag());
 
+      _dt = clock->Dt();
+
+      ket0 = Psi->NewInstance();
+      ket1 = Psi->NewInstance();
+      ket2 = Psi->NewInstance();
+      buf = Psi->NewInstance();
+
+      ket0->Retire();
+      ket1->Retire();
+      ket2->Retire();
+      buf->Retire();
+
    }
 
    bool OCheby::Valid(WaveFunction * Psi)
    {
       if (Psi == NULL || ket0 == NULL) return false;
+      if (clock == NULL || clock->Dt() != _dt) return false;
       if (Psi->size() != ket0->size() || Psi->strides() != ket0->strides()) return false;
 
       return H->Valid(Psi);
diff --git a/src/qdlib/OCheby.h b/src/qdlib/OCheby.h
index 76093ae..619f24b 100644
--- a/src/qdlib/OCheby.h
+++ b/src/qdlib/OCheby.h
@@ -30,8 +30,10 @@ namespace QDLIB
       private:
 	 string _name;
 	 
+	 ParamContainer _input; /* Parameters as given by the user */
 	 int _order;          /* Recursion depth */
 	 cVec _coeff;         /* Coefficients including the Bessel functions at k'th order */
+	 double _dt;          /* Time step of the coefficients */
 	 dcomplex _exp;       /* Scaled exponent:  e.g. -i*dt/Rdelta */
 	 double _scaling;     /* Energy range of the hamiltonian => the Scaling*/
 	 double _prec;        /* Convergence criteria on norm */
diff --git a/src/qdlib/ORK4.cpp b/src/qdlib/ORK4.cpp
index 65a108b..d6e14eb 100644
--- a/src/qdlib/ORK4.cpp
+++ b/src/qdlib/ORK4.cpp
@@ -32,17 +32,21 @@ namespace QDLIB
       if (Psi == NULL)
           throw(EParamProblem("RK4: Invalid WaveFunction"));
 
-      if (_buf[0] != NULL) return; // Avoid init twice
-      
-      H = Get("hamiltonian");
-
+      /* Forget what belongs to the previous wave function */
       for (int i=0; i < 5; i++){
-         _buf[i] = Psi->NewInstance();
+         DELETE_WF(_buf[i]);
+         _buf[i] = NULL;
       }
 
+      H = Get("hamiltonian");
+
       OPropagator::Init(Psi);
       H->Clock(Operator::Clock());
       H->Init(Psi);
+
+      for (int i=0; i < 5; i++){
+         _buf[i] = Psi->NewInstance();
+      }
    }
 
    void ORK4::Apply(WaveFunction *destPsi, WaveFunction *sourcePsi)
diff --git a/src/qdlib/OSIL.cpp b/src/qdlib/OSIL.cpp
index 10f09e0..32e9352 100644
--- a/src/qdlib/OSIL.cpp
+++ b/src/qdlib/OSIL.cpp
@@ -55,7 +55,12 @@ namespace QDLIB {
     {
        OPropagator::Init(Psi);
 
-        if (buf0 != NULL) return; //Avoid init twice
+        /* Forget what belongs to the previous wave function */
+        DELETE_WF(buf0);
+        DELETE_WF(buf1);
+        DELETE_WF(buf2);
+        buf0 = buf1 = buf2 = NULL;
+        _Lzb.Clear();
 
         H = Get("hamiltonian");
 
diff --git a/src/qdlib/OSPO.cpp b/src/qdlib/OSPO.cpp
index b2abc7e..ad11f75 100644
--- a/src/qdlib/OSPO.cpp
+++ b/src/qdlib/OSPO.cpp
@@ -15,7 +15,7 @@ namespace QDLIB {
    OSPO::OSPO() : OPropagator(), _name("OSPO"),
                   _Tkin(NULL), _Tkin_kspace(NULL), _Vcoup(NULL),
                         _expT(NULL), _expV(NULL), _V1(NULL), _expVcoup(NULL), _expVcoupI(NULL),_buf(NULL), _buf2(NULL),
-                        _coupling(false), _coupdiag(false),_cT(0,0), _cV(0,0), _last_time(0)
+                        _coupling(false), _coupdiag(false),_cT(0,0), _cV(0,0), _last_time(0), _dt(0)
    {
       _Vpot[0] = NULL;
       _Vpot[1] = NULL;
@@ -175,7 +175,20 @@ namespace QDLIB {
 	  throw ( EIncompatible("SPO needs a GridSystem WF", Psi->Name()) ); 
       }
             
-      if (_buf != NULL) return; //Avoid init twice
+      /* Forget what belongs to the previous wave function or time step */
+      if (H != NULL) {
+         DELETE_OP(_H);
+         H = NULL;
+      }
+      if (_expT != NULL) delete _expT;
+      _expT = NULL;
+      _Tkin_kspace = NULL;
+      DELETE_WF(_expV);
+      DELETE_WF(_V1);
+      DELETE_WF(_expVcoup);
+      DELETE_WF(_expVcoupI);
+      DELETE_WF(_buf);
+      _expV = _V1 = _expVcoup = _expVcoupI = _buf = NULL;
 
 
       /* Generate sum for mother class */
@@ -274,8 +287,6 @@ namespace QDLIB {
 	 _cT = OPropagator::Exponent();
       }
       
-      _buf = Psi->NewInstance();
-      
       /* Check if everythings complete */
       if (_Tkin == NULL || _Vpot[0] == NULL)
 	 throw ( EParamProblem("Tkin or Vpot not initialized") );
@@ -322,6 +333,10 @@ namespace QDLIB {
       }
       _InitT();
       _InitV();
+      _last_time = clock->TimeStep();
+      _dt = clock->Dt();
+
+      _buf = Psi->NewInstance();
    }
    
    void QDLIB::OSPO::Init( ParamContainer & params )
@@ -471,6 +486,7 @@ namespace QDLIB {
       bool valid = true;
       
       if ( Psi == NULL || _buf == NULL ) return false;
+      if ( clock == NULL || clock->Dt() != _dt ) return false;
       if ( Psi->size() != _buf->size() || Psi->strides() != _buf->strides() ) return false;
       
       if (_coupling) {
diff --git a/src/qdlib/OSPO.h b/src/qdlib/OSPO.h
index 9a1c923..afb4c93 100644
--- a/src/qdlib/OSPO.h
+++ b/src/qdlib/OSPO.h
@@ -60,6 +60,7 @@ namespace QDLIB {
 	 
 	 dcomplex _cT, _cV;
 	 int _last_time;
+	 double _dt;            /* Time step of the exponentials */
 	 
 	 void _InitV();
 	 void _InitT();
-- 
2.43.0


From 1613998e64c3401dfca1c9f6a590f279ca5e8653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:13 +0000
Subject: [PATCH 62/64] fix: a shared propagator stayed in imaginary time after
 an eigenfunction search

---
 src/ChainLoader.cpp     |  3 +++
 src/GlobalOpList.cpp    |  7 ++++++-
 src/qdlib/OCheby.cpp    |  5 +++--
 src/qdlib/OCheby.h      |  1 +
 src/qdlib/OPropagator.h | 15 +++++++++++++++
 src/qdlib/OSPO.cpp      |  5 +++--
 src/qdlib/OSPO.h        |  1 +
 7 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/ChainLoader.cpp b/src/ChainLoader.cpp
index 0c092d7..4405add 100644
--- a/src/ChainLoader.cpp
+++ b/src/ChainLoader.cpp
@@ -453,6 +453,9 @@ namespace QDLIB
       if (U == NULL)
          throw (EIncompatible("This is not a propagator!", O->Name()));
 
+      /* The program which used it before may have left it in another mode */
+      U->Reset();
+
       return U;
    }
 
diff --git a/src/GlobalOpList.cpp b/src/GlobalOpList.cpp
index 739aaa0..a70e851 100644
--- a/src/GlobalOpList.cpp
+++ b/src/GlobalOpList.cpp
@@ -5,6 +5,7 @@
 #include "GlobalOpList.h"
 #include "tools/Logger.h"
 #include "tools/Collector.h"
+#include "qdlib/OPropagator.h"
 
 
 namespace QDLIB {
@@ -218,7 +219,8 @@ namespace QDLIB {
    }
 
    /**
-    * Give the operators in the list the clocks back they had at SaveClocks().
+    * Give the operators in the list the clocks back they had at SaveClocks(),
+    * and turn the propagators to forward propagation in real time again.
     */
    void GlobalOpList::RestoreClocks()
    {
@@ -227,6 +229,9 @@ namespace QDLIB {
       for (it = _OpStore.begin(); it != _OpStore.end(); it++) {
          _OpEntry& e = (*it).second;
          if (e.Op->Clock() != e.clock) e.Op->Clock(e.clock);
+
+         OPropagator* U = dynamic_cast<OPropagator*>(e.Op);
+         if (U != NULL) U->Reset();
       }
    }
 
diff --git a/src/qdlib/OCheby.cpp b/src/qdlib/OCheby.cpp
index dfce773..9d5f93b 100644
--- a/src/qdlib/OCheby.cpp
+++ b/src/qdlib/OCheby.cpp
@@ -20,7 +20,7 @@ namespace QDLIB
    QDNG_OPERATOR_NEW_INSTANCE_FUNCTION(OCheby)
 
    OCheby::OCheby() :
-      OPropagator(), _name("OCheby"), _order(0), _coeff(0), _dt(0), _scaling(1.), _prec(DEFAULT_PREC),
+      OPropagator(), _name("OCheby"), _order(0), _coeff(0), _dt(0), _imag(false), _scaling(1.), _prec(DEFAULT_PREC),
                      _offset(0), ket0(NULL),
                       ket1(NULL), ket2(NULL), buf(NULL)
    {
@@ -491,6 +491,7 @@ namespace QDLIB
       _params.SetValue("exponent Im", _exp.imag());
 
       _dt = clock->Dt();
+      _imag = imaginary_time;
 
       ket0 = Psi->NewInstance();
       ket1 = Psi->NewInstance();
@@ -507,7 +508,7 @@ namespace QDLIB
    bool OCheby::Valid(WaveFunction * Psi)
    {
       if (Psi == NULL || ket0 == NULL) return false;
-      if (clock == NULL || clock->Dt() != _dt) return false;
+      if (clock == NULL || clock->Dt() != _dt || imaginary_time != _imag) return false;
       if (Psi->size() != ket0->size() || Psi->strides() != ket0->strides()) return false;
 
       return H->Valid(Psi);
diff --git a/src/qdlib/OCheby.h b/src/qdlib/OCheby.h
index 619f24b..6d3524e 100644
--- a/src/qdlib/OCheby.h
+++ b/src/qdlib/OCheby.h
@@ -34,6 +34,7 @@ namespace QDLIB
 	 int _order;          /* Recursion depth */
 	 cVec _coeff;         /* Coefficients including the Bessel functions at k'th order */
 	 double _dt;          /* Time step of the coefficients */
+	 bool _imag;          /* The coefficients are for imaginary time */
 	 dcomplex _exp;       /* Scaled exponent:  e.g. -i*dt/Rdelta */
 	 double _scaling;     /* Energy range of the hamiltonian => the Scaling*/
 	 double _prec;        /* Convergence criteria on norm */
diff --git a/src/qdlib/OPropagator.h b/src/qdlib/OPropagator.h
index dab4a8e..6cf3377 100644
--- a/src/qdlib/OPropagator.h
+++ b/src/qdlib/OPropagator.h
@@ -116,6 +116,21 @@ namespace QDLIB {
 	    imaginary_time = true;
 	 }
 	 
+	 /**
+	  * Go back to forward propagation in real time.
+	  *
+	  * In contrast to Forward() and RealTime() it doesn't need a clock.
+	  */
+	 void Reset()
+	 {
+	    forward = true;
+	    imaginary_time = false;
+	    _conj = false;
+	    OList::Conj(false);
+
+	    if (clock != NULL) Clock(clock);
+	 }
+
 	 virtual void Conj(bool conj)
 	 {
 	    if (conj)
diff --git a/src/qdlib/OSPO.cpp b/src/qdlib/OSPO.cpp
index ad11f75..0688c0d 100644
--- a/src/qdlib/OSPO.cpp
+++ b/src/qdlib/OSPO.cpp
@@ -15,7 +15,7 @@ namespace QDLIB {
    OSPO::OSPO() : OPropagator(), _name("OSPO"),
                   _Tkin(NULL), _Tkin_kspace(NULL), _Vcoup(NULL),
                         _expT(NULL), _expV(NULL), _V1(NULL), _expVcoup(NULL), _expVcoupI(NULL),_buf(NULL), _buf2(NULL),
-                        _coupling(false), _coupdiag(false),_cT(0,0), _cV(0,0), _last_time(0), _dt(0)
+                        _coupling(false), _coupdiag(false),_cT(0,0), _cV(0,0), _last_time(0), _dt(0), _imag(false)
    {
       _Vpot[0] = NULL;
       _Vpot[1] = NULL;
@@ -335,6 +335,7 @@ namespace QDLIB {
       _InitV();
       _last_time = clock->TimeStep();
       _dt = clock->Dt();
+      _imag = imaginary_time;
 
       _buf = Psi->NewInstance();
    }
@@ -486,7 +487,7 @@ namespace QDLIB {
       bool valid = true;
       
       if ( Psi == NULL || _buf == NULL ) return false;
-      if ( clock == NULL || clock->Dt() != _dt ) return false;
+      if ( clock == NULL || clock->Dt() != _dt || imaginary_time != _imag ) return false;
       if ( Psi->size() != _buf->size() || Psi->strides() != _buf->strides() ) return false;
       
       if (_coupling) {
diff --git a/src/qdlib/OSPO.h b/src/qdlib/OSPO.h
index afb4c93..72f4c22 100644
--- a/src/qdlib/OSPO.h
+++ b/src/qdlib/OSPO.h
@@ -61,6 +61,7 @@ namespace QDLIB {
 	 dcomplex _cT, _cV;
 	 int _last_time;
 	 double _dt;            /* Time step of the exponentials */
+	 bool _imag;            /* They are for imaginary time */
 	 
 	 void _InitV();
 	 void _InitT();
-- 
2.43.0


From 5ef35fef1cf62ae7c61c750c777821271c4ebe5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:10 +0000
Subject: [PATCH 63/64] fix: the filter program analysed a propagation whose
 description was incomplete

---
 src/ProgCfun.cpp   |  6 +++---
 src/ProgFilter.cpp | 10 +++++++++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/ProgCfun.cpp b/src/ProgCfun.cpp
index 80f6df7..ab9d3d5 100644
--- a/src/ProgCfun.cpp
+++ b/src/ProgCfun.cpp
@@ -433,15 +433,15 @@ namespace QDLIB
 	    throw(EParamProblem("Propagation meta file not found"));
 	}
 
-	int Nt, wcycle;
-	double dt;
+	int Nt = 0, wcycle = 0;
+	double dt = 0;
 	string name;
 	propagation_meta.GetValue("Nt", Nt);
 	propagation_meta.GetValue("Wcycle", wcycle);
 	propagation_meta.GetValue("dt", dt);
 	propagation_meta.GetValue("WFBaseName", name);
 
-	if (wcycle < 1 || Nt < wcycle || name.empty())
+	if (wcycle < 1 || Nt < wcycle || dt == 0 || name.empty())
 	    throw(EParamProblem("Invalid propagation meta file"));
 
 	master_clock_.Dt(dt);
diff --git a/src/ProgFilter.cpp b/src/ProgFilter.cpp
index 3149a0c..9a3460c 100644
--- a/src/ProgFilter.cpp
+++ b/src/ProgFilter.cpp
@@ -62,7 +62,7 @@ namespace QDLIB
       ParamContainer p;
       string s;
       int i;
-      double d;
+      double d = 0;
 
 
       if ( ! p.ReadFromFile(_path + "/Propagation.meta") )
@@ -73,10 +73,15 @@ namespace QDLIB
       if ( s != "Propagation" )
          throw(EIncompatible("Can't parse Propgation.meta: Wrong class"));
 
+      if ( !p.isPresent("Nt") || !p.isPresent("dt") || !p.isPresent("Wcycle") || !p.isPresent("WFBaseName") )
+         throw(EIncompatible("Can't parse Propgation.meta: Incomplete"));
+
       p.GetValue("Nt", i );
       clock->Steps(i);
 
       p.GetValue("dt", d);
+      if (d == 0)
+         throw(EIncompatible("Can't parse Propgation.meta: Invalid dt"));
       clock->Dt(d);
 
       if (p.isPresent("start"))
@@ -85,7 +90,10 @@ namespace QDLIB
 
 
       /* Rescale the by write cycle */
+      i = 0;
       p.GetValue("Wcycle", i );
+      if (i < 1)
+         throw(EIncompatible("Can't parse Propgation.meta: Invalid write cycle"));
       clock->Dt(clock->Dt() * double(i));
       clock->Steps(clock->Steps() / double(i));
 
-- 
2.43.0


From a5b4e6753fb27f431ce5b3d3b4b47ab23cc6e03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:06 +0000
Subject: [PATCH 64/64] fix: a propagation continued with start used wrong
 times and wrong steps

The index of the first file was taken for the number of the first step: the
clock was one step ahead of the wave function, and with a write cycle above
one the files, the table and Propagation.meta did not fit together.
---
 src/ProgPropa.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/ProgPropa.cpp b/src/ProgPropa.cpp
index 28e846b..1c37f4d 100644
--- a/src/ProgPropa.cpp
+++ b/src/ProgPropa.cpp
@@ -312,13 +312,12 @@ namespace QDLIB {
          log.FileOutput( _nfile );
       }
 
-      lint start;
-      if (_start == 0)
-	 start=1;
-      else
-	 start = _start;
+      /* _start is the index of the first file to write: file n holds the wave function after n * _wcycle steps */
+      lint start = 1;
+      if (_start > 0)
+	 start = lint(_start - 1) * _wcycle + 1;
       
-      clock->TimeStep(_start);
+      clock->TimeStep(start - 1);
       
       try {
       for (lint i=start; i <= clock->Steps(); i++){
-- 
2.43.0

