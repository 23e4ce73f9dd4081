From c9f89117c727c3619d7c308ae5c2d736550b6160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 01/73] fix: ORK4::Apply(dest, src) overwrote the source
 instead of propagating into the destination

---
 src/qdlib/ORK4.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qdlib/ORK4.cpp b/src/qdlib/ORK4.cpp
index 8c25996..23714bc 100644
--- a/src/qdlib/ORK4.cpp
+++ b/src/qdlib/ORK4.cpp
@@ -46,8 +46,8 @@ namespace QDLIB
 
    void ORK4::Apply(WaveFunction *destPsi, WaveFunction *sourcePsi)
    {
-      *sourcePsi = destPsi;
-      Apply(sourcePsi);
+      *destPsi = sourcePsi;
+      Apply(destPsi);
    }
 
 
-- 
2.43.0


From b7882554e2cb31447be86efb9af1809e27a0a86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:11 +0000
Subject: [PATCH 02/73] fix: OHermitianMatrix::Copy redirected the source
 operator's transform instead of its own

---
 src/qdlib/OHermitianMatrix.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/qdlib/OHermitianMatrix.cpp b/src/qdlib/OHermitianMatrix.cpp
index 5193b6b..b84f334 100644
--- a/src/qdlib/OHermitianMatrix.cpp
+++ b/src/qdlib/OHermitianMatrix.cpp
@@ -191,13 +191,18 @@ namespace QDLIB {
 
       *((dMat*) this) = *((dMat*) op);
 
-      if (_X != NULL)
+      /* Copy the eigen representation, if the source has one. */
+      if (op->_X != NULL) {
+         if (_X == NULL) _X = new dMat(op->rows(), op->rows());
          *_X = *(op->_X);
+         _XT.SetMatrix(_X);
+      }
 
-      if (_dspace != NULL)
+      if (op->_dspace != NULL) {
+         if (_dspace == NULL) _dspace = new dVec(op->rows());
          *_dspace = *(op->_dspace);
+      }
 
-      op->_XT.SetMatrix(op->_X);
       _params =  op->Params();
 
       _valid = op->_valid;
-- 
2.43.0


From 67249098fe97350d88127ac468d1bf9e3ef4b9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:03 +0000
Subject: [PATCH 03/73] fix: OProjection::Copy lost the projected states, the
 work buffer and the parameters

---
 src/qdlib/OProjection.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/qdlib/OProjection.cpp b/src/qdlib/OProjection.cpp
index 52a1613..d1919d2 100644
--- a/src/qdlib/OProjection.cpp
+++ b/src/qdlib/OProjection.cpp
@@ -103,19 +103,24 @@ namespace QDLIB {
       if( o == NULL)
 	 throw(EIncompatible("Projection operator tried to copy wrong operator", O->Name()));
       
-      if ( Size()>0){
-         _destroy();
-         Clear();
-      }
-      
+      if (o == this)
+         return this;
+
+      _destroy();
+      Clear();
+
+      _params = o->_params;
       _inv = o->_inv;
       _sign = o->_sign; 
-      
 
-      for (uint i=0; i < Size(); i++){
+      for (uint i=0; i < o->Size(); i++){
          Add((*o)[i]);
       }
 
+      if (o->_buf != NULL) {
+         _buf = o->_buf->NewInstance();
+         _buf->Retire();
+      }
 
       return this;
    }
-- 
2.43.0


From aea098083fd7f8619dc876922dc7715425d7032a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:34 +0000
Subject: [PATCH 04/73] fix: OCheby::raw_norm summed the strides into a shared
 variable without synchronisation

---
 src/qdlib/OCheby.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qdlib/OCheby.cpp b/src/qdlib/OCheby.cpp
index a52cf6a..cb67304 100644
--- a/src/qdlib/OCheby.cpp
+++ b/src/qdlib/OCheby.cpp
@@ -72,7 +72,7 @@ namespace QDLIB
       double norm(0);
 
 #ifdef _OPENMP
-#pragma omp parallel for shared(norm)
+#pragma omp parallel for reduction(+:norm)
 #endif
       for (int s = rank; s < strides; s += msize) {
          double lnorm(0);
-- 
2.43.0


From d4db2a46885e26cd990f9cc2a27ddf6e8b91a33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:34 +0000
Subject: [PATCH 05/73] fix: HOFD mixed derivative raced on the slice base
 index and on overlapping blocks

---
 src/qdlib/HOFD.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/qdlib/HOFD.h b/src/qdlib/HOFD.h
index edeedf1..2816555 100644
--- a/src/qdlib/HOFD.h
+++ b/src/qdlib/HOFD.h
@@ -268,13 +268,8 @@ namespace QDLIB
 //      cout << "Size: " << Nx1 << "x" << Nx2 << endl;
 //      cout << "BS: " << bs1 << "x" << bs2 << endl;
 //      cout << "stripe: " << lo1 << "x" << lo2 << endl;
-#ifdef _OPENMP
-#pragma  omp parallel for
-#endif
+      /* The blocks wrap around into their neighbours => can't be shared among threads. */
       for (int rep=0; rep < Nrep; rep++){ /* loop over all 2D slices */
-#ifdef _OPENMP
-#pragma  omp parallel for
-#endif
          for (int blk1=0; blk1 < Nx1/bs1; blk1++){ /* Loop over lead. dim */
             int base1 = base + blk1*bs1*lo1;
 
-- 
2.43.0


From 60c5803ffa7648bc870b7cb0374774af9b6dac2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:22 +0000
Subject: [PATCH 06/73] fix: OGridGStokes evaluated momentum expectation values
 concurrently on one shared work buffer

---
 src/qdlib/OGridGStokes.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/qdlib/OGridGStokes.cpp b/src/qdlib/OGridGStokes.cpp
index d58c704..fdbe564 100644
--- a/src/qdlib/OGridGStokes.cpp
+++ b/src/qdlib/OGridGStokes.cpp
@@ -194,9 +194,7 @@ namespace QDLIB
       /* <p>*/
       _p.newsize(Dim());
       int i;
-#ifdef _OPENMP
-#pragma omp parallel for default(shared) private(i)
-#endif
+      /* Expec() works on the space buffer of sourcePsi and the logger is shared => not thread safe */
       for (i=0; i < Dim(); i++){
          _p[i] = Get(i)->Expec(sourcePsi);
          log.coutdbg() << "\tCalc momentum, dim = " << i << " <p> = " <<  _p[i] << endl;
-- 
2.43.0


From b30223d224423db73c6bb976a9bf58d300ff28c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:47 +0000
Subject: [PATCH 07/73] fix: misplaced parentheses threw a bare string, which
 no handler catches

---
 src/ChainLoader.cpp     | 4 ++--
 src/qdlib/OGridGMat.cpp | 2 +-
 src/qdlib/ORK4.cpp      | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ChainLoader.cpp b/src/ChainLoader.cpp
index cfaa673..0c092d7 100644
--- a/src/ChainLoader.cpp
+++ b/src/ChainLoader.cpp
@@ -64,7 +64,7 @@ namespace QDLIB
 	    if (osub == NULL)
 	       throw ( EParamProblem("Can't load operator") );
 	    if ( (gsub = dynamic_cast<OGridSystem*>(osub) ) == NULL )
-	       throw ( EIncompatible("Tried to load into GridSum"), osub->Name() );
+	       throw ( EIncompatible("Tried to load into GridSum", osub->Name()) );
 	    sum->Add( gsub );
 	    child->NextNode();
 	 }
@@ -451,7 +451,7 @@ namespace QDLIB
       OPropagator* U = dynamic_cast<OPropagator*>(O);
 
       if (U == NULL)
-         throw (EIncompatible("This is not a propagator!"), O->Name());
+         throw (EIncompatible("This is not a propagator!", O->Name()));
 
       return U;
    }
diff --git a/src/qdlib/OGridGMat.cpp b/src/qdlib/OGridGMat.cpp
index 750c8be..6a7bac5 100644
--- a/src/qdlib/OGridGMat.cpp
+++ b/src/qdlib/OGridGMat.cpp
@@ -58,7 +58,7 @@ namespace QDLIB {
       WFGridSystem *psi = dynamic_cast<WFGridSystem*>(Psi);
 
       if (psi == NULL)
-         throw (EIncompatible ("Psi not a WFGridSystem"), Psi->Name() );
+         throw (EIncompatible ("Psi not a WFGridSystem", Psi->Name()) );
 
       if (buf != NULL) return;  // Avoid init twice
 
diff --git a/src/qdlib/ORK4.cpp b/src/qdlib/ORK4.cpp
index 23714bc..cfe5372 100644
--- a/src/qdlib/ORK4.cpp
+++ b/src/qdlib/ORK4.cpp
@@ -111,7 +111,7 @@ namespace QDLIB
 
       o = dynamic_cast<ORK4*>(O);
       if (o == NULL)
-         throw (EIncompatible("ORK4: Can't copy operator"), O->Name());
+         throw (EIncompatible("ORK4: Can't copy operator", O->Name()));
 
 
       OPropagator::Copy(O);
-- 
2.43.0


From 6c8fa54970619eabd097ce4f998bd48b4c35d625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:47 +0000
Subject: [PATCH 08/73] fix: OSum threw a string literal, which no handler
 catches

---
 src/qdlib/OSum.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qdlib/OSum.cpp b/src/qdlib/OSum.cpp
index a03dfcd..f5fb223 100644
--- a/src/qdlib/OSum.cpp
+++ b/src/qdlib/OSum.cpp
@@ -93,12 +93,12 @@ namespace QDLIB {
    
    void OSum::Apply(Operator * destOp, Operator * sourceOp)
    {
-      throw ("Not implementet YET");
+      throw (EIncompatible("OSum: operator times operator not implemented yet"));
    }
 
    void OSum::Apply(Operator * Op)
    {
-      throw ("Not implementet YET");
+      throw (EIncompatible("OSum: operator times operator not implemented yet"));
    }
 
    
-- 
2.43.0


From 3dff8b1f4595bbc4667c9457502ed3dee69ba145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:47 +0000
Subject: [PATCH 09/73] fix: ProgEigen re-raised without an active exception
 when the energy file can't be opened

---
 src/ProgEigen.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ProgEigen.cpp b/src/ProgEigen.cpp
index 105a940..3e456ee 100644
--- a/src/ProgEigen.cpp
+++ b/src/ProgEigen.cpp
@@ -59,7 +59,7 @@ namespace QDLIB
       sn = _dir + _ename;
       try {
 	 enfile.open(sn.c_str());
-	 if (!enfile.is_open()) throw;
+	 if (!enfile.is_open()) throw (EIOError("Can not open file", sn));
 
 	 for (int i=0; i < _Nef; i++){
 
-- 
2.43.0


From 991fbe594e7fd735370ee6bbbf64fa6789945938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:47 +0000
Subject: [PATCH 10/73] fix: Reporter re-raised without an active exception
 when the spectrum file can't be opened

---
 src/Reporter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Reporter.cpp b/src/Reporter.cpp
index 7e87690..c271afd 100644
--- a/src/Reporter.cpp
+++ b/src/Reporter.cpp
@@ -167,7 +167,7 @@ namespace QDLIB
       /* Autocorellation power spectrum */
       try {
        ofile.open(name.c_str());
-       if (!ofile.is_open()) throw;
+       if (!ofile.is_open()) throw (EIOError("Can not open file", name));
        
        fftw.forward();
        
-- 
2.43.0


From 49d76cb0a64faf9fd98e3e82f249ef14d8c566fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:47 +0000
Subject: [PATCH 11/73] fix: ProgCfun dropped the error when the propagation
 meta file can't be written

---
 src/ProgCfun.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ProgCfun.cpp b/src/ProgCfun.cpp
index 0170d32..c9d9c33 100644
--- a/src/ProgCfun.cpp
+++ b/src/ProgCfun.cpp
@@ -514,7 +514,7 @@ namespace QDLIB
 	  p.SetValue("Wcycle", wcycle_);
 
 	  if (!p.WriteToFile(write_dir_ + "/Propagation" + METAFILE_SUFFIX))
-	     EIOError("Can not write meta file");
+	     throw (EIOError("Can not write meta file"));
 
 	  wfbuffer.SaveToFiles(write_dir_ + "/WF");
 	}
-- 
2.43.0


From 7fd0b270af175b8dc15f2221cfadf791f7751214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:47 +0000
Subject: [PATCH 12/73] fix: ProgPropa dropped the error when the propagation
 meta file can't be written

---
 src/ProgPropa.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ProgPropa.cpp b/src/ProgPropa.cpp
index 8bbb9be..88609ac 100644
--- a/src/ProgPropa.cpp
+++ b/src/ProgPropa.cpp
@@ -154,7 +154,7 @@ namespace QDLIB {
       p.SetValue("Wcycle", _wcycle);
 
       if (!p.WriteToFile(_dir + "Propagation" + METAFILE_SUFFIX))
-         EIOError("Can not write meta file");
+         throw (EIOError("Can not write meta file"));
    }
 
    /**
-- 
2.43.0


From 2442b554dd1810865006f3460ed36d81e85bb640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:47 +0000
Subject: [PATCH 13/73] fix: FileSingle dropped the error when a meta file
 can't be written

---
 src/tools/FileSingle.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/FileSingle.h b/src/tools/FileSingle.h
index dc56c4a..a4f2248 100644
--- a/src/tools/FileSingle.h
+++ b/src/tools/FileSingle.h
@@ -810,7 +810,7 @@ namespace QDLIB
       if (!_drop_meta || _counter != _counter_last) {
 
          if (!p.WriteToFile(_name + METAFILE_SUFFIX))
-            EIOError("Can not write meta file");
+            throw (EIOError("Can not write meta file"));
       }
    }
 
-- 
2.43.0


From 42dcd27a8e88f4b560378c9038a98537c347412a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:49 +0000
Subject: [PATCH 14/73] fix: a malformed configuration file terminated qdng
 outside of any error handler

---
 src/qdng.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qdng.cpp b/src/qdng.cpp
index 48b03be..ea4fd19 100644
--- a/src/qdng.cpp
+++ b/src/qdng.cpp
@@ -166,7 +166,6 @@ int main(int argc, char **argv)
 #endif
 
    Logger& log = Logger::InstanceRef();
-   ParamContainer& gp = GlobalParams::Instance();
 
    bool CmdMode = false; /* interactive command mode */
 
@@ -206,6 +205,8 @@ int main(int argc, char **argv)
       }
 
 #ifdef USE_DYNMODS
+      ParamContainer& gp = GlobalParams::Instance();
+
       /* First check if a path is given in the global options */
       if (gp.isPresent("modpath")) {
          string path;
@@ -289,6 +290,8 @@ int main(int argc, char **argv)
    /* This is the global try-catch block */
    try {
 
+      ParamContainer& gp = GlobalParams::Instance();
+
       /* Check if debug output is requested */
       if (gp.isPresent("debug")) {
          bool dbg;
-- 
2.43.0


From 7fd5794495fa9fe644442e11e3fb15e1ba3a4951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:49 +0000
Subject: [PATCH 15/73] fix: command line errors ended with a success exit
 status

---
 src/qdng.cpp              | 2 +-
 src/qdz.cpp               | 2 +-
 src/simpleXml/qds2qdi.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qdng.cpp b/src/qdng.cpp
index ea4fd19..f6888c1 100644
--- a/src/qdng.cpp
+++ b/src/qdng.cpp
@@ -279,7 +279,7 @@ int main(int argc, char **argv)
       cerr << e.GetMessage() << "\n";
       show_version();
       cmdline.ShowHelp();
-      exit(0);
+      exit(EXIT_FAILURE);
    }
 
    log.Header("QDng - Quantum Dynamics", Logger::Chapter);
diff --git a/src/qdz.cpp b/src/qdz.cpp
index fc8d5f8..68396bb 100644
--- a/src/qdz.cpp
+++ b/src/qdz.cpp
@@ -188,7 +188,7 @@ int main (int argc, char **argv)
    } catch (Exception e) {
       cerr << e.GetMessage() << "\n";
       cmdline.ShowHelp();
-      exit(0);
+      exit(EXIT_FAILURE);
    }
    
    /* Global try-catch block */
diff --git a/src/simpleXml/qds2qdi.cpp b/src/simpleXml/qds2qdi.cpp
index e2596a4..a0a816a 100644
--- a/src/simpleXml/qds2qdi.cpp
+++ b/src/simpleXml/qds2qdi.cpp
@@ -52,7 +52,7 @@ int main(int argc, char** argv)
    } catch (Exception e) {
       cerr << e.GetMessage() << "\n";
       cmdline.ShowHelp();
-      exit(0);
+      exit(EXIT_FAILURE);
    }
 
    try {
-- 
2.43.0


From 34f2b3b45c0e24baa241bca506cc49c6e378264e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:49 +0000
Subject: [PATCH 16/73] fix: reading the global parameters crashed when HOME is
 not set

---
 src/tools/GlobalParams.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tools/GlobalParams.cpp b/src/tools/GlobalParams.cpp
index 96e6291..b4a557a 100644
--- a/src/tools/GlobalParams.cpp
+++ b/src/tools/GlobalParams.cpp
@@ -15,8 +15,9 @@ namespace QDLIB {
          _ref = new ParamContainer();
 
          /* Look for config file in home */
-         string home(getenv("HOME"));
-         if ( FS::IsFile(home + "/" + QD_CONFIG_FILE_HOME) ){
+         const char* env_home = getenv("HOME");
+         string home(env_home != NULL ? env_home : "");
+         if ( env_home != NULL && FS::IsFile(home + "/" + QD_CONFIG_FILE_HOME) ){
             _ref->ReadFromFile(home + "/" + QD_CONFIG_FILE_HOME);
          }
          if ( FS::IsFile(QD_CONFIG_FILE_LOCAL) ){ /* Look for config in current directory */
-- 
2.43.0


From e837f3925d125fb2d5d8e070fd7631786aa60872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:40 +0000
Subject: [PATCH 17/73] fix: FileSingle crashed instead of reporting that an
 output stream file can't be opened

---
 src/tools/FileSingle.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tools/FileSingle.h b/src/tools/FileSingle.h
index a4f2248..f76e2ec 100644
--- a/src/tools/FileSingle.h
+++ b/src/tools/FileSingle.h
@@ -952,14 +952,13 @@ namespace QDLIB
       /* Create file if needed */
       if (_sout == NULL){
          ofstream* out = new ofstream(); // TODO: Fix this. don't go via an ofstream
-         _our_out_stream = true;
 
          string name;
          BuildDataFileName(name);
          out->open(name.c_str(), ios_base::binary);
 
          if (! out->is_open() ){
-            FinalizeOutStream();
+            delete out;
             throw(EIOError("Can not open binary stream for writing", name));
          }
          _sout = out;
-- 
2.43.0


From 1bfe85e1f1af7155b2fe2dc3f72a16965b140295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:40 +0000
Subject: [PATCH 18/73] fix: FileSingle ignored failed writes to stream files

---
 src/tools/FileSingle.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/tools/FileSingle.h b/src/tools/FileSingle.h
index f76e2ec..cc6e82f 100644
--- a/src/tools/FileSingle.h
+++ b/src/tools/FileSingle.h
@@ -970,6 +970,9 @@ namespace QDLIB
          PbufHeader intro;
 
          _sout->write(reinterpret_cast<char*> (&intro), sizeof(intro));
+         if (_sout->fail())
+            throw(EIOError("Can't write stream header"));
+
          _intro_written = true;
       }
    }
@@ -979,6 +982,8 @@ namespace QDLIB
    void FileSingle<C>::WriteDataToStream(const string &data_buf)
    {
       _sout->write(reinterpret_cast<const char*>(data_buf.data()), data_buf.size());
+      if (_sout->fail())
+         throw(EIOError("Can't write data to stream"));
    }
 
    /**
@@ -987,14 +992,19 @@ namespace QDLIB
    template<class C>
    void FileSingle<C>::FinalizeOutStream()
    {
+      _intro_written = false;
+
       if (_our_out_stream){
-         dynamic_cast<ofstream*>(_sout)->close();
+         dynamic_cast<ofstream*>(_sout)->close(); // flushes the remaining data
+         bool failed = _sout->fail();
+
          delete _sout;
          _sout = NULL;
          _our_out_stream = false;
-      }
 
-      _intro_written = false;
+         if (failed)
+            throw(EIOError("Can't write stream file", _name));
+      }
    }
 
    /**
-- 
2.43.0


From ae3879209c6fb172a9f2a35a84e2ef8fea2117ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:40 +0000
Subject: [PATCH 19/73] fix: FileSingle ignored a failed meta file write of a
 raw binary file

---
 src/tools/FileSingle.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools/FileSingle.h b/src/tools/FileSingle.h
index cc6e82f..bb9f11b 100644
--- a/src/tools/FileSingle.h
+++ b/src/tools/FileSingle.h
@@ -1319,7 +1319,8 @@ namespace QDLIB
       MetaData.header.set_class_(data->Name());
 
       pm.SetValue("CLASS", data->Name());
-      pm.WriteToFile(_name + METAFILE_SUFFIX);
+      if (!pm.WriteToFile(_name + METAFILE_SUFFIX))
+         throw (EIOError("Can not write meta file", _name + METAFILE_SUFFIX));
    }
 
    /**
-- 
2.43.0


From 31db5c86961ee5e6e99ce891ef67ada6df235201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:40 +0000
Subject: [PATCH 20/73] fix: FileSingle ignored write errors which show up when
 a raw binary file is closed

---
 src/tools/FileSingle.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools/FileSingle.h b/src/tools/FileSingle.h
index bb9f11b..82053a7 100644
--- a/src/tools/FileSingle.h
+++ b/src/tools/FileSingle.h
@@ -1372,7 +1372,9 @@ namespace QDLIB
             break;
       }
 
-      file.close();
+      file.close(); /* flushes the remaining data */
+      if (file.fail())
+         throw(EIOError("Can not write binary file", name));
    }
 
    /**
-- 
2.43.0


From 3a10f1b6fce324f3b6478f05b7db2d853df0da8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:40 +0000
Subject: [PATCH 21/73] fix: ParamContainer::WriteToFile reported success for
 files which can't be opened or written

---
 src/tools/ParamContainer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/ParamContainer.cpp b/src/tools/ParamContainer.cpp
index 18e9b2a..b766ba3 100644
--- a/src/tools/ParamContainer.cpp
+++ b/src/tools/ParamContainer.cpp
@@ -846,12 +846,12 @@ namespace QDLIB {
       ofstream file;
 
       file.open(name.c_str(),  ios_base::out);
-      if( file.bad() ) return false;
+      if( file.fail() ) return false;
 
       Write(file, with_types);
 
       file.close();
-      if( file.bad() ) return false;
+      if( file.fail() ) return false;
 
       return true;
    }
-- 
2.43.0


From 87c5f109ebecf81a037288feed68f06cc14fe356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:40 +0000
Subject: [PATCH 22/73] fix: WFBuffer lost wave functions silently when its
 temporary files can't be written or read

---
 src/qdlib/WFBuffer.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/qdlib/WFBuffer.cpp b/src/qdlib/WFBuffer.cpp
index c7389d6..b2c0a46 100644
--- a/src/qdlib/WFBuffer.cpp
+++ b/src/qdlib/WFBuffer.cpp
@@ -124,9 +124,12 @@ namespace QDLIB {
             // Dump to file
             ofstream file;
             file.open(_GetFileName(i).c_str(), ios_base::trunc);
-            _buf[i].Psi->Serialize(file); // TODO: Error checking!!
+            _buf[i].Psi->Serialize(file);
             file.close();
 
+            if (file.fail())
+               throw(EIOError("WFBuffer: Can't write to temporary file", _GetFileName(i)));
+
             // Book keeping
             _ondisk++;
 
@@ -150,7 +153,11 @@ namespace QDLIB {
 
       ifstream file;
       file.open(_GetFileName(pos).c_str());
-      _buf[pos].Psi->DeSerialize(file); // TODO: Error checking!!
+      _buf[pos].Psi->DeSerialize(file);
+
+      if (file.fail())
+         throw(EIOError("WFBuffer: Can't read from temporary file", _GetFileName(pos)));
+
       file.close();
       
       _ondisk--;
-- 
2.43.0


From 7be05ae7096e69392764aeb0d1ebf831bd2c89b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:04 +0000
Subject: [PATCH 23/73] fix: FileSingle accepted empty and truncated stream
 headers

---
 src/tools/FileSingle.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tools/FileSingle.h b/src/tools/FileSingle.h
index 82053a7..52fa652 100644
--- a/src/tools/FileSingle.h
+++ b/src/tools/FileSingle.h
@@ -1067,6 +1067,8 @@ namespace QDLIB
       PbufHeader intro;
 
       _sin->read(reinterpret_cast<char*>(&intro), sizeof(PbufHeader));
+      if (_sin->fail())
+         throw(EIOError("Can't read header from stream"));
 
       if (string(intro.magic) != PBUF_MAGIC)
          throw(EIOError("Malformated stream. No stream magic found."));
@@ -1087,13 +1089,15 @@ namespace QDLIB
 
       /* message/meta data length */
       _sin->read(reinterpret_cast<char*>(&mlen), sizeof(uint32_t));
+      if (_sin->fail())
+         throw(EIOError("Error reading meta data from stream"));
 
       char* buf = new char[mlen];
       _sin->read(reinterpret_cast<char*>(buf), mlen);
 
       // Parse header
       MetaData.ClearAll();
-      if (!MetaData.header.ParseFromArray(reinterpret_cast<const void*>(buf), mlen)){
+      if (_sin->fail() || !MetaData.header.ParseFromArray(reinterpret_cast<const void*>(buf), mlen)){
          delete[] buf;
          throw(EIOError("Error reading meta data from stream"));
       }
-- 
2.43.0


From 47bcab688e7c8de1b007f67207e9c4ddfc2bf8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:04 +0000
Subject: [PATCH 24/73] fix: wave functions accepted truncated data

---
 src/qdlib/OGridsystem.cpp  | 10 ++++++++--
 src/qdlib/WFGridSystem.cpp |  8 +++++++-
 src/qdlib/WFLevel.cpp      |  6 ++++++
 src/qdlib/WFMultistate.cpp |  3 +++
 4 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/qdlib/OGridsystem.cpp b/src/qdlib/OGridsystem.cpp
index 08b7bb7..70269cd 100644
--- a/src/qdlib/OGridsystem.cpp
+++ b/src/qdlib/OGridsystem.cpp
@@ -81,11 +81,15 @@ namespace QDLIB {
       uint32_t size;
 
       is.read(reinterpret_cast<char*>(&size), sizeof(uint32_t));
+      if (is.fail())
+         throw(EIOError("Can't read Operator from stream"));
 
       char* buf = new char[size];
       is.read(buf, size);
-      if (! grid_sys.header.ParseFromArray(buf, size) )
-         throw(EIOError("Can't read WF from stream"));
+      if (is.fail() || ! grid_sys.header.ParseFromArray(buf, size) ) {
+         delete[] buf;
+         throw(EIOError("Can't read Operator from stream"));
+      }
 
       delete[] buf;
 
@@ -93,6 +97,8 @@ namespace QDLIB {
       grid_sys.header.set_data_size(GridSystem::Size() * sizeof(*begin(0)));
 
       is.read(reinterpret_cast<char*>(begin(0)), sizeBytes());
+      if (is.fail())
+         throw(EIOError("Can't read Operator from stream"));
    }
 
 } /* namespace QDLIB */
diff --git a/src/qdlib/WFGridSystem.cpp b/src/qdlib/WFGridSystem.cpp
index 58e999d..9ebe87d 100644
--- a/src/qdlib/WFGridSystem.cpp
+++ b/src/qdlib/WFGridSystem.cpp
@@ -161,11 +161,15 @@ namespace QDLIB {
       uint32_t size;
 
       is.read(reinterpret_cast<char*>(&size), sizeof(uint32_t));
+      if (is.fail())
+         throw(EIOError("Can't read WF from stream"));
 
       char* buf = new char[size];
       is.read(buf, size);
-      if (! grid_sys.header.ParseFromArray(buf, size) )
+      if (is.fail() || ! grid_sys.header.ParseFromArray(buf, size) ) {
+         delete[] buf;
          throw(EIOError("Can't read WF from stream"));
+      }
 
       delete[] buf;
 
@@ -174,6 +178,8 @@ namespace QDLIB {
       grid_sys.header.set_data_size(GridSystem::Size() * sizeof(*begin(0)));
 
       is.read(reinterpret_cast<char*>(begin(0)), sizeBytes());
+      if (is.fail())
+         throw(EIOError("Can't read WF from stream"));
    }
 
 } /* namespace QDLIB */
diff --git a/src/qdlib/WFLevel.cpp b/src/qdlib/WFLevel.cpp
index fab87a5..81d1b4d 100644
--- a/src/qdlib/WFLevel.cpp
+++ b/src/qdlib/WFLevel.cpp
@@ -152,12 +152,18 @@ namespace QDLIB {
       is.read(reinterpret_cast<char*>(&sizee), sizeof(sizee));
       is.read(reinterpret_cast<char*>(&sizeb), sizeof(sizeb));
 
+      if (is.fail())
+         throw( EIOError("Can't read WFLevel from stream") );
+
       if (sizee * sizeof(dcomplex) != sizeb)
          throw( EIOError("Can't read WFLevel: wrong header") );
 
       newsize(sizee);
 
       is.read(reinterpret_cast<char*>(begin(0)), sizeb);
+
+      if (is.fail())
+         throw( EIOError("Can't read WFLevel from stream") );
    }
 } /* namespace QDLIB */
 
diff --git a/src/qdlib/WFMultistate.cpp b/src/qdlib/WFMultistate.cpp
index 1831c5c..1c4c963 100644
--- a/src/qdlib/WFMultistate.cpp
+++ b/src/qdlib/WFMultistate.cpp
@@ -290,6 +290,9 @@ namespace QDLIB
       // The info here is useless right now. Ignore it.
       uint32_t states = 0;
       is.read(reinterpret_cast<char*>(&states), sizeof(uint32_t));
+
+      if (is.fail())
+         throw( EIOError("Can't read WFMultistate from stream") );
    }
 
 }
-- 
2.43.0


From bce600b07ba3c2580e5b397110daad7e6d258598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:05 +0000
Subject: [PATCH 25/73] fix: laser fields and matrix operators accepted
 truncated data

---
 src/qdlib/Laser.cpp            | 9 +++++++++
 src/qdlib/OHermitianMatrix.cpp | 6 ++++++
 2 files changed, 15 insertions(+)

diff --git a/src/qdlib/Laser.cpp b/src/qdlib/Laser.cpp
index 49a2cbc..0408110 100644
--- a/src/qdlib/Laser.cpp
+++ b/src/qdlib/Laser.cpp
@@ -222,12 +222,18 @@ namespace QDLIB {
 
       is.read(reinterpret_cast<char*>(&size), sizeof(size));
 
+      if (is.fail())
+         throw(EIOError("Can't read laser field from stream"));
+
       if (size == 0)
          throw(EParamProblem("Laser field has zero size"));
 
       double dt;
       is.read(reinterpret_cast<char*>(&dt), sizeof(dt));
 
+      if (is.fail())
+         throw(EIOError("Can't read laser field from stream"));
+
       if (dt <= 0)
          throw(EParamProblem("Laser field got a non-sense dt: ", dt));
 
@@ -236,6 +242,9 @@ namespace QDLIB {
       newsize(size);
 
       is.read(reinterpret_cast<char*>(begin(0)), sizeBytes());
+
+      if (is.fail())
+         throw(EIOError("Can't read laser field from stream"));
    }
    
 }
diff --git a/src/qdlib/OHermitianMatrix.cpp b/src/qdlib/OHermitianMatrix.cpp
index b84f334..a5aad92 100644
--- a/src/qdlib/OHermitianMatrix.cpp
+++ b/src/qdlib/OHermitianMatrix.cpp
@@ -301,9 +301,15 @@ namespace QDLIB {
       is.read(reinterpret_cast<char*>(&size), sizeof(uint32_t));
       is.read(reinterpret_cast<char*>(&size), sizeof(uint32_t));
 
+      if (is.fail())
+         throw(EIOError("Can't read OHermitianMatrix from stream"));
+
       newsize(size, size);
 
       is.read(reinterpret_cast<char*>(begin()), sizeBytes());
+
+      if (is.fail())
+         throw(EIOError("Can't read OHermitianMatrix from stream"));
    }
 
 } /* namespace QDLIB */
-- 
2.43.0


From d382ddfa4878c5d599ede7e0cfcffc0a771c94e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:05 +0000
Subject: [PATCH 26/73] fix: CmdHandler acted on commands it could not read

---
 src/CmdHandler.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/CmdHandler.cpp b/src/CmdHandler.cpp
index 8580ad2..024abfe 100644
--- a/src/CmdHandler.cpp
+++ b/src/CmdHandler.cpp
@@ -790,12 +790,15 @@ namespace QDLIB
          log.coutdbg() << "Waiting for input.." << endl;
          log.flush();
          sin_->read(reinterpret_cast<char*>(&msg_size), sizeof(msg_size));
+         if (sin_->fail())
+            throw (EIOError("Reading the command from input failed"));
+
          log.coutdbg() << "msg_size: " << msg_size << endl;
 
          buffer = new char[msg_size];
          sin_->read(reinterpret_cast<char*>(buffer), msg_size);
 
-         if ( !cmd.ParseFromArray(buffer, msg_size) )
+         if ( sin_->fail() || !cmd.ParseFromArray(buffer, msg_size) )
             throw (EParamProblem("Parsing the command from input failed"));
 
          log.cout() << "cmd_type: "
-- 
2.43.0


From 0728ff37b9414fec5f0b16b4b2e06ef0d4a5b265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:05 +0000
Subject: [PATCH 27/73] fix: CmdHandler ignored failures to send a response

---
 src/CmdHandler.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/CmdHandler.cpp b/src/CmdHandler.cpp
index 024abfe..245a76b 100644
--- a/src/CmdHandler.cpp
+++ b/src/CmdHandler.cpp
@@ -50,6 +50,8 @@ namespace QDLIB
 
       sout_->flush();
 
+      if (sout_->fail())
+         throw(EIOError("Couldn't send response to last command"));
    }
 
    void CmdHandler::send_OK(bool data_follows)
@@ -341,6 +343,8 @@ namespace QDLIB
       try {
          file.WriteWaveFunction(wf);
          sout_->flush();
+         if (sout_->fail())
+            throw(EIOError("Couldn't send wave function"));
       }  catch (Exception& e) {
          send_error_message(e.GetMessage());
          throw (e);
@@ -479,6 +483,8 @@ namespace QDLIB
       try {
          file.WriteSingleFileToStream(ser);
          sout_->flush();
+         if (sout_->fail())
+            throw(EIOError("Couldn't send operator"));
       } catch (Exception& e) {
          send_error_message(e.GetMessage());
          throw(e);
-- 
2.43.0


From 95dd69da0ba1bd849d467286a38d6e37b4ee1a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:05 +0000
Subject: [PATCH 28/73] fix: qdng_info showed meta data it could not read

---
 src/qdng_info.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/qdng_info.cpp b/src/qdng_info.cpp
index 5abf936..9dc2710 100644
--- a/src/qdng_info.cpp
+++ b/src/qdng_info.cpp
@@ -51,7 +51,7 @@ int main(int argc, char **argv)
       PbufHeader intro;
 
       file.read(reinterpret_cast<char*>(&intro), sizeof(PbufHeader));
-      if (file.bad() || file.gcount() != sizeof(PbufHeader)){
+      if (file.fail() || file.gcount() != sizeof(PbufHeader)){
          throw(EIOError("Can not read intro from stream"));
       }
 
@@ -64,12 +64,15 @@ int main(int argc, char **argv)
       /* Print out header */
       int header_size;
       file.read((char*) &header_size, sizeof(header_size));
+      if (file.fail() || header_size < 0)
+         throw(EIOError("Can not read meta data from stream"));
 
-      char* buffer = new char[header_size];
-      file.read((char*) buffer, header_size);
+      string buffer(header_size, 0);
+      file.read(&buffer[0], header_size);
 
       FileSingleHeader MetaData;
-      MetaData.ParseFromArray((void*) buffer, header_size);
+      if (file.fail() || !MetaData.ParseFromArray(buffer.data(), header_size))
+         throw(EIOError("Can not read meta data from stream"));
 //
 //      google::protobuf::Descriptor* descriptor = MetaData.GetDescriptor();
 //
-- 
2.43.0


From df9be30e45096036f9b385f9571fe8547c834299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:20 +0000
Subject: [PATCH 29/73] fix: qdng read past the end of its XML input, and for
 ever from a file it can't open

---
 src/qdng.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/qdng.cpp b/src/qdng.cpp
index f6888c1..37feb61 100644
--- a/src/qdng.cpp
+++ b/src/qdng.cpp
@@ -118,19 +118,18 @@ void CheckInput(const string &name, string &xml)
       fstream infile;
       infile.open(name.c_str(), fstream::in);
 
-      char* buf = (char*) malloc(QDNG_INPUT_BUFFER);
-      size_t size = 0;
+      if (! infile.is_open())
+         throw(EIOError("Can not open input file", name));
 
       /* Read clean XML input */
-      while (! infile.eof() ){
-         if (size > 0) buf = (char*) realloc(buf, size + QDNG_INPUT_BUFFER);
-
-         infile.read(buf+size, QDNG_INPUT_BUFFER);
-
-         size += infile.gcount();
+      char buf[QDNG_INPUT_BUFFER];
+      while (infile.good()) {
+         infile.read(buf, QDNG_INPUT_BUFFER);
+         xml.append(buf, infile.gcount());
       }
-      xml = buf;
-      free(buf);
+
+      if (infile.bad())
+         throw(EIOError("Can not read input file", name));
    }
 
    if (type == QDSXML::UNKNOWN) {
-- 
2.43.0


From 19f44e940e5bf32e6f2ac36d2050684b70f719ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:39 +0000
Subject: [PATCH 30/73] fix: FiltersList lost its expectation values when the
 output file can't be written

---
 src/FiltersList.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/FiltersList.cpp b/src/FiltersList.cpp
index 6df5467..3f75e30 100644
--- a/src/FiltersList.cpp
+++ b/src/FiltersList.cpp
@@ -140,6 +140,9 @@ namespace QDLIB {
          log.cout() << "Filter expectation value file: " << _fname << endl;
          log.flush();
          _ofile.open(_fname.c_str());
+         if (!_ofile.is_open())
+            throw(EIOError("Can not open filter output file", _fname));
+
          _ofile.precision(10);
       }
    }
@@ -261,7 +264,9 @@ namespace QDLIB {
       
       /* Check for initializations of the operators */
       if (! _initalized){
-         _ofile << "time \t";
+         if (_writefile)
+            _ofile << "time \t";
+
 	 for(int i=0; i < _size; i++){
 	    if (_filter[i].action != normalize && _filter[i].action != rho){
 	       _filter[i].op->Clock(_clock);
@@ -335,7 +340,11 @@ namespace QDLIB {
 	 }
       }
       
-      if (_writefile) _ofile << endl;
+      if (_writefile) {
+         _ofile << endl;
+         if (_ofile.fail())
+            throw(EIOError("Can not write filter output file", _fname));
+      }
       if (! _initalized) _initalized = true;
    }
    
-- 
2.43.0


From 7fdcf73065febb59a33a05f876036d6175dea0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:39 +0000
Subject: [PATCH 31/73] fix: ProgEigen ignored a failed write of the energy
 file

---
 src/ProgEigen.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ProgEigen.cpp b/src/ProgEigen.cpp
index 3e456ee..a6175bd 100644
--- a/src/ProgEigen.cpp
+++ b/src/ProgEigen.cpp
@@ -83,6 +83,7 @@ namespace QDLIB
 	    enfile << endl;
 	 }
 	 enfile.close();
+	 if (enfile.fail()) throw (EIOError("Can not write file", sn));
       } catch (...){
 	 log.cout() << "!!! Can't write energy file\n\n";
       }
-- 
2.43.0


From d04030d318c507db5b0cb92978b382d35f9b2e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:47 +0000
Subject: [PATCH 32/73] fix: Reporter claimed success for a spectrum file it
 could not write

---
 src/Reporter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Reporter.cpp b/src/Reporter.cpp
index c271afd..56a09f2 100644
--- a/src/Reporter.cpp
+++ b/src/Reporter.cpp
@@ -186,6 +186,8 @@ namespace QDLIB
                    "\t" << spec[i].imag() / (N/2) << endl;
        }
        ofile.close();
+       if (ofile.fail()) throw (EIOError("Can not write file", name));
+
        log.cout() << "Autocorellation power spectrum written to file: " << name.c_str() << endl << endl;
       }  catch (...)
       {log.cout() << "!!! Can't write auto correlation spectrum\n\n";}
-- 
2.43.0


From 1ccedea414cdd0ee4018dc858b2451bf83da6e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:47 +0000
Subject: [PATCH 33/73] fix: qds2qdi ignored a failed write of its output

---
 src/simpleXml/Simple2Xml.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/simpleXml/Simple2Xml.cpp b/src/simpleXml/Simple2Xml.cpp
index 414491f..d3df81a 100644
--- a/src/simpleXml/Simple2Xml.cpp
+++ b/src/simpleXml/Simple2Xml.cpp
@@ -101,6 +101,8 @@ namespace QDSXML {
       of << ss_yy_buf.str();
       //fclose(_yyout);
       of.close();
+      if (of.fail())
+         throw (QDLIB::EIOError("Can't write file: ", oname) );
    }
 
    /**
-- 
2.43.0


From fc445d0c4ab377ae4eb0c2914cddd861852b00e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:47 +0000
Subject: [PATCH 34/73] fix: ProgEigen went on when it could not read the
 propagation meta file

---
 src/ProgEigen.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ProgEigen.cpp b/src/ProgEigen.cpp
index a6175bd..f0be483 100644
--- a/src/ProgEigen.cpp
+++ b/src/ProgEigen.cpp
@@ -472,7 +472,8 @@ namespace QDLIB
 	   string s;
 	   int wcycle;
 
-	   meta.ReadFromFile(_read+"Propagation.meta");
+	   if (!meta.ReadFromFile(_read+"Propagation.meta"))
+	      throw (EIOError("Can not read meta file", _read+"Propagation.meta"));
 
 	   meta.GetValue("CLASS", s);
 	   if (s != "Propagation")
-- 
2.43.0


From e312bd0e9be81b64b73290d20d64b473aa0017ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:59 +0000
Subject: [PATCH 35/73] fix: qdz took a failed write for the end of the series

---
 src/qdz.cpp | 50 +++++++++++++++++++++++++-------------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/src/qdz.cpp b/src/qdz.cpp
index 68396bb..fc15713 100644
--- a/src/qdz.cpp
+++ b/src/qdz.cpp
@@ -77,23 +77,23 @@ void DeCompress(string fname, bool series)
       wio << WF;
       
       /* Loop over rest of series */
-      try {
-         while (true){
-            counter = wio.Counter();
+      while (true){
+         counter = wio.Counter();
+         try {
             wio >> WF;
-            
-            cout << "inflate " << counter << endl;
-            /* Remove compression flag */
-            p = WF->Params();
-            p.SetValue("compress", false);
-            
-            wio.Counter(counter);
-            wio << WF;
+         } catch (Exception e) {
+            /** \todo capture real errors here */
+            break;
          }
-      } catch (Exception e) {
-         /** \todo capture real errors here */
+
+         cout << "inflate " << counter << endl;
+         /* Remove compression flag */
+         p = WF->Params();
+         p.SetValue("compress", false);
+
+         wio.Counter(counter);
+         wio << WF;
       }
-         
    }
       
    DELETE_WF(WF);
@@ -139,20 +139,20 @@ void Compress(string fname, bool series, double tol, int level, const string &me
       wio << WF;
       
       /* Loop over rest of series */
-      try {
-         while (true){
-            counter = wio.Counter();
+      while (true){
+         counter = wio.Counter();
+         try {
             wio >> WF;
-            
-            cout << "deflate " << counter << endl;
-            
-            wio.Counter(counter);
-            wio << WF;
+         } catch (Exception e) {
+            /** \todo capture real errors here */
+            break;
          }
-      } catch (Exception e) {
-         /** \todo capture real errors here */
-      }
 
+         cout << "deflate " << counter << endl;
+
+         wio.Counter(counter);
+         wio << WF;
+      }
    }
    
    DELETE_WF(WF);
-- 
2.43.0


From 3b17791f9625cd0cfc6406ebbbfef52f477e58a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:13 +0000
Subject: [PATCH 36/73] fix: WFBuffer took a failed write of its temporary
 files for the end of the series

---
 src/qdlib/WFBuffer.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/qdlib/WFBuffer.cpp b/src/qdlib/WFBuffer.cpp
index b2c0a46..26bdfe2 100644
--- a/src/qdlib/WFBuffer.cpp
+++ b/src/qdlib/WFBuffer.cpp
@@ -336,13 +336,16 @@ namespace QDLIB {
 
       int counter = 1;
 
-      try {
-         while (counter < num || num == -1){ /* Run loop until something fails => must be the end of the wf-series (this is dirty) */
+      while (counter < num || num == -1){ /* Run loop until something fails => must be the end of the wf-series (this is dirty) */
+         try {
             wfile >> psi;
-            Add(psi);
-            counter++;
+         } catch (EIOError& e) {
+            break;
          }
-      } catch (EIOError& e) {}
+
+         Add(psi);
+         counter++;
+      }
    }
   
   
-- 
2.43.0


From 25de3afa945c4f8fbae43773e1a3123c60f802b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:40 +0000
Subject: [PATCH 37/73] fix: FiltersList wrote values to an output file which
 is not open

---
 src/FiltersList.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/FiltersList.cpp b/src/FiltersList.cpp
index 3f75e30..a8a7d80 100644
--- a/src/FiltersList.cpp
+++ b/src/FiltersList.cpp
@@ -239,6 +239,8 @@ namespace QDLIB {
     */
    void FiltersList::_write_value(int i)
    {
+     if (!_writefile) return; /* no file to write to */
+
      switch (_filter[i].value) {
          case imag:
             _ofile << _filter[i].sum.imag() << "\t";
-- 
2.43.0


From 33d633e0eba7d95abc5811134e5caee80781728b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 38/73] fix: sections without content crashed qdng

---
 src/ChainLoader.cpp   | 13 +++++++++++++
 src/ProgCfun.cpp      |  4 ++++
 src/ProgEigen.cpp     |  2 ++
 src/ProgFilter.cpp    |  2 ++
 src/ProgOCT.cpp       |  2 ++
 src/ProgPropa.cpp     |  2 ++
 src/tools/XmlNode.cpp |  2 +-
 7 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/ChainLoader.cpp b/src/ChainLoader.cpp
index 0c092d7..9e02ff7 100644
--- a/src/ChainLoader.cpp
+++ b/src/ChainLoader.cpp
@@ -55,6 +55,8 @@ namespace QDLIB
 
       if (name == "GridSum") { /* Grid sum operator */
 	 child = Onode->NextChild();
+	 if (child == NULL)
+	    throw ( EParamProblem("GridSum contains no operators") );
 	 child->AdjustElementNode();
 	 Operator *osub;
 	 OGridSystem *gsub;
@@ -86,6 +88,8 @@ namespace QDLIB
 
 	 log.IndentInc();
 	 child = Onode->NextChild();
+	 if (child == NULL)
+	    throw ( EParamProblem("Multistate operator contains no operators") );
 	 child->AdjustElementNode();
 	 Operator *osub;
 	 OMultistate *matrix = NULL;
@@ -280,6 +284,9 @@ namespace QDLIB
          WFNode->NextNode();
       }
 
+      if (WF == NULL)
+         throw ( EParamProblem("Linear combination contains no wave functions") );
+
       return WF;
    }
 
@@ -318,6 +325,8 @@ namespace QDLIB
 	 log.cout() << "Multi state wave function:" << endl;
 	 log.IndentInc();
 	 child = WFNode->NextChild();
+	 if (child == NULL)
+	    throw ( EParamProblem("No wave functions given for", name) );
 	 child->AdjustElementNode();
 
 	 WF = LoadWFMultistate_( child, pm, seqnum);
@@ -337,6 +346,8 @@ namespace QDLIB
 
          /* load the wf from the sub node */
          child = WFNode->NextChild();
+         if (child == NULL)
+            throw ( EParamProblem("No wave functions given for", name) );
          child->AdjustElementNode();
 
          WF = LoadWFMultimap_(child, pm, seqnum);
@@ -346,6 +357,8 @@ namespace QDLIB
 	 log.cout() << "Build linear combination from wave functions:" << endl;
 	 log.IndentInc();
 	 child = WFNode->NextChild();
+	 if (child == NULL)
+	    throw ( EParamProblem("No wave functions given for", name) );
 	 child->AdjustElementNode();
 
 	 WF = ChainLoader::LoadWFLC_( child,  pm,  seqnum);
diff --git a/src/ProgCfun.cpp b/src/ProgCfun.cpp
index c9d9c33..64fb9da 100644
--- a/src/ProgCfun.cpp
+++ b/src/ProgCfun.cpp
@@ -111,6 +111,8 @@ namespace QDLIB
       log.IndentInc();
 
       XmlNode *child = section->NextChild();
+      if (child == NULL)
+	throw ( EParamProblem("Definition contains no operators", name) );
       child->AdjustElementNode();
 
       while (child->EndNode()){
@@ -398,6 +400,8 @@ namespace QDLIB
 
     /* fetch the ChildNodes */
     ContentNodes_ = CfunNode_.NextChild();
+    if (ContentNodes_ == NULL)
+	 throw ( EParamProblem ("No content in program definition") );
 
     /* Load & Init the propagator */
     section = ContentNodes_->FindNode( "propagator" );
diff --git a/src/ProgEigen.cpp b/src/ProgEigen.cpp
index f0be483..a0bf7b4 100644
--- a/src/ProgEigen.cpp
+++ b/src/ProgEigen.cpp
@@ -666,6 +666,8 @@ namespace QDLIB
 
       /* Load & Init the propagator */
       _ContentNodes = _EigenNode.NextChild();
+      if (_ContentNodes == NULL)
+	 throw ( EParamProblem ("No content in program definition") );
 
       log.Header( "QM Initialization", Logger::Section);
       log.Header( "Propagator: ", Logger::SubSection);
diff --git a/src/ProgFilter.cpp b/src/ProgFilter.cpp
index cfe090e..7e7188a 100644
--- a/src/ProgFilter.cpp
+++ b/src/ProgFilter.cpp
@@ -133,6 +133,8 @@ namespace QDLIB
       wffiles >> &WF;
 
       XmlNode *ContentNodes = _FilterNode.NextChild();
+      if (ContentNodes == NULL)
+         throw(EParamProblem("No content in program definition"));
 
       /* Post step filters */
       XmlNode *section = ContentNodes->FindNode( "filterdef" );
diff --git a/src/ProgOCT.cpp b/src/ProgOCT.cpp
index 60c5f8d..b1a99f1 100644
--- a/src/ProgOCT.cpp
+++ b/src/ProgOCT.cpp
@@ -812,6 +812,8 @@ namespace QDLIB
 
       /* fetch the ChildNodes */
       _ContentNodes = _octNode.NextChild();
+      if (_ContentNodes == NULL)
+         throw(EParamProblem("No content in program definition"));
 
       log.Header("QM Initialization", Logger::Section);
       log.Header("Propagator: ", Logger::SubSection);
diff --git a/src/ProgPropa.cpp b/src/ProgPropa.cpp
index 88609ac..068f9db 100644
--- a/src/ProgPropa.cpp
+++ b/src/ProgPropa.cpp
@@ -186,6 +186,8 @@ namespace QDLIB {
       
       /* fetch the ChildNodes */
       _ContentNodes = _propaNode.NextChild();
+      if (_ContentNodes == NULL)
+	 throw ( EParamProblem ("No content in program definition") );
       
       log.Header( "QM Initialization", Logger::Section);
       log.Header( "Propagator: ", Logger::SubSection);
diff --git a/src/tools/XmlNode.cpp b/src/tools/XmlNode.cpp
index e14efd6..41a4a04 100644
--- a/src/tools/XmlNode.cpp
+++ b/src/tools/XmlNode.cpp
@@ -86,7 +86,7 @@ namespace QDLIB {
     */
    void XmlNode::AdjustElementNode()
    {
-      if ( _cur_node->type != XML_ELEMENT_NODE && _cur_node->next != NULL) NextNode();
+      if ( _cur_node != NULL && _cur_node->type != XML_ELEMENT_NODE && _cur_node->next != NULL) NextNode();
    }   
    
    /**
-- 
2.43.0


From 61ac1fc24b990891daab33f35b32238f3c24bf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 39/73] fix: unsuitable wave functions and operators crashed
 instead of being rejected

---
 src/FiltersList.cpp            |  2 ++
 src/ProgOCT.cpp                |  2 +-
 src/Reporter.cpp               |  5 ++++-
 src/qdlib/ODMultistate.cpp     |  2 ++
 src/qdlib/OFlux.cpp            |  2 +-
 src/qdlib/OGridNabla.cpp       |  6 ++++++
 src/qdlib/OHermitianMatrix.cpp |  8 ++++++--
 src/qdlib/OMultistate.cpp      |  8 ++++++++
 src/qdlib/OPropagator.h        |  2 ++
 src/qdlib/TransformFFT.cpp     |  6 ++++++
 src/qdlib/TransformMSD.cpp     | 10 ++++++++--
 src/qdlib/WFGridCartesian.cpp  |  7 ++++++-
 src/qdlib/WFGridSystem.cpp     |  3 +++
 src/qdlib/WFLevel.cpp          |  3 +++
 14 files changed, 58 insertions(+), 8 deletions(-)

diff --git a/src/FiltersList.cpp b/src/FiltersList.cpp
index a8a7d80..75a6c13 100644
--- a/src/FiltersList.cpp
+++ b/src/FiltersList.cpp
@@ -330,6 +330,8 @@ namespace QDLIB {
 	   case rho:
 	     {
 	       WFMultistate* psi = dynamic_cast<WFMultistate*>(Psi);
+	       if (psi == NULL)
+		  throw ( EIncompatible("Density matrix filter needs a multi state wave function", Psi->Name()) );
 	       dcomplex rho =  *(psi->State(_filter[i].ms[0])) * psi->State(_filter[i].ms[1]);
 		if (_filter[i].integrate)
 		   _filter[i].sum += rho * _clock->Dt();
diff --git a/src/ProgOCT.cpp b/src/ProgOCT.cpp
index b1a99f1..f7acbab 100644
--- a/src/ProgOCT.cpp
+++ b/src/ProgOCT.cpp
@@ -947,7 +947,7 @@ namespace QDLIB
             throw(EIncompatible("Unknown coupling type"));
       }
 
-      if (!coupling_ok)
+      if (!coupling_ok || _Coup == NULL)
          throw(EParamProblem("Given type of coupling operator not found in hamiltonian"));
 
       log.cout() << endl;
diff --git a/src/Reporter.cpp b/src/Reporter.cpp
index 56a09f2..3402c8e 100644
--- a/src/Reporter.cpp
+++ b/src/Reporter.cpp
@@ -71,8 +71,11 @@ namespace QDLIB
       dcomplex proj;
   
       /* Multistate support */
-      if (_multistate)
+      if (_multistate){
 	 mspsi = dynamic_cast<WFMultistate*>(Psi);
+	 if (mspsi == NULL)
+	    throw ( EIncompatible("Reporter needs a multi state wave function", Psi->Name()) );
+      }
 
       /* Write header */
       if (_step == 0){
diff --git a/src/qdlib/ODMultistate.cpp b/src/qdlib/ODMultistate.cpp
index 95f87bd..7321054 100644
--- a/src/qdlib/ODMultistate.cpp
+++ b/src/qdlib/ODMultistate.cpp
@@ -42,6 +42,8 @@ namespace QDLIB
       
       WFMultistate* wfm = dynamic_cast<WFMultistate*>(Psi);
 
+      if (wfm == NULL)
+         throw ( EIncompatible("Psi is not of type WFMultistate", Psi->Name()) );
       
       lint last_size = wfm->State(0)->size();
       for (int i=1; i < States(); i++){
diff --git a/src/qdlib/OFlux.cpp b/src/qdlib/OFlux.cpp
index 8534c61..1f1d6d6 100644
--- a/src/qdlib/OFlux.cpp
+++ b/src/qdlib/OFlux.cpp
@@ -84,7 +84,7 @@ namespace QDLIB {
       
       o = dynamic_cast<OFlux*>(O);
       if (o == NULL)
-         throw (EIncompatible("Can't copy to Flux Operator", o->Name()));
+         throw (EIncompatible("Can't copy to Flux Operator", O->Name()));
       
       OList::Copy(O);
       
diff --git a/src/qdlib/OGridNabla.cpp b/src/qdlib/OGridNabla.cpp
index 99ed516..e2248f6 100644
--- a/src/qdlib/OGridNabla.cpp
+++ b/src/qdlib/OGridNabla.cpp
@@ -80,6 +80,9 @@ namespace QDLIB {
       ket = dynamic_cast<WFGridSystem*>(sourcePsi);
       opPsi = dynamic_cast<WFGridSystem*>(destPsi);
 
+      if (ket == NULL || opPsi == NULL)
+         throw ( EIncompatible("Psi is not of type WFGridSystem", sourcePsi->Name()) );
+
       double sgn = 1;
       if (_conj) sgn = -1; /* Switch sign for complex conjugate */
 
@@ -101,6 +104,9 @@ namespace QDLIB {
 
       opPsi = dynamic_cast<WFGridSystem*>(Psi);
 
+      if (opPsi == NULL)
+         throw ( EIncompatible("Psi is not of type WFGridSystem", Psi->Name()) );
+
       double sgn = 1;
       if (_conj) sgn = -1; /* Switch sign for complex conjugate */
 
diff --git a/src/qdlib/OHermitianMatrix.cpp b/src/qdlib/OHermitianMatrix.cpp
index a5aad92..c746f61 100644
--- a/src/qdlib/OHermitianMatrix.cpp
+++ b/src/qdlib/OHermitianMatrix.cpp
@@ -248,8 +248,12 @@ namespace QDLIB {
    void OHermitianMatrix::Apply(Operator *destOp, Operator *sourceOp)
    {
       dMat* dOp = dynamic_cast<dMat*>(destOp);
-      
-      MatrixMatrixMult( dOp, this, ( dynamic_cast<dMat*>(sourceOp) ) );      
+      dMat* sOp = dynamic_cast<dMat*>(sourceOp);
+
+      if (dOp == NULL || sOp == NULL)
+         throw ( EIncompatible("Operator is not a matrix", sourceOp->Name()) );
+
+      MatrixMatrixMult( dOp, this, sOp );
    }
 
    bool QDLIB::OHermitianMatrix::Valid(WaveFunction * Psi)
diff --git a/src/qdlib/OMultistate.cpp b/src/qdlib/OMultistate.cpp
index 77c993d..345b9e0 100644
--- a/src/qdlib/OMultistate.cpp
+++ b/src/qdlib/OMultistate.cpp
@@ -208,6 +208,10 @@ namespace QDLIB
       WFMultistate *psi, *dPsi;
       psi = dynamic_cast<WFMultistate*>(sourcePsi);
       dPsi = dynamic_cast<WFMultistate*>(destPsi);
+
+      if (psi == NULL || dPsi == NULL)
+         throw ( EIncompatible("Psi is not of type WFMultistate", sourcePsi->Name()) );
+
       
       _buf1->Reaquire();
 
@@ -246,6 +250,10 @@ namespace QDLIB
       WFMultistate *psi, *dPsi;
       psi = dynamic_cast<WFMultistate*>(sourcePsi);
       dPsi = dynamic_cast<WFMultistate*>(destPsi);
+
+      if (psi == NULL || dPsi == NULL)
+         throw ( EIncompatible("Psi is not of type WFMultistate", sourcePsi->Name()) );
+
       _buf1->Reaquire();
 
       sourcePsi->SyncStrides();
diff --git a/src/qdlib/OPropagator.h b/src/qdlib/OPropagator.h
index f912b84..5d9130e 100644
--- a/src/qdlib/OPropagator.h
+++ b/src/qdlib/OPropagator.h
@@ -157,6 +157,8 @@ namespace QDLIB {
 	 {
 	   
 	    OPropagator *P = dynamic_cast<OPropagator*>(O);
+	    if (P == NULL)
+	       throw ( EIncompatible("Can't copy to propagator", O->Name()) );
 	    clock = P->clock;
 	    _c0 = P->_c0;
 	    forward = P->forward;
diff --git a/src/qdlib/TransformFFT.cpp b/src/qdlib/TransformFFT.cpp
index e8f42c6..0aca4da 100644
--- a/src/qdlib/TransformFFT.cpp
+++ b/src/qdlib/TransformFFT.cpp
@@ -51,6 +51,9 @@ namespace QDLIB
    void TransformFFT::Forward(WaveFunction *Psi, int dim)
    {
       WFGridSystem* psi=dynamic_cast<WFGridSystem*>(Psi);
+
+      if (!psi) throw( EIncompatible("FFT can't transform", Psi->Name()) );
+
       psi->fft().forward(dim);
       psi->IsKspace(true);
    }
@@ -58,6 +61,9 @@ namespace QDLIB
    void TransformFFT::Backward(WaveFunction *Psi, int dim)
    {
       WFGridSystem* psi=dynamic_cast<WFGridSystem*>(Psi);
+
+      if (!psi) throw( EIncompatible("FFT can't transform", Psi->Name()) );
+
       psi->fft().backward(dim);
       psi->IsKspace(false);
    }
diff --git a/src/qdlib/TransformMSD.cpp b/src/qdlib/TransformMSD.cpp
index 7af408a..1bd2cde 100644
--- a/src/qdlib/TransformMSD.cpp
+++ b/src/qdlib/TransformMSD.cpp
@@ -32,7 +32,10 @@ void QDLIB::TransformMSD::Forward(WaveFunction * Psi)
 {
    WFMultistate *wfm = dynamic_cast<WFMultistate*>(Psi);
    int states;
-   
+
+   if (wfm == NULL)
+      throw( EIncompatible("MSD can't transform", Psi->Name()) );
+
    states = wfm->States();
    
    if (_T != NULL) { /* Use external transform */
@@ -68,7 +71,10 @@ void QDLIB::TransformMSD::Backward(WaveFunction * Psi)
 {
    WFMultistate *wfm = dynamic_cast<WFMultistate*>(Psi);
    int states;
-   
+
+   if (wfm == NULL)
+      throw( EIncompatible("MSD can't transform", Psi->Name()) );
+
    states = wfm->States();
    
    if (_T != NULL) { /* Use external transform */
diff --git a/src/qdlib/WFGridCartesian.cpp b/src/qdlib/WFGridCartesian.cpp
index ddd6d37..7d2f73c 100644
--- a/src/qdlib/WFGridCartesian.cpp
+++ b/src/qdlib/WFGridCartesian.cpp
@@ -54,7 +54,12 @@ namespace QDLIB {
    WaveFunction * WFGridCartesian::operator =(WaveFunction * Psi)
    {
       /* WFGridSystem already knows what to copy */
-      *((WFGridSystem*) this) = dynamic_cast<WFGridSystem*> (Psi);
+      WFGridSystem* psi = dynamic_cast<WFGridSystem*> (Psi);
+
+      if (psi == NULL)
+         throw ( EIncompatible("WFGridCartesian: Can't assign", Psi->Name()) );
+
+      *((WFGridSystem*) this) = psi;
       
       return this;
    }
diff --git a/src/qdlib/WFGridSystem.cpp b/src/qdlib/WFGridSystem.cpp
index 9ebe87d..53fb997 100644
--- a/src/qdlib/WFGridSystem.cpp
+++ b/src/qdlib/WFGridSystem.cpp
@@ -125,6 +125,9 @@ namespace QDLIB {
    {
       WFGridSystem* psi = dynamic_cast<WFGridSystem*>(Psi);
 
+      if (psi == NULL)
+         throw ( EIncompatible("WFGridSystem: Can't restore from", Psi->Name()) );
+
       // Copy
       IsKspace(true);
       *((GridSystem*) this) = *((GridSystem*) psi);
diff --git a/src/qdlib/WFLevel.cpp b/src/qdlib/WFLevel.cpp
index 81d1b4d..0e4cafd 100644
--- a/src/qdlib/WFLevel.cpp
+++ b/src/qdlib/WFLevel.cpp
@@ -128,6 +128,9 @@ namespace QDLIB {
       /* Nothing to do here. Just copy the content */
       WFLevel* wf = dynamic_cast<WFLevel*>(Psi);
 
+      if (wf == NULL)
+         throw ( EIncompatible("WFLevel: Can't restore from", Psi->Name()) );
+
       newsize(wf->size());
       FastCopy(*wf);
    }
-- 
2.43.0


From 4e15bde5d065294ddef5de569521173711ded74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 40/73] fix: ODMultistate crashed if a diagonal element was
 missing

---
 src/qdlib/ODMultistate.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/qdlib/ODMultistate.cpp b/src/qdlib/ODMultistate.cpp
index 7321054..7ae38e0 100644
--- a/src/qdlib/ODMultistate.cpp
+++ b/src/qdlib/ODMultistate.cpp
@@ -125,6 +125,8 @@ namespace QDLIB
          if (_IsFullDiag){ /* Diagonal H*/
             for (int k = 0; k < States(); k++) {
                ODSpace *state = dynamic_cast<ODSpace*>(State(k,k));
+               if (state == NULL)
+                  throw ( EIncompatible ("ODMultistate needs a DSpace operator as matrix element") );
                _dspace->StrideCopy(*(state->Dspace()), 0,k);
             }
          }
@@ -146,6 +148,8 @@ namespace QDLIB
                for (int l = 0; l < States(); l++) {
                   if ( State(k,l) != NULL){
                      ODSpace *state = dynamic_cast<ODSpace*>(State(k,l));
+                     if (state == NULL)
+                        throw ( EIncompatible ("ODMultistate needs a DSpace operator as matrix element") );
                      (*(_X[i]))(k,l) = (*(state->Dspace()))[i];  /* get gridpoint */ 
                   } else
                      (*(_X[i]))(k,l) = 0;
@@ -162,6 +166,8 @@ namespace QDLIB
       } else if (_T != NULL) { /* Use external diagonalization, copy dspace */
          for (int s=0; s < States(); s++){
             ODSpace *state = dynamic_cast<ODSpace*>(State(s,s));
+            if (state == NULL)
+               throw ( EIncompatible ("ODMultistate needs a DSpace operator as matrix element") );
             _dspace->StrideCopy(*(state->Dspace()), 0, s);
          }
       }
@@ -176,6 +182,8 @@ namespace QDLIB
          cVec tmpe(_state_size);
          for (int s=0; s < States(); s++){
             ODSpace *state = dynamic_cast<ODSpace*>(State(s,s));
+            if (state == NULL)
+               throw ( EIncompatible ("ODMultistate needs a DSpace operator as matrix element") );
             state->InitExponential(&tmpe, c);
             if (!exp->StrideCopy(tmpe, 0, s))
                throw ( EIncompatible ("Stride Error"));
-- 
2.43.0


From f4d4ce54206fcb5562e86942bb9334352c37331a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 41/73] fix: WFBuffer, GSPO and GridGStokes used missing or
 unsuitable objects

---
 src/qdlib/OGSPO.cpp        |  6 +++++-
 src/qdlib/OGridGStokes.cpp | 10 ++++++++--
 src/qdlib/WFBuffer.cpp     | 15 ++++++++++++---
 3 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/qdlib/OGSPO.cpp b/src/qdlib/OGSPO.cpp
index 2fd0f6e..c6c1f52 100644
--- a/src/qdlib/OGSPO.cpp
+++ b/src/qdlib/OGSPO.cpp
@@ -68,6 +68,10 @@ namespace QDLIB
          H = new OSum();
       }
 
+      OSum* sum = dynamic_cast<OSum*>(H);
+      if (sum == NULL)
+         throw(EIncompatible("GSPO: Hamiltonian is not a sum", H->Name()));
+
       /* Grab and check operators from list */
       for (int i=0; i < OList::Size(); i++) {
          char base[2] = "A";
@@ -81,7 +85,7 @@ namespace QDLIB
 
          _ops[int(i)] = op;
          _spoLen++;
-         dynamic_cast<OSum*>(H)->Add(string(base), op);
+         sum->Add(string(base), op);
       }
 
       _spoLen = OList::Size();
diff --git a/src/qdlib/OGridGStokes.cpp b/src/qdlib/OGridGStokes.cpp
index fdbe564..64bebf4 100644
--- a/src/qdlib/OGridGStokes.cpp
+++ b/src/qdlib/OGridGStokes.cpp
@@ -228,14 +228,20 @@ namespace QDLIB
       /* Delta pB(q) dot q*/
       _exponent.newsize(GridSystem::Size());
       double* kq = _exponent.begin(0);
-      double* q = dynamic_cast<OGridSystem*>(Get(Dim()))->begin(0); /* Position Operator */
+      OGridSystem* qop = dynamic_cast<OGridSystem*>(Get(Dim())); /* Position Operator */
+      if (qop == NULL)
+         throw(EIncompatible("GridGStokes: position operator is not a grid operator"));
+      double* q = qop->begin(0);
       double* deltap = _Deltap.begin(0);
       for (int k=0; k < GridSystem::Size(); k++){
          kq[k] =  deltap[k] * q[k];
       }
 
       for (int i=1; i < Dim(); i++){
-         q = dynamic_cast<OGridSystem*>(Get(i+Dim()))->begin(0);  /* Position Operator */
+         qop = dynamic_cast<OGridSystem*>(Get(i+Dim()));  /* Position Operator */
+         if (qop == NULL)
+            throw(EIncompatible("GridGStokes: position operator is not a grid operator"));
+         q = qop->begin(0);
          deltap = _Deltap.begin(i);
          for (int k=0; k < GridSystem::Size(); k++){
             kq[k] += deltap[k] * q[k];
diff --git a/src/qdlib/WFBuffer.cpp b/src/qdlib/WFBuffer.cpp
index 26bdfe2..6c0933d 100644
--- a/src/qdlib/WFBuffer.cpp
+++ b/src/qdlib/WFBuffer.cpp
@@ -148,8 +148,13 @@ namespace QDLIB {
    void WFBuffer::_MoveToMem(size_t pos)
    {
       /* Initialize buffer position */
-      if (_buf[pos].Psi == NULL)
-         _buf[pos].Psi = _ValidEntry()->NewInstance();
+      if (_buf[pos].Psi == NULL){
+         WaveFunction* wf = _ValidEntry();
+         if (wf == NULL)
+            throw(EIncompatible("WFBuffer: no wave function in memory"));
+
+         _buf[pos].Psi = wf->NewInstance();
+      }
 
       ifstream file;
       file.open(_GetFileName(pos).c_str());
@@ -280,7 +285,11 @@ namespace QDLIB {
          }
 
          if (!_buf[pos].ondisk){ /* This might happen if we request a postion which haven't been written before */
-            _buf[pos].Psi = _ValidEntry()->NewInstance();
+            WaveFunction* wf = _ValidEntry();
+            if (wf == NULL)
+               throw(EIncompatible("WFBuffer: no wave function in memory"));
+
+            _buf[pos].Psi = wf->NewInstance();
          } else
             _MoveToMem(pos);
 
-- 
2.43.0


From 7c5f501a08c708499226d05f7d09a12dd16894f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:47 +0000
Subject: [PATCH 42/73] fix: the server crashed on writing laser fields
 (WRITE_OP with class Laser)

---
 src/qdlib/Laser.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qdlib/Laser.h b/src/qdlib/Laser.h
index 9cb6929..9eaf0fe 100644
--- a/src/qdlib/Laser.h
+++ b/src/qdlib/Laser.h
@@ -10,6 +10,7 @@
 #include "tools/QDClock.h"
 #include "fft/fft.h"
 #include "tools/FileSingle.h"
+#include "qdlib/Serializable.h"
 
 namespace QDLIB
 {
@@ -17,7 +18,7 @@ namespace QDLIB
    /**
     * Class which represents a laser field.
     */
-   class Laser : public dVec
+   class Laser : public dVec, public Serializiable
    {
       public:
          typedef FileSingle<Laser> FileLaser;
-- 
2.43.0


From dacd331a74cacb1fdfb17498f2879b3619651e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:47 +0000
Subject: [PATCH 43/73] fix: FileSingle took a stream given by the caller for
 its own

---
 src/tools/FileSingle.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tools/FileSingle.h b/src/tools/FileSingle.h
index 52fa652..c486c44 100644
--- a/src/tools/FileSingle.h
+++ b/src/tools/FileSingle.h
@@ -317,6 +317,8 @@ namespace QDLIB
           */
          void SetInputStream(istream& s)
          {
+            if (_our_in_stream) delete _sin;
+            _our_in_stream = false;
             _sin = &s;
          }
 
@@ -327,6 +329,8 @@ namespace QDLIB
           */
          void SetOutputStream(ostream& s)
          {
+            if (_our_out_stream) delete _sout;
+            _our_out_stream = false;
             _sout = &s;
          }
 
-- 
2.43.0


From d7ef6caf4d097ee2e7abd7efad1bc7852873da71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:52 +0000
Subject: [PATCH 44/73] fix: copying an operator lost the settings common to
 all operators

---
 src/qdlib/ODMultistate.cpp     |  2 ++
 src/qdlib/OGridKick.cpp        |  2 +-
 src/qdlib/OGridNAC.cpp         |  7 +++++-
 src/qdlib/OGridsystem.cpp      |  2 ++
 src/qdlib/OHermitianMatrix.cpp |  3 ++-
 src/qdlib/OList.cpp            |  4 ++-
 src/qdlib/OMultistate.cpp      | 46 +++++++++++++++++-----------------
 src/qdlib/ONormalize.h         |  4 +--
 src/qdlib/OProjection.cpp      |  3 ++-
 src/qdlib/OScalar.cpp          |  1 +
 src/qdlib/OSum.cpp             |  2 +-
 src/qdlib/Operator.h           | 12 +++++++++
 12 files changed, 57 insertions(+), 31 deletions(-)

diff --git a/src/qdlib/ODMultistate.cpp b/src/qdlib/ODMultistate.cpp
index 7ae38e0..bfd1d3b 100644
--- a/src/qdlib/ODMultistate.cpp
+++ b/src/qdlib/ODMultistate.cpp
@@ -97,8 +97,10 @@ namespace QDLIB
       _IsFullDiag = o->_IsFullDiag;
       /* Copy external transformations */ 
       if (o->_T != NULL) {
+         if (_T != NULL) delete[] _T;
          _T = new Transform*[States()];
          for (int i=0; i < States(); i++){
+            _T[i] = NULL;
             for (int j=0; j < States(); j++){
                ODSpace *od =  dynamic_cast<ODSpace*>(State(i,j));
                if (od != NULL)
diff --git a/src/qdlib/OGridKick.cpp b/src/qdlib/OGridKick.cpp
index 82fb545..445b485 100644
--- a/src/qdlib/OGridKick.cpp
+++ b/src/qdlib/OGridKick.cpp
@@ -125,7 +125,7 @@ namespace QDLIB {
       if (org == NULL)
          throw(EIncompatible("O is not of type OGridKick", O->Name()));
 
-      _params = org->_params;
+      _CopySettings(O);
       /* Copy parents */
       *((GridSystem*) this) = *((GridSystem*) org);
 
diff --git a/src/qdlib/OGridNAC.cpp b/src/qdlib/OGridNAC.cpp
index c7cfd72..94a8349 100644
--- a/src/qdlib/OGridNAC.cpp
+++ b/src/qdlib/OGridNAC.cpp
@@ -176,6 +176,7 @@ namespace QDLIB {
       if(o == NULL)
          throw (EIncompatible("Operator not of type OGridNAC", O->Name()) );
       
+      _CopySettings(O);
       *((GridSystem*) this) = *((GridSystem*) o);
       
       for (int i=0; i < Dim(); i++ ){
@@ -186,7 +187,11 @@ namespace QDLIB {
       _sign = o->_sign;
       _mass = o->_mass;
       
-      _buf = o->_buf->NewInstance();
+      if (o->_buf != NULL) {
+         DELETE_WF(_buf);
+         _buf = o->_buf->NewInstance();
+         _buf->Retire();
+      }
       return this;
    }
    
diff --git a/src/qdlib/OGridsystem.cpp b/src/qdlib/OGridsystem.cpp
index 70269cd..1696073 100644
--- a/src/qdlib/OGridsystem.cpp
+++ b/src/qdlib/OGridsystem.cpp
@@ -32,6 +32,8 @@ namespace QDLIB {
       if (o == NULL)
          throw ( EIncompatible("Copy OGridSystem <- ", O->Name()) );
 
+      _CopySettings(O);
+
       /* Copy vector */
       *((dVec*) this) = *((dVec*) o);
 
diff --git a/src/qdlib/OHermitianMatrix.cpp b/src/qdlib/OHermitianMatrix.cpp
index c746f61..35f1de3 100644
--- a/src/qdlib/OHermitianMatrix.cpp
+++ b/src/qdlib/OHermitianMatrix.cpp
@@ -203,9 +203,10 @@ namespace QDLIB {
          *_dspace = *(op->_dspace);
       }
 
-      _params =  op->Params();
+      _CopySettings(O);
 
       _valid = op->_valid;
+      _init = op->_init;
       return this;
    }
 
diff --git a/src/qdlib/OList.cpp b/src/qdlib/OList.cpp
index 3003f7e..4ac2ef4 100644
--- a/src/qdlib/OList.cpp
+++ b/src/qdlib/OList.cpp
@@ -188,6 +188,8 @@ namespace QDLIB {
       if (r == NULL)
          throw( EIncompatible ("Incompatible in Assignment", this->Name(), O->Name() ) );
       
+      _CopySettings(O);
+      _NamedEntries = r->_NamedEntries;
       _size = r->_size;
       
       for (int i=0; i < _size; i++){
@@ -195,7 +197,7 @@ namespace QDLIB {
          *(_O[i]) = r->_O[i];
       }
 
-      return r;
+      return this;
    }
    
    bool OList::Valid(WaveFunction * Psi)
diff --git a/src/qdlib/OMultistate.cpp b/src/qdlib/OMultistate.cpp
index 345b9e0..bf34dae 100644
--- a/src/qdlib/OMultistate.cpp
+++ b/src/qdlib/OMultistate.cpp
@@ -293,34 +293,34 @@ namespace QDLIB
       if (o == NULL)
 	 throw (EIncompatible("Multistate operator copy not possible", O->Name()));
       
+      if (o == this)
+         return this;
+
+      _CopySettings(O);
       _hermitian = o->_hermitian;
       _nstates = o->_nstates;
+      _unity = o->_unity;
+      _subinit = o->_subinit;
 
-      _buf1 =  dynamic_cast<WFMultistate*>(o->_buf1->NewInstance());
-      _buf1->Retire();
+      if (o->_buf1 != NULL) {
+         _buf1 =  dynamic_cast<WFMultistate*>(o->_buf1->NewInstance());
+         _buf1->Retire();
+      }
 
-      _buf2 =  dynamic_cast<WFMultistate*>(o->_buf2->NewInstance());
-      _buf2->Retire();
+      if (o->_buf2 != NULL) {
+         _buf2 =  dynamic_cast<WFMultistate*>(o->_buf2->NewInstance());
+         _buf2->Retire();
+      }
 
-      
-      if (_hermitian){
-	 for(int i=0; i< _nstates; i++){
-	    for(int j=0; j<= i; j++){
-	       if (o->_matrix[i][j] != NULL){
-		  _matrix[i][j] = o->_matrix[i][j]->NewInstance();
-		  *(_matrix[i][j]) = o->_matrix[i][j];
-		  if (i !=j)
-		     _matrix[j][i] = _matrix[i][j];
-	       }
-	    }
-	 }
-      } else {
-	 for(int i=0; i< _nstates; i++){
-	    for(int j=0; j< _nstates; j++){
-	       if (o->_matrix[i][j] != NULL){
-		  _matrix[i][j] = o->_matrix[i][j]->NewInstance();
-		  *(_matrix[i][j]) = o->_matrix[i][j];
-	       }
+      for(int i=0; i< _nstates; i++){
+	 for(int j=0; j< _nstates; j++){
+	    if (o->_matrix[i][j] == NULL)
+	       _matrix[i][j] = NULL;
+	    else if (j < i && o->_matrix[i][j] == o->_matrix[j][i]) /* shared by symmetry */
+	       _matrix[i][j] = _matrix[j][i];
+	    else {
+	       _matrix[i][j] = o->_matrix[i][j]->NewInstance();
+	       *(_matrix[i][j]) = o->_matrix[i][j];
 	    }
 	 }
       }
diff --git a/src/qdlib/ONormalize.h b/src/qdlib/ONormalize.h
index 527bb6c..2925203 100644
--- a/src/qdlib/ONormalize.h
+++ b/src/qdlib/ONormalize.h
@@ -49,8 +49,8 @@ namespace QDLIB
 
          virtual void Apply(WaveFunction *Psi) { Psi->Normalize(); }
 
-         virtual Operator* operator=(Operator* O) { return this; }
-         virtual Operator* Copy(QDLIB::Operator*) { return this; }
+         virtual Operator* operator=(Operator* O) { return Copy(O); }
+         virtual Operator* Copy(QDLIB::Operator* O) { _CopySettings(O); return this; }
 
          virtual bool Valid(WaveFunction *Psi) { return true; }
    };
diff --git a/src/qdlib/OProjection.cpp b/src/qdlib/OProjection.cpp
index d1919d2..a0c1c1c 100644
--- a/src/qdlib/OProjection.cpp
+++ b/src/qdlib/OProjection.cpp
@@ -109,7 +109,8 @@ namespace QDLIB {
       _destroy();
       Clear();
 
-      _params = o->_params;
+      _CopySettings(O);
+      AutoLock(o->AutoLock());
       _inv = o->_inv;
       _sign = o->_sign; 
 
diff --git a/src/qdlib/OScalar.cpp b/src/qdlib/OScalar.cpp
index 927569e..785e6b6 100644
--- a/src/qdlib/OScalar.cpp
+++ b/src/qdlib/OScalar.cpp
@@ -71,6 +71,7 @@ namespace QDLIB {
       if (o == NULL)
          throw ( EIncompatible("Not of type scalar", O->Name() ) );
       
+      _CopySettings(O);
       _value = o->_value;
       if (o->_buf != NULL)
          _buf = o->_buf->NewInstance();
diff --git a/src/qdlib/OSum.cpp b/src/qdlib/OSum.cpp
index f5fb223..e876de1 100644
--- a/src/qdlib/OSum.cpp
+++ b/src/qdlib/OSum.cpp
@@ -112,7 +112,7 @@ namespace QDLIB {
       
       OList::Copy(O);
       
-      return r;
+      return this;
    }
    
 } /* namespace QDLIB */
diff --git a/src/qdlib/Operator.h b/src/qdlib/Operator.h
index cbc89fd..6f4bdb8 100644
--- a/src/qdlib/Operator.h
+++ b/src/qdlib/Operator.h
@@ -88,6 +88,18 @@ namespace QDLIB {
 	        * Indicates that the operator is hermitian.
 	        */
 	       bool _hermitian;
+
+	       /**
+	        * Take over the settings which are common to all operators.
+	        */
+	       void _CopySettings(Operator *O)
+	       {
+	          _params = O->_params;
+	          _isTimedependent = O->_isTimedependent;
+	          clock = O->clock;
+	          _conj = O->_conj;
+	          _hermitian = O->_hermitian;
+	       }
       public:
           /**
           * Make class pure virtual
-- 
2.43.0


From 5f2f0bbd33107a3ece0a0ff199ad647bef85067b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:52 +0000
Subject: [PATCH 45/73] fix: Laser fields and their operators lost settings on
 copying

---
 src/qdlib/Laser.cpp       |  1 +
 src/qdlib/OGridDipole.cpp |  4 ++--
 src/qdlib/OGridRaman.cpp  |  5 ++---
 src/qdlib/OJump.cpp       | 12 ++++++++++++
 src/qdlib/OJump.h         |  2 ++
 src/qdlib/OLaser.cpp      | 18 ++++++++++++++++++
 src/qdlib/OLaser.h        |  1 +
 src/qdlib/OMatDipole.cpp  |  4 ++--
 8 files changed, 40 insertions(+), 7 deletions(-)

diff --git a/src/qdlib/Laser.cpp b/src/qdlib/Laser.cpp
index 0408110..a0b5c55 100644
--- a/src/qdlib/Laser.cpp
+++ b/src/qdlib/Laser.cpp
@@ -157,6 +157,7 @@ namespace QDLIB {
       _clock = laser._clock;
        _params = laser._params;
       _dt = laser._dt;
+      _scale = laser._scale;
       if (_spectrum != NULL){
          delete _spectrum;
          _spectrum = NULL;
diff --git a/src/qdlib/OGridDipole.cpp b/src/qdlib/OGridDipole.cpp
index 3eec97f..95c6c2c 100644
--- a/src/qdlib/OGridDipole.cpp
+++ b/src/qdlib/OGridDipole.cpp
@@ -71,8 +71,8 @@ namespace QDLIB {
       if (o == NULL)
 	 throw (EIncompatible("Error in assignment", Name(), O->Name() ));
 
-      SetLaser(*o->GetLaser());
-      clock = o->clock;
+      CopyLaser(o);
+      _init = o->_init;
 
       /* Copy parents */
       OGridPotential::Copy(O);
diff --git a/src/qdlib/OGridRaman.cpp b/src/qdlib/OGridRaman.cpp
index 6d92ed3..141cfd7 100644
--- a/src/qdlib/OGridRaman.cpp
+++ b/src/qdlib/OGridRaman.cpp
@@ -65,9 +65,8 @@ namespace QDLIB {
       if (o == NULL)
          throw (EIncompatible("Error in assignment", Name(), O->Name() ));
 
-      SetLaser(0, *o->GetLaser(0));
-      SetLaser(1, *o->GetLaser(1));
-      clock = o->clock;
+      CopyLaser(o);
+      _init = o->_init;
 
       /* Copy parents */
       OGridPotential::Copy(O);
diff --git a/src/qdlib/OJump.cpp b/src/qdlib/OJump.cpp
index 945d864..edbc887 100644
--- a/src/qdlib/OJump.cpp
+++ b/src/qdlib/OJump.cpp
@@ -45,6 +45,18 @@ namespace QDLIB {
         params.GetValue("max_pjump", _max_pjump);
     }
 
+    Operator* OJump::Copy(Operator *O)
+    {
+      OJump *o = dynamic_cast<OJump*>(O);
+
+      if (o == NULL)
+        throw EIncompatible("Incompatible in Assignment", Name(), O->Name());
+
+      _max_pjump = o->_max_pjump;
+
+      return OList::Copy(O);
+    }
+
     dcomplex OJump::MatrixElement(WaveFunction * PsiBra, WaveFunction * PsiKet)
     {
       throw EIncompatible("OJump::MatrixElement is not implemented");
diff --git a/src/qdlib/OJump.h b/src/qdlib/OJump.h
index 7df0ef1..1a6f16b 100644
--- a/src/qdlib/OJump.h
+++ b/src/qdlib/OJump.h
@@ -53,6 +53,8 @@ namespace QDLIB {
          virtual void Apply(WaveFunction *destPsi, WaveFunction *sourcePsi);
 
          virtual void Apply(WaveFunction *Psi);
+
+         virtual Operator* Copy(Operator *O);
    };
 
 }
diff --git a/src/qdlib/OLaser.cpp b/src/qdlib/OLaser.cpp
index 499f13d..6ac8fc9 100644
--- a/src/qdlib/OLaser.cpp
+++ b/src/qdlib/OLaser.cpp
@@ -200,11 +200,29 @@ namespace QDLIB {
       if (_Pol != NULL) delete[] _Pol;
       
       _laser = new Laser[num];
+      _Pol = NULL;
       if (_UsePol) _Pol = new dVec[num];
       
       _numlasers = num;
    }
 
+   /**
+    * Take over the laser fields and their setup from another operator.
+    */
+   void OLaser::CopyLaser(OLaser *o)
+   {
+      if (o == this) return;
+
+      UsePol(o->_UsePol);
+      NumLaser(o->_numlasers);
+
+      for (int i=0; i < _numlasers; i++){
+         SetLaser(i, o->_laser[i]);
+         if (_UsePol) SetPol(i, o->_Pol[i]);
+      }
+      _genParams = o->_genParams;
+   }
+
    /**
     * Set Laser (index=0).
     */
diff --git a/src/qdlib/OLaser.h b/src/qdlib/OLaser.h
index 29869d1..07adf07 100644
--- a/src/qdlib/OLaser.h
+++ b/src/qdlib/OLaser.h
@@ -30,6 +30,7 @@ namespace QDLIB {
       protected:
 	 void UsePol(bool use);
 	 void NumLaser(int num);
+	 void CopyLaser(OLaser *o);
 	 
       public:
 	 OLaser();
diff --git a/src/qdlib/OMatDipole.cpp b/src/qdlib/OMatDipole.cpp
index f73d754..dedd9ed 100644
--- a/src/qdlib/OMatDipole.cpp
+++ b/src/qdlib/OMatDipole.cpp
@@ -73,8 +73,8 @@ namespace QDLIB
       if (o == NULL)
          throw(EIncompatible("Error in assignment", Name(), O->Name()));
 
-      SetLaser(*o->GetLaser());
-      Operator::clock = o->clock;
+      CopyLaser(o);
+      _init = o->_init;
 
       /* Copy parents */
       OHermitianMatrix::Copy(O);
-- 
2.43.0


From e7a53b6430d8c4b44dd55cd146a9223a70485cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:52 +0000
Subject: [PATCH 46/73] fix: copies of propagators and GSPO lost settings or
 initialised state

---
 src/qdlib/OArnoldi.cpp | 27 +++++++++++++++++++++------
 src/qdlib/OGSPO.cpp    |  4 ++++
 src/qdlib/ORK4.cpp     | 11 ++++++++---
 src/qdlib/OSIL.cpp     | 34 ++++++++++++++++++++++++++--------
 4 files changed, 59 insertions(+), 17 deletions(-)

diff --git a/src/qdlib/OArnoldi.cpp b/src/qdlib/OArnoldi.cpp
index a39e7ff..bec645e 100644
--- a/src/qdlib/OArnoldi.cpp
+++ b/src/qdlib/OArnoldi.cpp
@@ -229,15 +229,30 @@ namespace QDLIB
       OPropagator::Copy(O);
 
       _maxorder = o->_maxorder;
+      _order = o->_order;
+      _conv = o->_conv;
 
-      InitBuffers();
-      buf0 = o->buf0->NewInstance();
-      buf1 = o->buf0->NewInstance();
+      if (o->H != NULL) {
+         H = o->H->NewInstance();
+         H->Copy(o->H);
+      }
+
+      /* Take over the initialized state */
+      if (o->buf0 != NULL) {
+         InitBuffers();
+         DELETE_WF(buf0);
+         DELETE_WF(buf1);
+         buf0 = o->buf0->NewInstance();
+         buf1 = o->buf0->NewInstance();
 
-      H = o->H->NewInstance();
-      H->Copy(o->H);
+         _Lzb.Init(buf0);
+         _Lzb.ResizeBuffer(_maxorder);
+         _Lzb.AutoLock(1);
+
+         buf0->Retire();
+         buf1->Retire();
+      }
 
-      OPropagator::Copy(o);
       return this;
    }
 
diff --git a/src/qdlib/OGSPO.cpp b/src/qdlib/OGSPO.cpp
index c6c1f52..5db7cea 100644
--- a/src/qdlib/OGSPO.cpp
+++ b/src/qdlib/OGSPO.cpp
@@ -158,9 +158,13 @@ namespace QDLIB
 
       _spoLen = o->_spoLen;
 
+      OSum *sum = new OSum();
+      H = sum;
+
       for (int i = 0; i < _spoLen; i++) {
          _ops[i] = dynamic_cast<ODSpace*>(o->_ops[i]->NewInstance());
          _ops[i]->Copy(o->_ops[i]);
+         sum->Add(string(1, 'A' + i), _ops[i]);
          _exp[i].newsize(o->_exp[i].size(), o->_exp[i].strides());
       }
       _laststep = -1;
diff --git a/src/qdlib/ORK4.cpp b/src/qdlib/ORK4.cpp
index cfe5372..9abdd6b 100644
--- a/src/qdlib/ORK4.cpp
+++ b/src/qdlib/ORK4.cpp
@@ -116,9 +116,14 @@ namespace QDLIB
 
       OPropagator::Copy(O);
 
-      for (int i=0; i < 5; i++){
-         DELETE_WF(_buf[i]);
-         _buf[i] = o->_buf[0]->NewInstance();
+      /* Take over the initialized state */
+      if (o->_buf[0] != NULL) {
+         H = Get("hamiltonian");
+
+         for (int i=0; i < 5; i++){
+            DELETE_WF(_buf[i]);
+            _buf[i] = o->_buf[0]->NewInstance();
+         }
       }
 
       return this;
diff --git a/src/qdlib/OSIL.cpp b/src/qdlib/OSIL.cpp
index 325e7e8..0cf00d0 100644
--- a/src/qdlib/OSIL.cpp
+++ b/src/qdlib/OSIL.cpp
@@ -214,14 +214,32 @@ namespace QDLIB {
         OPropagator::Copy(O);
 
         _order = o->_order;
-        
-        InitBuffers();
-        buf0 = o->buf0->NewInstance();
-        buf1 = o->buf0->NewInstance();
-        buf2 = o->buf0->NewInstance();
-        
-        H = o->H->NewInstance();
-        H->Copy(o->H);
+        _convorder = o->_convorder;
+        _err = o->_err;
+
+        if (o->H != NULL) {
+           H = o->H->NewInstance();
+           H->Copy(o->H);
+        }
+
+        /* Take over the initialized state */
+        if (o->buf0 != NULL) {
+           InitBuffers();
+           DELETE_WF(buf0);
+           DELETE_WF(buf1);
+           DELETE_WF(buf2);
+           buf0 = o->buf0->NewInstance();
+           buf1 = o->buf0->NewInstance();
+           buf2 = o->buf0->NewInstance();
+
+           _Lzb.Init(buf0);
+           _Lzb.ResizeBuffer(_order);
+           _Lzb.AutoLock(3);
+
+           buf0->Retire();
+           buf1->Retire();
+           buf2->Retire();
+        }
 
         return this;
     }
-- 
2.43.0


From ae6e0d0f33f2e2601ee4dc60f2c68d42e7c7f1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:52 +0000
Subject: [PATCH 47/73] fix: copies of Stokes, flux and GMat operators were
 incomplete

---
 src/qdlib/OFlux.cpp               | 10 +++++++++-
 src/qdlib/OGridGMat.cpp           | 33 ++++++++++++++++++++-----------
 src/qdlib/OGridStokes.cpp         |  6 +++++-
 src/qdlib/OGridStokesAlbrecht.cpp |  8 +++++---
 4 files changed, 40 insertions(+), 17 deletions(-)

diff --git a/src/qdlib/OFlux.cpp b/src/qdlib/OFlux.cpp
index 1f1d6d6..83df59b 100644
--- a/src/qdlib/OFlux.cpp
+++ b/src/qdlib/OFlux.cpp
@@ -89,7 +89,15 @@ namespace QDLIB {
       OList::Copy(O);
       
       DELETE_WF(_buf);
-      if (_buf != NULL) _buf = dynamic_cast<WFGridSystem*>(o->_buf->NewInstance());
+      DELETE_WF(_one);
+      _buf = NULL;
+      _one = NULL;
+      if (o->_buf != NULL) {
+         _buf = o->_buf->NewInstance();
+         _buf->Retire();
+         _one = o->_one->NewInstance();
+         *_one = o->_one;
+      }
       
       _indT = o->_indT;
       _indG = o->_indG;
diff --git a/src/qdlib/OGridGMat.cpp b/src/qdlib/OGridGMat.cpp
index 6a7bac5..63d85de 100644
--- a/src/qdlib/OGridGMat.cpp
+++ b/src/qdlib/OGridGMat.cpp
@@ -163,7 +163,7 @@ namespace QDLIB {
       for (i = 0; i < n; i++) {
          _wfbuf[i] = NULL;
          _Gmat[i] = new OGridPotential*[n];
-         for (uint j = 0; j <= i; j++) {
+         for (uint j = 0; j < n; j++) {
             _Gmat[i][j] = NULL;
          }
       }
@@ -411,34 +411,43 @@ namespace QDLIB {
       if (o == NULL)
 	 throw ( EIncompatible("Error in Assignment", Name(), O->Name()) );
       
+      if (_size > 0)
+         throw ( EIncompatible("GMatrix operator is already initialized", Name()) );
+
       /* Copy parents */
       *((GridSystem*) this) = *((GridSystem*) o);
-      _params = o->_params;
+      _CopySettings(O);
       _size = o->_size;
       
       _KinCoup = o->_KinCoup;
+      _ChainRule = o->_ChainRule;
       
-      if(_kspace == NULL) _kspace = new dVec[_size];
-      if (_Gmat == NULL) _Gmat = new OGridPotential**[_size];
+      if (_size == 0) return this;
+
+      _kspace = new dVec[_size];
+      _Gmat = new OGridPotential**[_size];
       _GmatC = o->_GmatC;
-      if (_wfbuf == NULL) _wfbuf = new WFGridSystem*[_size];
+      _src = o->_src;
+      _wfbuf = new WFGridSystem*[_size];
 
       for (int i=0; i < _size; i++){
 	 _kspace[i] = o->_kspace[i];
-	 _wfbuf[i] = dynamic_cast<WFGridSystem*>(o->_wfbuf[i]->NewInstance());
-	 buf = dynamic_cast<WFGridSystem*>(o->_wfbuf[i]->NewInstance());
+	 _wfbuf[i] = NULL;
 	 _Gmat[i] = new OGridPotential*[_size];
+	 for(int j=0; j < _size; j++)
+            _Gmat[i][j] = NULL;
 	 
 	 for(int j=0; j <= i; j++){
             if (o->_Gmat[i][j] != NULL){
-	       if (o->_GmatC(i,j) < 0) {
-                  _Gmat[i][j] = new OGridPotential();
-                  _Gmat[j][i] = _Gmat[i][j];
-                  *(_Gmat[i][j]) = *(o->_Gmat[i][j]);
-	       }
+               _Gmat[i][j] = new OGridPotential();
+               _Gmat[j][i] = _Gmat[i][j];
+               _Gmat[i][j]->Copy(o->_Gmat[i][j]);
             }
 	 }
       }
+
+      if (o->buf != NULL) Init(o->buf);
+
       return this;
    }
    
diff --git a/src/qdlib/OGridStokes.cpp b/src/qdlib/OGridStokes.cpp
index 2451787..b234d80 100644
--- a/src/qdlib/OGridStokes.cpp
+++ b/src/qdlib/OGridStokes.cpp
@@ -163,11 +163,15 @@ namespace QDLIB {
        _mass = o->_mass;
        _eta = o->_eta;
        _R = o->_R;
-       _buf = o->_buf->NewInstance();
+       _c = o->_c;
+       _x0 = o->_x0;
+       _slope = o->_slope;
        
        OGridNabla::Copy(O);
        OGridPosition::Copy(O);
        
+       if (o->_buf != NULL) Init(o->_buf);
+
        return this;
     }
     
diff --git a/src/qdlib/OGridStokesAlbrecht.cpp b/src/qdlib/OGridStokesAlbrecht.cpp
index 0b678a3..d90a628 100644
--- a/src/qdlib/OGridStokesAlbrecht.cpp
+++ b/src/qdlib/OGridStokesAlbrecht.cpp
@@ -103,11 +103,13 @@ namespace QDLIB
          throw (EIncompatible("Copy: not of type OGridStokesAlbrecht"));
 
       _eta = o->_eta;
-      _buf = o->_buf->NewInstance();
-      _psi = o->_psi->NewInstance();
-
       OList::Copy(O);
 
+      if (o->_buf != NULL) {
+         _buf = o->_buf->NewInstance();
+         _psi = o->_psi->NewInstance();
+      }
+
       return this;
    }
 
-- 
2.43.0


From d1b8d389bd542ec8f1fd0c8bc98c2fb5e77a6b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:52 +0000
Subject: [PATCH 48/73] fix: copies of differential operators were incomplete

---
 src/qdlib/Diff.cpp          | 28 ++++++++++++++++++++++++++++
 src/qdlib/Diff.h            |  2 ++
 src/qdlib/OGobbler.cpp      |  2 +-
 src/qdlib/OGridHOFD.cpp     |  6 ++++++
 src/qdlib/OGridNabla.cpp    |  8 +++-----
 src/qdlib/OGridNablaSq.cpp  |  7 +++----
 src/qdlib/OGridPML.cpp      |  7 +++++--
 src/qdlib/OGridPosition.cpp |  8 ++++++++
 8 files changed, 56 insertions(+), 12 deletions(-)

diff --git a/src/qdlib/Diff.cpp b/src/qdlib/Diff.cpp
index ee65f40..935f1bb 100644
--- a/src/qdlib/Diff.cpp
+++ b/src/qdlib/Diff.cpp
@@ -34,6 +34,34 @@ namespace QDLIB
       if (_hofd != NULL) delete _hofd;
    }
 
+   /** Copy the setup, the finite difference object is not shared. */
+   Diff& Diff::operator=(Diff &diff)
+   {
+      if (&diff == this) return *this;
+
+      _grid = diff._grid;
+      _deriv = diff._deriv;
+      _dim = diff._dim;
+      _mixed = diff._mixed;
+      _single = diff._single;
+      _coll = diff._coll;
+      _method = diff._method;
+      _pfac = diff._pfac;
+
+      if (_hofd != NULL) delete _hofd;
+      _hofd = NULL;
+      if (diff._hofd != NULL) _hofd = new cHOFD(*diff._hofd);
+
+      _kspace = diff._kspace;
+      for (int i=0; i < MAX_DIMS; i++){
+         _kspace1[i] = diff._kspace1[i];
+         for (int j=0; j < MAX_DIMS; j++)
+            _kspaceMix[i][j] = diff._kspaceMix[i][j];
+      }
+
+      return *this;
+   }
+
    void Diff::MultiplyKspace(cVec* data, int dim1, int dim2)
    {
 
diff --git a/src/qdlib/Diff.h b/src/qdlib/Diff.h
index b3cd464..26c07ba 100644
--- a/src/qdlib/Diff.h
+++ b/src/qdlib/Diff.h
@@ -61,6 +61,8 @@ namespace QDLIB
          Diff(int derivative, bool mixed = false);
          virtual ~Diff();
 
+         Diff& operator=(Diff &diff);
+
          Transform* GetTransform();
 
          void InitParams(ParamContainer pm);
diff --git a/src/qdlib/OGobbler.cpp b/src/qdlib/OGobbler.cpp
index 7abad9c..37b3adc 100644
--- a/src/qdlib/OGobbler.cpp
+++ b/src/qdlib/OGobbler.cpp
@@ -232,7 +232,7 @@ namespace QDLIB {
       _gain = o->_gain;
 	    
       
-      for (int i=0; i < Dim(); i++){
+      for (int i=0; i < MAX_DIMS; i++){
 	 _lp[i] = o->_lp[i];
 	 _lpx[i] = o->_lpx[i];
 	 _rp[i] = o->_rp[i];
diff --git a/src/qdlib/OGridHOFD.cpp b/src/qdlib/OGridHOFD.cpp
index dcaf1c6..132b0e6 100644
--- a/src/qdlib/OGridHOFD.cpp
+++ b/src/qdlib/OGridHOFD.cpp
@@ -142,6 +142,12 @@ namespace QDLIB {
       _deriv = o->_deriv;
       _order = o->_order;
       _dim = o->_dim;
+      _pfac = o->_pfac;
+      _mass = o->_mass;
+
+      if (_hofd != NULL) delete _hofd;
+      _hofd = NULL;
+      if (o->_hofd != NULL) _hofd = new cHOFD(*(o->_hofd));
 
       OGridSystem::Copy(O);
 
diff --git a/src/qdlib/OGridNabla.cpp b/src/qdlib/OGridNabla.cpp
index e2248f6..8e1f3f7 100644
--- a/src/qdlib/OGridNabla.cpp
+++ b/src/qdlib/OGridNabla.cpp
@@ -132,16 +132,14 @@ namespace QDLIB {
       if (o == NULL)
          throw ( EIncompatible("Operator not of type GridNabla", O->Name()) );
 
-      _params = o->_params;
+      _CopySettings(O);
       _fac = o->_fac;
       _momentum = o->_momentum;
+      _dim = o->_dim;
 
       *((GridSystem*) this) = *((GridSystem*) o);
 
-      if (_kspace == NULL)
-         _kspace = new dVec(GridSystem::Size(), true);
-
-      *_kspace = *(o->_kspace);
+      if (o->_kspace != NULL) _InitDspaceReal();
 
       return this;
    }
diff --git a/src/qdlib/OGridNablaSq.cpp b/src/qdlib/OGridNablaSq.cpp
index 2a22f95..a89c9de 100644
--- a/src/qdlib/OGridNablaSq.cpp
+++ b/src/qdlib/OGridNablaSq.cpp
@@ -123,18 +123,17 @@ namespace QDLIB
       if (org == NULL)
          throw(EIncompatible("O is not of type OGridNablaSq", O->Name()));
 
-      _params = org->_params;
+      _CopySettings(O);
       /* Copy parents */
       *((GridSystem*) this) = *((GridSystem*) org);
+      *((Diff*) this) = *((Diff*) org);
 
       if (_dspace == NULL && org->_dspace != NULL) {
          _dspace = new dVec();
          *_dspace = *(org->_dspace);
       }
 
-      for (int i = 0; i < GridSystem::Dim(); i++) {
-         _mass[i] = org->_mass[i];
-      }
+      _mass = org->_mass;
 
       return this;
    }
diff --git a/src/qdlib/OGridPML.cpp b/src/qdlib/OGridPML.cpp
index 73e27f7..306cd83 100644
--- a/src/qdlib/OGridPML.cpp
+++ b/src/qdlib/OGridPML.cpp
@@ -141,9 +141,12 @@ namespace QDLIB
 
       _buf1 = NULL;
       _buf2 = NULL;
-      _params = o->_params;
+      _CopySettings(O);
       _mass = o->_mass;
-      Init(o->_buf1);
+      *((GridSystem*) this) = *((GridSystem*) o);
+      *((Diff*) this) = *((Diff*) o);
+
+      if (o->_buf1 != NULL) Init(o->_buf1);
 
       return this;
    }
diff --git a/src/qdlib/OGridPosition.cpp b/src/qdlib/OGridPosition.cpp
index f8c630b..4743147 100644
--- a/src/qdlib/OGridPosition.cpp
+++ b/src/qdlib/OGridPosition.cpp
@@ -112,6 +112,14 @@ namespace QDLIB {
 
    Operator * OGridPosition::Copy(Operator * O)
    {
+      OGridPosition *o = dynamic_cast<OGridPosition*>(O);
+
+      if (o == NULL)
+         throw ( EIncompatible("Operator not of type OGridPosition", O->Name()) );
+
+      _dim = o->_dim;
+      _scale = o->_scale;
+
       OGridSystem::Copy(O);
       return this;
    }
-- 
2.43.0


From 1c830b050676f25750ec215aa1728741d8fe79b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:27 +0000
Subject: [PATCH 49/73] fix: a failure to write the energy file or spectrum was
 taken for success

---
 src/ProgEigen.cpp | 1 +
 src/Reporter.cpp  | 5 ++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ProgEigen.cpp b/src/ProgEigen.cpp
index a0bf7b4..7d459df 100644
--- a/src/ProgEigen.cpp
+++ b/src/ProgEigen.cpp
@@ -86,6 +86,7 @@ namespace QDLIB
 	 if (enfile.fail()) throw (EIOError("Can not write file", sn));
       } catch (...){
 	 log.cout() << "!!! Can't write energy file\n\n";
+	 throw;
       }
    }
 
diff --git a/src/Reporter.cpp b/src/Reporter.cpp
index 3402c8e..678efb3 100644
--- a/src/Reporter.cpp
+++ b/src/Reporter.cpp
@@ -193,7 +193,10 @@ namespace QDLIB
 
        log.cout() << "Autocorellation power spectrum written to file: " << name.c_str() << endl << endl;
       }  catch (...)
-      {log.cout() << "!!! Can't write auto correlation spectrum\n\n";}
+      {
+         log.cout() << "!!! Can't write auto correlation spectrum\n\n";
+         throw;
+      }
    }
    
 
-- 
2.43.0


From eab1b3714220f7a61878d0651f1ed56ab631cfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:01 +0000
Subject: [PATCH 50/73] fix: server commands used missing operators and wave
 functions and left failed commands unanswered

---
 src/CmdHandler.cpp | 140 ++++++++++++++++++++++++++++-----------------
 src/CmdHandler.h   |   1 +
 2 files changed, 87 insertions(+), 54 deletions(-)

diff --git a/src/CmdHandler.cpp b/src/CmdHandler.cpp
index 245a76b..16c161a 100644
--- a/src/CmdHandler.cpp
+++ b/src/CmdHandler.cpp
@@ -64,6 +64,8 @@ namespace QDLIB
 
    void CmdHandler::send_error_message(const string& msg)
    {
+      error_sent_ = true;
+
       Response resp;
       resp.set_response(Response_response_t_ERROR_MSG);
       resp.set_msg(msg);
@@ -242,7 +244,7 @@ namespace QDLIB
    /**
     * Initialize interactive mode with given I/O streams to exchange commands.
     */
-   CmdHandler::CmdHandler(istream& in, ostream& out) : fifo_(NULL), sin_(&in), sout_(&out)
+   CmdHandler::CmdHandler(istream& in, ostream& out) : buffer(NULL), fifo_(NULL), sin_(&in), sout_(&out), error_sent_(false)
    {
       // this is a dummy, make sure fft handler is up early.
       // fixes the problem of segfaults in the destruction process.
@@ -253,7 +255,7 @@ namespace QDLIB
    /**
     * Initialize interactive mdoe with base name for FIFO file.
     */
-   CmdHandler::CmdHandler(const string& file) : buffer(NULL)
+   CmdHandler::CmdHandler(const string& file) : buffer(NULL), fifo_(NULL), sin_(NULL), sout_(NULL), error_sent_(false)
    {
       // this is a dummy, make sure fft handler is up early.
       // fixes the problem of segfaults in the destruction process.
@@ -265,7 +267,7 @@ namespace QDLIB
       sout_ = fifo_->GetSendStream();
    }
 
-   CmdHandler::CmdHandler() : buffer(NULL), fifo_(NULL), sin_(NULL), sout_(NULL)
+   CmdHandler::CmdHandler() : buffer(NULL), fifo_(NULL), sin_(NULL), sout_(NULL), error_sent_(false)
    {
       // this is a dummy, make sure fft handler is up early.
       // fixes the problem of segfaults in the destruction process.
@@ -384,6 +386,7 @@ namespace QDLIB
       file.Name(cmd.param_s1());
 
       WaveFunction* wf = get_wf(file);
+      if (wf == NULL) return;
 
       // Write to stream
       file.Compress(false);
@@ -576,6 +579,7 @@ namespace QDLIB
 
       if (!cmd.has_param_s1()){
          send_error_message("SET_GLOBAL_PARAMS is missing key/values");
+         return;
       }
 
       ParamContainer pm;
@@ -598,7 +602,9 @@ namespace QDLIB
       gp.Write(s, false);
 
       Response resp;
+      resp.set_response(Response_response_t_OK);
       resp.set_msg(s);
+      resp.set_data_follows(false);
 
       send_response(resp);
    }
@@ -615,24 +621,32 @@ namespace QDLIB
 
    void CmdHandler::cmd_load_op(Command& cmd)
    {
-      if (!cmd.has_xml())
+      if (!cmd.has_xml()) {
          send_error_message("LOAD_OP is missing a XML operator definition");
+         return;
+      }
 
-      get_operator_from_command(cmd);
+      if (get_operator_from_command(cmd) == NULL) return;
 
       send_OK(false);
    }
 
    void CmdHandler::cmd_load_U(Command& cmd)
    {
-      if (!cmd.has_xml())
+      if (!cmd.has_xml()) {
          send_error_message("LOAD_U is missing a XML operator definition");
+         return;
+      }
 
-      if (!cmd.has_param_d1())
+      if (!cmd.has_param_d1()) {
          send_error_message("LOAD_U is missing a time step");
+         return;
+      }
 
-      if (!cmd.has_param_d2())
+      if (!cmd.has_param_d2()) {
          send_error_message("LOAD_U is missing  Nt");
+         return;
+      }
 
       try {
           XmlParser XMLfile;
@@ -663,6 +677,7 @@ namespace QDLIB
    {
       // Load Operator
       Operator* Op = get_operator_from_command(cmd);
+      if (Op == NULL) return;
 
       // Chose time step
       if (cmd.has_param_d1()){
@@ -690,6 +705,7 @@ namespace QDLIB
       file.SetInputStream(*sin_);
 
       WaveFunction* wf = get_wf(file);
+      if (wf == NULL) return;
 
       // Send Response
       try {
@@ -715,13 +731,17 @@ namespace QDLIB
    {
       // Load Operator
       Operator* Op = get_operator_from_command(cmd);
+      if (Op == NULL) return;
 
       // Get bra and ket
       FileWF file;
       file.SetInputStream(*sin_);
 
       WaveFunction* bra = get_wf(file);
+      if (bra == NULL) return;
+
       WaveFunction* ket = get_wf(file);
+      if (ket == NULL) return;
 
       // Send Response
       try {
@@ -740,6 +760,7 @@ namespace QDLIB
 
       Response resp;
       resp.set_response(Response_response_t_OK);
+      resp.set_data_follows(false);
       resp.add_result(res.real());
       resp.add_result(res.imag());
       send_response(resp);
@@ -752,6 +773,7 @@ namespace QDLIB
    {
       // Load Operator
       Operator* Op = get_operator_from_command(cmd);
+      if (Op == NULL) return;
 
       send_OK(false);
 
@@ -760,6 +782,7 @@ namespace QDLIB
       file.SetInputStream(*sin_);
 
       WaveFunction* bk = get_wf(file);
+      if (bk == NULL) return;
 
       // Send Response
       try {
@@ -770,11 +793,13 @@ namespace QDLIB
          }
       } catch (Exception& e) {
          send_error_message(e.GetMessage());
+         throw(e);
       }
 
       double res = Op->Expec(bk);
       Response resp;
       resp.set_response(Response_response_t_OK);
+      resp.set_data_follows(false);
       resp.add_result(res);
       send_response(resp);
    }
@@ -814,53 +839,60 @@ namespace QDLIB
 
          delete[] buffer; buffer = NULL;
 
-         switch (cmd.cmd()){
-            case Command_command_t_RUN_PROG:
-               cmd_run_prog(cmd, dir);
-               break;
-            case Command_command_t_READ_WF:
-               cmd_read_wf(cmd);
-               break;
-            case Command_command_t_WRITE_WF:
-               cmd_write_wf(cmd);
-               break;
-            case Command_command_t_GET_GLOBAL_PARAMS:
-               cmd_get_global_params(cmd);
-               break;
-            case Command_command_t_SET_GLOBAL_PARAMS:
-               cmd_set_global_params(cmd);
-               break;
-            case Command_command_t_CLEAR_OBJECTS:
-               cmd_clear_objects();
-               break;
-            case Command_command_t_LOAD_OP:
-               cmd_load_op(cmd);
+         error_sent_ = false;
+
+         try {
+            switch (cmd.cmd()){
+               case Command_command_t_RUN_PROG:
+                  cmd_run_prog(cmd, dir);
+                  break;
+               case Command_command_t_READ_WF:
+                  cmd_read_wf(cmd);
+                  break;
+               case Command_command_t_WRITE_WF:
+                  cmd_write_wf(cmd);
+                  break;
+               case Command_command_t_GET_GLOBAL_PARAMS:
+                  cmd_get_global_params(cmd);
+                  break;
+               case Command_command_t_SET_GLOBAL_PARAMS:
+                  cmd_set_global_params(cmd);
+                  break;
+               case Command_command_t_CLEAR_OBJECTS:
+                  cmd_clear_objects();
+                  break;
+               case Command_command_t_LOAD_OP:
+                  cmd_load_op(cmd);
+                  break;
+               case Command_command_t_LOAD_U:
+                  cmd_load_U(cmd);
+                  break;
+               case Command_command_t_READ_OP:
+                  cmd_read_op(cmd);
+                  break;
+               case Command_command_t_WRITE_OP:
+                  cmd_write_op(cmd);
+                  break;
+               case Command_command_t_QUIT:
+                  log.coutdbg() << "Received QUIT" << endl;
+                  log.flush();
+                  break;
+               case Command_command_t_GET_EXPEC:
+                  cmd_get_expec(cmd);
+                  break;
+               case Command_command_t_GET_MATEL:
+                  cmd_get_matel(cmd);
+                  break;
+               case Command_command_t_APPLY_OP:
+                  cmd_apply_op(cmd);
+                  break;
+               default:
+                  throw(EParamProblem("Unknown command code: ", cmd.cmd()));
                break;
-            case Command_command_t_LOAD_U:
-               cmd_load_U(cmd);
-               break;
-            case Command_command_t_READ_OP:
-               cmd_read_op(cmd);
-               break;
-            case Command_command_t_WRITE_OP:
-               cmd_write_op(cmd);
-               break;
-            case Command_command_t_QUIT:
-               log.coutdbg() << "Received QUIT" << endl;
-               log.flush();
-               break;
-            case Command_command_t_GET_EXPEC:
-               cmd_get_expec(cmd);
-               break;
-            case Command_command_t_GET_MATEL:
-               cmd_get_matel(cmd);
-               break;
-            case Command_command_t_APPLY_OP:
-               cmd_apply_op(cmd);
-               break;
-            default:
-               throw(EParamProblem("Unknown command code: ", cmd.cmd()));
-            break;
+            }
+         } catch (Exception& e) {
+            if (!error_sent_) send_error_message(e.GetMessage());
+            throw;
          }
 
          log.cout() << "completed\n";
diff --git a/src/CmdHandler.h b/src/CmdHandler.h
index f634308..dc2c7f3 100644
--- a/src/CmdHandler.h
+++ b/src/CmdHandler.h
@@ -37,6 +37,7 @@ namespace QDLIB
          FIFO* fifo_;
          istream* sin_;
          ostream* sout_;
+         bool error_sent_; /* The current command has been answered with an error */
 
          void SendBinary();
          void RecvBinary();
-- 
2.43.0


From e88d67d4d4c1bd0b8fc1c56443571021afc4cdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:34 +0000
Subject: [PATCH 51/73] fix: text that is not a number left parameters and
 options unset

---
 src/tools/Getopt.cpp         | 19 ++++++++++---------
 src/tools/Memory.cpp         |  3 ++-
 src/tools/ParamContainer.cpp | 31 +++++++++++++++++++++++--------
 3 files changed, 35 insertions(+), 18 deletions(-)

diff --git a/src/tools/Getopt.cpp b/src/tools/Getopt.cpp
index df1d0bc..d3a1246 100644
--- a/src/tools/Getopt.cpp
+++ b/src/tools/Getopt.cpp
@@ -11,6 +11,7 @@
 #endif
 
 #include "Getopt.h"
+#include "Exception.h"
 #include <unistd.h>
 
 namespace QDLIB {
@@ -18,7 +19,7 @@ namespace QDLIB {
    /**
    * Constructor.
    */
-   Getopt::Getopt()
+   Getopt::Getopt() : _argc(0), _argv(NULL)
    {
       SetHelp('h', "Show this help");
    }
@@ -229,10 +230,10 @@ namespace QDLIB {
    */
    void Getopt::GetOption(char letter, int &value)
    {
-      if (!value_map[letter].empty())
-	 sscanf( value_map[letter].c_str(), "%d", &value);
-      else 
-	 sscanf( default_map[letter].c_str(), "%d", &value);
+      const string& text = value_map[letter].empty() ? default_map[letter] : value_map[letter];
+
+      if (sscanf( text.c_str(), "%d", &value) != 1)
+         throw( EParamProblem ("Command line option is not a number", string(1, letter)) );
    }
    
    /**
@@ -242,10 +243,10 @@ namespace QDLIB {
    */
    void Getopt::GetOption(char letter, double &value)
    {
-      if (!value_map[letter].empty())
-	 sscanf( value_map[letter].c_str(), "%lf", &value);
-      else
-	 sscanf( default_map[letter].c_str(), "%lf", &value);
+      const string& text = value_map[letter].empty() ? default_map[letter] : value_map[letter];
+
+      if (sscanf( text.c_str(), "%lf", &value) != 1)
+         throw( EParamProblem ("Command line option is not a number", string(1, letter)) );
    }
    
    /**
diff --git a/src/tools/Memory.cpp b/src/tools/Memory.cpp
index 6a5f8e2..aab43d0 100644
--- a/src/tools/Memory.cpp
+++ b/src/tools/Memory.cpp
@@ -153,7 +153,8 @@ namespace QDLIB
 
        /* Convert to number */
        size_t result;
-       sscanf(s.c_str(), "%lu", (size_t*) &result);
+       if (sscanf(s.c_str(), "%lu", (size_t*) &result) != 1)
+          throw( EParamProblem ("Wrong format for memory type number") );
        result *= factor;
 
        return result;
diff --git a/src/tools/ParamContainer.cpp b/src/tools/ParamContainer.cpp
index b766ba3..1d18f6b 100644
--- a/src/tools/ParamContainer.cpp
+++ b/src/tools/ParamContainer.cpp
@@ -149,7 +149,10 @@ namespace QDLIB {
    bool ParamContainer::GetValue(const string name, int &value)
    {
       if ( _param_map.find(name) != _param_map.end()){
-         sscanf( _param_map[name].c_str(), "%d", &value);
+         if (sscanf( _param_map[name].c_str(), "%d", &value) != 1) {
+            value = 0; /* Not a number */
+            return false;
+         }
          return true;
       }
       else {
@@ -167,7 +170,10 @@ namespace QDLIB {
    bool ParamContainer::GetValue(const string name, unsigned int &value)
    {
       if ( _param_map.find(name) != _param_map.end()){
-         sscanf( _param_map[name].c_str(), "%u", &value);
+         if (sscanf( _param_map[name].c_str(), "%u", &value) != 1) {
+            value = 0; /* Not a number */
+            return false;
+         }
          return true;
       }
       else {
@@ -186,7 +192,10 @@ namespace QDLIB {
    bool ParamContainer::GetValue(const string name, long int &value)
    {
       if ( _param_map.find(name) != _param_map.end()){
-         sscanf( _param_map[name].c_str(), "%ld", &value);
+         if (sscanf( _param_map[name].c_str(), "%ld", &value) != 1) {
+            value = 0; /* Not a number */
+            return false;
+         }
          return true;
       }
       else {
@@ -204,7 +213,10 @@ namespace QDLIB {
    bool ParamContainer::GetValue(const string name, size_t &value)
    {
       if ( _param_map.find(name) != _param_map.end()){
-         sscanf( _param_map[name].c_str(), "%lu", &value);
+         if (sscanf( _param_map[name].c_str(), "%lu", &value) != 1) {
+            value = 0; /* Not a number */
+            return false;
+         }
          return true;
       }
       else {
@@ -223,7 +235,10 @@ namespace QDLIB {
    bool ParamContainer::GetValue(const string name, double &value)
    {
       if ( _param_map.find(name) != _param_map.end()){
-         sscanf( _param_map[name].c_str(), "%lf", &value);
+         if (sscanf( _param_map[name].c_str(), "%lf", &value) != 1) {
+            value = 0; /* Not a number */
+            return false;
+         }
          return true;
       }
       else {
@@ -285,7 +300,7 @@ namespace QDLIB {
       split(buf, vbuf);
 
       for (size_t i=0; i < vbuf.size(); i++){
-         double value;
+         double value = 0;
          sscanf( vbuf[i].c_str(), "%lf", &value);
          array.push_back(value);
       }
@@ -307,7 +322,7 @@ namespace QDLIB {
       split(buf, vbuf);
 
       for (size_t i=0; i < vbuf.size(); i++){
-         int value;
+         int value = 0;
          sscanf( vbuf[i].c_str(), "%d", &value);
          array.push_back(value);
       }
@@ -329,7 +344,7 @@ namespace QDLIB {
       split(buf, vbuf);
 
       for (size_t i=0; i < vbuf.size(); i++){
-         unsigned int value;
+         unsigned int value = 0;
          sscanf( vbuf[i].c_str(), "%u", &value);
          array.push_back(value);
       }
-- 
2.43.0


From ea548c41e95cb226ae9a1f944b451759dc9adf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:34 +0000
Subject: [PATCH 52/73] fix: members and locals were used without having been
 set

---
 src/ProgCfun.cpp          | 2 +-
 src/ProgEigen.cpp         | 7 ++++---
 src/ProgOCT.cpp           | 6 +++---
 src/math/VectorView.h     | 2 +-
 src/qdlib/FileWF.cpp      | 2 +-
 src/qdlib/GridSystem.cpp  | 4 ++--
 src/qdlib/Laser.cpp       | 2 +-
 src/qdlib/OGobbler.cpp    | 2 +-
 src/qdlib/OGridStokes.cpp | 2 +-
 src/tools/XmlNode.cpp     | 2 +-
 src/tools/ZCopyStream.cpp | 2 +-
 11 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/ProgCfun.cpp b/src/ProgCfun.cpp
index 64fb9da..9e155dc 100644
--- a/src/ProgCfun.cpp
+++ b/src/ProgCfun.cpp
@@ -22,7 +22,7 @@ namespace QDLIB
 
   ProgCfun::ProgCfun (XmlNode& CfunNode) :
       CfunNode_(CfunNode), ContentNodes_(NULL), dir_(""), fname_(QD_CFUN_FNAME),
-      stepsint_(0), U_(NULL), H_(NULL), ket_first_op_(0), bra_first_op_(0), num_u_(0), wcycle_(1)
+      stepsint_(0), U_(NULL), H_(NULL), Psi0(NULL), ket_first_op_(0), bra_first_op_(0), num_u_(0), wcycle_(1)
   {
   }
 
diff --git a/src/ProgEigen.cpp b/src/ProgEigen.cpp
index 7d459df..1dbf454 100644
--- a/src/ProgEigen.cpp
+++ b/src/ProgEigen.cpp
@@ -28,12 +28,13 @@
 namespace QDLIB
 {
 
-   ProgEigen::ProgEigen(XmlNode &EigenNode) : _EigenNode(EigenNode),
+   ProgEigen::ProgEigen(XmlNode &EigenNode) : _EigenNode(EigenNode), _ContentNodes(NULL),
                             _U(NULL), _H(NULL), _method(imag), _Nef(DEFAULT_NUMBER_EFS),
 			    _convergence(DEFAULT_CONVERGENCE_EF_RAW),
 			    _MaxSteps(DEFAULT_MAXSTEPS),
-                                      _fname(DEFAULT_EF_BASE_NAME), _ename(DEFAULT_EF_ENERGY_NAME), _spectrum(DEFAULT_EF_SPECTRUM_NAME),
-                                      _diag(true), _start(0), _tol(1), _width(-1), _win(true)
+                                      _fname(DEFAULT_EF_BASE_NAME), _ename(DEFAULT_EF_ENERGY_NAME), _spectrum(DEFAULT_EF_SPECTRUM_NAME), _dt(0),
+                                      _diag(true), _start(0), _tol(1), _width(-1), _win(true),
+                                      _PsiInitial(NULL)
    {
       _P = new OProjection();
    }
diff --git a/src/ProgOCT.cpp b/src/ProgOCT.cpp
index f7acbab..3dc3cba 100644
--- a/src/ProgOCT.cpp
+++ b/src/ProgOCT.cpp
@@ -19,9 +19,9 @@ namespace QDLIB
 
    ProgOCT::ProgOCT(XmlNode &OCTNode) :
       _octNode(OCTNode), _ContentNodes(NULL), _fname(DEFAULT_BASENAME_LASER), _dir(""),
-               _iterations(DEFAULT_ITERATIONS), _convergence(DEFAULT_CONVERGENCE), _writel(false),
+               _iterations(DEFAULT_ITERATIONS), _convergence(DEFAULT_CONVERGENCE), _writel(false), _writeyield(false),
                _method(krotov), _coupling(dipole), _ttype(ov), _phase(false),
-               _ntargets(1), _mv(false), _alpha(1), _Gobbler(NULL), _opwf(NULL)
+               _ntargets(1), _mv(false), _alpha(1), _Gobbler(NULL), _U(NULL), _Coup(NULL), _nlaser(0), _opwf(NULL)
    {
       for (int i = 0; i < MAX_TARGETS; i++) {
          PsiI[i] = NULL;
@@ -57,7 +57,7 @@ namespace QDLIB
       int steps;
       string s;
 
-      double cutoffl, cutoffh; /* Cut off frequencies for freq-shape method */
+      double cutoffl = 0, cutoffh = 0; /* Cut off frequencies for freq-shape method */
 
       /* Init the clock */
       attr.GetValue("dt", dt);
diff --git a/src/math/VectorView.h b/src/math/VectorView.h
index 18c25d8..e338452 100644
--- a/src/math/VectorView.h
+++ b/src/math/VectorView.h
@@ -47,7 +47,7 @@ namespace QDLIB
     * \param dims  array with number of points in each direction
     */
    template <class T>
-	 VectorView<T>::VectorView(Vector<T> &vec, int ndims, const int *dims) : _adim(0)
+	 VectorView<T>::VectorView(Vector<T> &vec, int ndims, const int *dims) : _v(NULL), _view(NULL), _adim(0), _nothers(0)
    {
       if (vec.strides() > 1){
 	 cout << "!!!WARNING: VectorView doesn't work with strided vectors!!!" << endl;
diff --git a/src/qdlib/FileWF.cpp b/src/qdlib/FileWF.cpp
index 95dc772..d232e54 100644
--- a/src/qdlib/FileWF.cpp
+++ b/src/qdlib/FileWF.cpp
@@ -13,7 +13,7 @@
 
 namespace QDLIB {
 
-   FileWF::FileWF() : _compTolerance(FILEWF_COMPRESSION_TOLERANCE)
+   FileWF::FileWF() : _compLevel(9), _compTolerance(FILEWF_COMPRESSION_TOLERANCE)
    {
       Suffix(BINARY_WF_SUFFIX);
 
diff --git a/src/qdlib/GridSystem.cpp b/src/qdlib/GridSystem.cpp
index a4c8c20..24c7767 100644
--- a/src/qdlib/GridSystem.cpp
+++ b/src/qdlib/GridSystem.cpp
@@ -69,7 +69,7 @@ namespace QDLIB {
       }
    }
 
-   GridSystem::GridSystem()
+   GridSystem::GridSystem() : _active(0), _numactive(0)
    {
       grid_sys.header.set_dims(0);
       for (int i=0; i < MAX_DIMS; i++){
@@ -77,7 +77,7 @@ namespace QDLIB {
       }
    }
 
-   GridSystem::GridSystem(int dims)
+   GridSystem::GridSystem(int dims) : _active(0), _numactive(0)
    {
       for (int i=0; i < dims; i++)
          grid_sys.header.add_dim();
diff --git a/src/qdlib/Laser.cpp b/src/qdlib/Laser.cpp
index a0b5c55..9a7f212 100644
--- a/src/qdlib/Laser.cpp
+++ b/src/qdlib/Laser.cpp
@@ -8,7 +8,7 @@
 
 namespace QDLIB {
    
-   Laser::Laser() : _name("Laser"), _clock(NULL), _scale(1), _fft(NULL), _spectrum(NULL)
+   Laser::Laser() : _name("Laser"), _dt(0), _clock(NULL), _scale(1), _fft(NULL), _spectrum(NULL)
    {}
 
    Laser::~ Laser()
diff --git a/src/qdlib/OGobbler.cpp b/src/qdlib/OGobbler.cpp
index 37b3adc..c912e12 100644
--- a/src/qdlib/OGobbler.cpp
+++ b/src/qdlib/OGobbler.cpp
@@ -12,7 +12,7 @@ namespace QDLIB {
    QDNG_OPERATOR_NEW_INSTANCE_FUNCTION(OGobbler)
    
    OGobbler::OGobbler()
-      : OGridSystem(), _name("OGobbler"), _order(0), _gain(1),_nip(false)
+      : OGridSystem(), _name("OGobbler"), _order(0), _gain(1),_nip(false), _residue(false)
    {
       for (int i=0; i < MAX_DIMS; i++){
 	 _lp[i] = false;
diff --git a/src/qdlib/OGridStokes.cpp b/src/qdlib/OGridStokes.cpp
index b234d80..8dd2faf 100644
--- a/src/qdlib/OGridStokes.cpp
+++ b/src/qdlib/OGridStokes.cpp
@@ -9,7 +9,7 @@ namespace QDLIB {
    QDNG_OPERATOR_NEW_INSTANCE_FUNCTION(OGridStokes)
    
     OGridStokes::OGridStokes() : OGridNabla(true),
-    _name("OGridStokes"), _buf(NULL), _x0(0), _slope(0), _mass(0), _eta(0), _R(0), _c(0)
+    _name("OGridStokes"), _psi(NULL), _buf(NULL), _x0(0), _slope(0), _mass(0), _eta(0), _R(0), _c(0), _xe(0), _pe(0)
     {
     }
 
diff --git a/src/tools/XmlNode.cpp b/src/tools/XmlNode.cpp
index 41a4a04..dde4dbe 100644
--- a/src/tools/XmlNode.cpp
+++ b/src/tools/XmlNode.cpp
@@ -6,7 +6,7 @@
 
 namespace QDLIB {
 
-   XmlNode::XmlNode()
+   XmlNode::XmlNode() : _cur_node(NULL)
    {
    }
    
diff --git a/src/tools/ZCopyStream.cpp b/src/tools/ZCopyStream.cpp
index 85d073c..8bc049a 100644
--- a/src/tools/ZCopyStream.cpp
+++ b/src/tools/ZCopyStream.cpp
@@ -19,7 +19,7 @@ namespace QDLIB
    void WriteToZeroCopyStream(::google::protobuf::io::ZeroCopyOutputStream& os, const char* buffer, size_t size)
    {
       char* buf;
-      int buf_size;
+      int buf_size = 0;
       size_t len=0, size_written = 0;
 
       while (size_written < size){
-- 
2.43.0


From a709e9a4fcefff167f6af6b454f6a1b306f16e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:30 +0000
Subject: [PATCH 53/73] fix: stored propagation and parameter data could not be
 read back

The write cycle of a stored propagation was looked up under the wrong key
(division by zero) and its wave functions under the directory's name;
floating point parameters were stored with six digits only; type tags of
parameters were cut out with a wrong length and an over long line kept the
parser in its loop.
---
 src/ProgCfun.cpp             | 10 ++++++++--
 src/tools/ParamContainer.cpp | 15 +++++----------
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/ProgCfun.cpp b/src/ProgCfun.cpp
index 9e155dc..db216f5 100644
--- a/src/ProgCfun.cpp
+++ b/src/ProgCfun.cpp
@@ -437,15 +437,21 @@ namespace QDLIB
 	int Nt, wcycle;
 	double dt;
 	propagation_meta.GetValue("Nt", Nt);
-	propagation_meta.GetValue("wcycle", wcycle);
+	propagation_meta.GetValue("Wcycle", wcycle);
 	propagation_meta.GetValue("dt", dt);
 
+	if (wcycle < 1)
+	    throw(EParamProblem("Invalid write cycle in propagation meta file"));
+
+	string basename;
+	propagation_meta.GetValue("WFBaseName", basename);
+
 	master_clock_.Dt(dt);
 	master_clock_.Steps(Nt);
 	wcycle_ = wcycle;		/* use wcycle from propagation */
 
 	/* Read propagation */
-	wfbuffer.ReadFromFiles(read_dir_);
+	wfbuffer.ReadFromFiles(read_dir_ + "/" + basename);
 
 	if (wfbuffer.Size() < uint(Nt/wcycle) ) master_clock_.Steps(wfbuffer.Size());
 	if (wfbuffer.Size() < 1 )
diff --git a/src/tools/ParamContainer.cpp b/src/tools/ParamContainer.cpp
index 1d18f6b..9a284d9 100644
--- a/src/tools/ParamContainer.cpp
+++ b/src/tools/ParamContainer.cpp
@@ -5,6 +5,7 @@
 #include <sstream>
 #include <iostream>
 #include <fstream>
+#include <iomanip>
 #include <string.h>
 #include <stdio.h>
 #include "ParamContainer.h"
@@ -600,7 +601,7 @@ namespace QDLIB {
    {
      stringstream ss;
 
-     ss << value;
+     ss << setprecision(17) << value; /* all digits, the value must survive reading it back */
      ss >> _param_map[name];
 
      _type_map[name] = t_double;
@@ -631,7 +632,7 @@ namespace QDLIB {
       stringstream cat;
 
       for (size_t i=0; i < n; i++){
-         cat << values[i];
+         cat << setprecision(17) << values[i]; /* all digits, the value must survive reading it back */
          if (i != n-1) cat << ",";
       }
 
@@ -746,16 +747,10 @@ namespace QDLIB {
    void ParamContainer::Parse(istream &stream, const char* eof)
    {
       string s;
-      char line[MAX_LINE_LENGTH];
       size_t pos;
 
       clear();
-      while (!stream.eof()) { // Reading loop
-         stream.getline(line, MAX_LINE_LENGTH);
-         //if (file.fail()) return false;
-
-         s.assign(line);
-
+      while (getline(stream, s)) { // Reading loop, ends with the stream or on failure
          if (eof != NULL)
             if (s == eof) break;
 
@@ -777,7 +772,7 @@ namespace QDLIB {
             if (tpos1 != key.npos) { /* extract typedef */
                string stype;
                if (tpos2 != key.npos)
-                  stype = key.substr(tpos1+1, tpos1);
+                  stype = key.substr(tpos1+1, tpos2-tpos1-1);
                else
                   stype = key.substr(tpos1+1);
 
-- 
2.43.0


From 15f09dbb74071bcaa62ea290649c9ac3c9eaa6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:01 +0000
Subject: [PATCH 54/73] fix: grids with too many or missing dimensions overran
 the fixed dimension tables

---
 src/qdlib/GridSystem.cpp   | 27 +++++++++++++++++++++++----
 src/qdlib/GridSystem.h     | 11 ++++++++++-
 src/qdlib/OGridsystem.cpp  |  2 ++
 src/qdlib/WFGridSystem.cpp |  2 ++
 4 files changed, 37 insertions(+), 5 deletions(-)

diff --git a/src/qdlib/GridSystem.cpp b/src/qdlib/GridSystem.cpp
index 24c7767..f1d2cb6 100644
--- a/src/qdlib/GridSystem.cpp
+++ b/src/qdlib/GridSystem.cpp
@@ -22,6 +22,7 @@ namespace QDLIB {
 
       header.set_dims(dims);
       if ( dims <= 0 ) throw ( EParamProblem("Zero number of dimension defined") );
+      if ( dims > MAX_DIMS ) throw ( EParamProblem("Number of dimensions exceeds MAX_DIMS", dims) );
 
       int i = 0;
       int n = 0;
@@ -51,7 +52,22 @@ namespace QDLIB {
 
          i++;
          sprintf(c, "%d", i);
+         s = string("N") + string(c);
       }
+
+      CheckDims();
+   }
+
+   /**
+    * Check if the number of dimensions is supported and matches the dimensions described.
+    */
+   void GridSystemHeaderPm::CheckDims() const
+   {
+      if (header.dims() > MAX_DIMS)
+         throw(EParamProblem("Number of dimensions exceeds MAX_DIMS", (int) header.dims()));
+
+      if (uint32_t(header.dim_size()) != header.dims())
+         throw(EParamProblem("Number of dimensions doesn't match the grid definition", (int) header.dims()));
    }
 
    void GridSystemHeaderPm::DumpParams(ParamContainer& pm)
@@ -79,10 +95,7 @@ namespace QDLIB {
 
    GridSystem::GridSystem(int dims) : _active(0), _numactive(0)
    {
-      for (int i=0; i < dims; i++)
-         grid_sys.header.add_dim();
-
-      grid_sys.header.set_dims(dims);
+      Dim(dims);
    }
 
    /**
@@ -174,6 +187,9 @@ namespace QDLIB {
     */
    void GridSystem::Xmin(int dim, double xmin)
    {
+      if (dim < 0 || dim >= Dim())
+         throw(EParamProblem("GridSystem: Invalid dimension", dim));
+
       grid_sys.header.mutable_dim(dim)->set_xmin(xmin);
       _dx[dim] = (grid_sys.header.dim(dim).xmax() - xmin)/(double(grid_sys.header.dim(dim).size()-1)); /* Update dx value */
    }
@@ -195,6 +211,9 @@ namespace QDLIB {
     */
    void GridSystem::Xmax(int dim, double xmax)
    {
+      if (dim < 0 || dim >= Dim())
+         throw(EParamProblem("GridSystem: Invalid dimension", dim));
+
       grid_sys.header.mutable_dim(dim)->set_xmax(xmax);
       _dx[dim] = (xmax - grid_sys.header.dim(dim).xmin())/(double(grid_sys.header.dim(dim).size()-1));    /* Update dx value */
    }
diff --git a/src/qdlib/GridSystem.h b/src/qdlib/GridSystem.h
index f9774b2..079c6ca 100644
--- a/src/qdlib/GridSystem.h
+++ b/src/qdlib/GridSystem.h
@@ -8,6 +8,7 @@
 #include "math/typedefs.h"
 #include "qdlib/GridSystem.pb.h"
 #include "tools/ParamContainer.h"
+#include "tools/Exception.h"
 
 namespace QDLIB
 {
@@ -18,6 +19,7 @@ namespace QDLIB
          GridSystemHeader header;
          void InitFromParamContainer(ParamContainer& pm);
          void DumpParams(ParamContainer& pm);
+         void CheckDims() const;
    };
 
    /**
@@ -78,7 +80,14 @@ namespace QDLIB
          /**
           *  Activate a dimension for index mapping.
           */
-         void ActiveDim(int dim) { _active = dim;  _numactive = grid_sys.header.dim(dim).size(); }
+         void ActiveDim(int dim)
+         {
+            if (dim < 0 || dim >= Dim())
+               throw(EParamProblem("GridSystem: Invalid dimension", dim));
+
+            _active = dim;
+            _numactive = grid_sys.header.dim(dim).size();
+         }
 
          /**
           * Number of replica points for one index in activated dimension.
diff --git a/src/qdlib/OGridsystem.cpp b/src/qdlib/OGridsystem.cpp
index 1696073..2eb20be 100644
--- a/src/qdlib/OGridsystem.cpp
+++ b/src/qdlib/OGridsystem.cpp
@@ -95,6 +95,8 @@ namespace QDLIB {
 
       delete[] buf;
 
+      grid_sys.CheckDims();
+
       newsize(GridSystem::Size());
       grid_sys.header.set_data_size(GridSystem::Size() * sizeof(*begin(0)));
 
diff --git a/src/qdlib/WFGridSystem.cpp b/src/qdlib/WFGridSystem.cpp
index 53fb997..c761f3d 100644
--- a/src/qdlib/WFGridSystem.cpp
+++ b/src/qdlib/WFGridSystem.cpp
@@ -176,6 +176,8 @@ namespace QDLIB {
 
       delete[] buf;
 
+      grid_sys.CheckDims();
+
       // Read data
       newsize(GridSystem::Size());
       grid_sys.header.set_data_size(GridSystem::Size() * sizeof(*begin(0)));
-- 
2.43.0


From 730606a05b2b178c24c68d33eff8a2dff3a2be46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:01 +0000
Subject: [PATCH 55/73] fix: operator lists and sums accessed elements outside
 their tables

---
 src/qdlib/OGridSum.cpp |  5 +++--
 src/qdlib/OList.cpp    | 11 ++++-------
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/qdlib/OGridSum.cpp b/src/qdlib/OGridSum.cpp
index 622cef0..f5b8af0 100644
--- a/src/qdlib/OGridSum.cpp
+++ b/src/qdlib/OGridSum.cpp
@@ -35,10 +35,11 @@ namespace QDLIB {
       
       int k;
       if (_size > 1) {
-	 for (k=1; k < _size; k++)             /* Loop over operators */
+	 for (k=1; k < _size; k++){            /* Loop over operators */
 	    _O[k]->UpdateTime();
 	    for (int i=0; i < dVec::size(); i++)   /* Loop over grid points */
 	       (*this)[i] += (*(_O[k]))[i];
+	 }
       }
       _isUpTodate = true;
       
@@ -157,7 +158,7 @@ namespace QDLIB {
     */
    OGridSystem* OGridSum::Get( int i )
    {
-      if (i >= _size)
+      if (i < 0 || i >= _size)
 	 throw( EIncompatible("Access to empty element") );
       return _O[i];
    }
diff --git a/src/qdlib/OList.cpp b/src/qdlib/OList.cpp
index 4ac2ef4..ff40d73 100644
--- a/src/qdlib/OList.cpp
+++ b/src/qdlib/OList.cpp
@@ -46,7 +46,7 @@ namespace QDLIB {
     */
    Operator * OList::Get(int index)
    {
-      if (index >= _size)
+      if (index < 0 || index >= _size)
          throw( EIncompatible("Access to empty element") );
       return _O[index];
    }
@@ -58,7 +58,7 @@ namespace QDLIB {
     */
    Operator* OList::Get(const string& name)
    {
-      return _O[GetIndex(name)];
+      return Get(GetIndex(name));
    }
 
    int OList::GetIndex(const string& name)
@@ -82,7 +82,7 @@ namespace QDLIB {
     */
    void OList::Set(int index, Operator *O)
    {
-      if (index >= _size)
+      if (index < 0 || index >= _size)
          throw( EIncompatible("Access to empty element") );
       
       _O[index] = O;
@@ -91,10 +91,7 @@ namespace QDLIB {
    
    void OList::Set(const string& name, Operator *O)
    {
-      int index = GetIndex(name);
-
-      _O[index] = O;
-      _O[index]->Conj(_conj);
+      Set(GetIndex(name), O);
    }
 
    /**
-- 
2.43.0


From 0e29dee05ef5dbcda11abb448e0a065f5f7b157a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:01 +0000
Subject: [PATCH 56/73] fix: multi state containers accepted states outside
 their tables

---
 src/ChainLoader.cpp        |  3 +++
 src/qdlib/OMultistate.cpp  | 11 ++++++++---
 src/qdlib/OMultistate.h    |  8 +++++++-
 src/qdlib/WFMultistate.cpp | 11 ++++++++++-
 4 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/ChainLoader.cpp b/src/ChainLoader.cpp
index 9e02ff7..9b7d82b 100644
--- a/src/ChainLoader.cpp
+++ b/src/ChainLoader.cpp
@@ -247,6 +247,9 @@ namespace QDLIB
 
 	return wfout;
       } else { /* Map Multistate to a single state WF */
+	   if (statemap.empty() || coeffs.empty())
+	      throw (EParamProblem("Multimap: no state given"));
+
 	   if (statemap[0] >= wfin->States() || statemap[0] < 0)
 	      throw (EParamProblem("Multimap: state index is invalid"));
 
diff --git a/src/qdlib/OMultistate.cpp b/src/qdlib/OMultistate.cpp
index bf34dae..7ce9647 100644
--- a/src/qdlib/OMultistate.cpp
+++ b/src/qdlib/OMultistate.cpp
@@ -33,6 +33,9 @@ namespace QDLIB
     */
    void OMultistate::Add(Operator *O, int row, int col)
    {
+      if (row < 0 || col < 0)
+	 throw (EParamProblem("Multistate: negative matrix index"));
+
       if (row >= QD_MAX_STATES || col >= QD_MAX_STATES)
 	 throw (EOverflow("Multistate: More than QD_MAX_STATES not possible"));
       
@@ -59,7 +62,7 @@ namespace QDLIB
     */
    Operator * QDLIB::OMultistate::State(int i, int j)
    {
-      if (_nstates > i && _nstates > j)
+      if (i >= 0 && j >= 0 && _nstates > i && _nstates > j)
 	 return _matrix[i][j];
       else
 	 return NULL;
@@ -87,6 +90,8 @@ namespace QDLIB
       /* Not needed but good for spare operators (e.g. filters) */
       if (_params.isPresent("states")){
          _params.GetValue( "states", _nstates);
+         if (_nstates < 0)
+            throw (EParamProblem("Negative number of states"));
          if (_nstates > QD_MAX_STATES)
             throw (EOverflow("More than QD_MAX_STATES not possible"));
       }
@@ -132,7 +137,7 @@ namespace QDLIB
 	 }
       } else {
 	 for(int i=0; i< _nstates; i++){
-	    for(int j=0; j<= _nstates; j++){
+	    for(int j=0; j< _nstates; j++){
 	       if (_matrix[i][j] != NULL)
                   if (_subinit)
 		    _matrix[i][j]->Init(psi->State(j));
@@ -152,7 +157,7 @@ namespace QDLIB
 	 }
       } else {
 	 for(int i=0; i< _nstates; i++){
-	    for(int j=0; j<= _nstates; j++){
+	    for(int j=0; j< _nstates; j++){
 	       if (_matrix[i][j] != NULL)
 		  _matrix[i][j]->UpdateTime();
 	    }
diff --git a/src/qdlib/OMultistate.h b/src/qdlib/OMultistate.h
index 23b1ff5..43ff2f4 100644
--- a/src/qdlib/OMultistate.h
+++ b/src/qdlib/OMultistate.h
@@ -76,7 +76,13 @@ namespace QDLIB
 	 /** Explictly set the number of states. 
 	  *  Usually this is done automaticly in the add method.
 	  */
-	 void States(int n) { _nstates = n; }
+	 void States(int n)
+	 {
+	    if (n < 0 || n > QD_MAX_STATES)
+	       throw (EOverflow("Multistate: More than QD_MAX_STATES not possible"));
+
+	    _nstates = n;
+	 }
 	 
 	 Operator* State(int i, int j);
 	 
diff --git a/src/qdlib/WFMultistate.cpp b/src/qdlib/WFMultistate.cpp
index 1c4c963..84a4712 100644
--- a/src/qdlib/WFMultistate.cpp
+++ b/src/qdlib/WFMultistate.cpp
@@ -42,7 +42,10 @@ namespace QDLIB
     */
    void WFMultistate::Add( WaveFunction * Psi, lint index)
    {
-      if (index+1 >= QD_MAX_STATES )
+      if (index < 0)
+	 throw( EParamProblem( "Negative state index", (int) index) );
+
+      if (index >= QD_MAX_STATES )
 	 throw( EOverflow( "More states requested than possible (QD_MAX_STATES)") );
       
       if (index+1 > _nstates){
@@ -65,6 +68,9 @@ namespace QDLIB
 
    WaveFunction*  WFMultistate::State(lint index)
    {
+      if (index < 0 || index >= _nstates)
+	 throw( EOverflow( "Access to a non-existing state of a WFMultistate") );
+
       return _states[index];
    }
    
@@ -91,6 +97,9 @@ namespace QDLIB
       
       WaveFunction *wflast = NULL;
 
+      if (reqsize > QD_MAX_STATES)
+	 throw( EOverflow( "More states requested than possible (QD_MAX_STATES)") );
+
       /* look for empty states */
       for (int i=0; i < _nstates; i++){
        if (_states[i] != NULL)
-- 
2.43.0


From 67900cad4f66e492ba90be7caf58461591d25409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:01 +0000
Subject: [PATCH 57/73] fix: searching for coupling operators overran the
 result table

---
 src/ChainLoader.h | 86 +++++++++++++----------------------------------
 src/ProgOCT.cpp   |  3 ++
 2 files changed, 26 insertions(+), 63 deletions(-)

diff --git a/src/ChainLoader.h b/src/ChainLoader.h
index de09de6..d59bb28 100644
--- a/src/ChainLoader.h
+++ b/src/ChainLoader.h
@@ -45,14 +45,17 @@ namespace QDLIB
     * \return The whole Operator with packaging (single state or multistate)
     */
    template <class C>
-   Operator* FindOperatorType(Operator *O, C **found, int &n, const string *label = NULL, const int index=0)
+   Operator* FindOperatorType(Operator *O, C **found, int &n, const string *label = NULL)
    {
       C* t;
       Operator* res = NULL;
-      C **sop;
-      int nops=0;
-      int max;
-      
+      const int limit = n;
+
+      if (limit < 1) /* No space left */
+         return NULL;
+
+      n = 0;
+
       t = dynamic_cast<C*>(O);
       if (t != NULL){
          /* Check for label */
@@ -62,7 +65,7 @@ namespace QDLIB
          }
          /* return successful result */
          n=1;
-         found[index] = t;
+         found[0] = t;
          return t;
       }
       
@@ -70,27 +73,16 @@ namespace QDLIB
       OList* list;
       list = dynamic_cast<OList*>(O);
       if (list != NULL){
-         sop = new C*[n];
          OList* package = dynamic_cast<OList*>(list->NewInstance());
-	 for(int i=0; i < list->Size(); i++){
-             max=n;
-             res = FindOperatorType<C>((*list)[i], sop, max, label, index+nops);
+	 for(int i=0; i < list->Size() && n < limit; i++){
+             int sub = limit - n;
+             res = FindOperatorType<C>((*list)[i], found + n, sub, label);
 	     if (res != NULL){
                 package->Add(res);
-                for (int k=0; k < max; k++){
-                  found[index+nops+k] = sop[index+nops+k];
-                  /* Abort if limit is reached prematurely */
-                  if (nops+k >= n){
-                     delete[] sop;
-                     return res;
-                  }
-                }
-                nops += max;
+                n += sub;
 	     }
 	 }
-         n = nops;
-         delete[] sop;
-         if (nops == 0) {
+         if (n == 0) {
             delete package;
             return NULL;
          } else {
@@ -103,59 +95,28 @@ namespace QDLIB
       ms = dynamic_cast<OMultistate*>(O);
       if (ms != NULL){
 	 OMultistate* package = new OMultistate();
-         sop = new C*[n];
 	 package->States(ms->States());
 	 for(int i=0; i < ms->States(); i++){
-            for(int j=0; j < i; j++){
+            for(int j=0; j < i && n < limit; j++){
 	       if (ms->State(i,j) != NULL){ 
-                  max=n;
-                  res = FindOperatorType<C>(ms->State(i,j), sop, max, label, index+nops);
+                  int sub = limit - n;
+                  res = FindOperatorType<C>(ms->State(i,j), found + n, sub, label);
 		  if (res != NULL){
 		     package->Add(res, i, j);
-                     for (int k=0; k < max; k++){
-                        found[index+nops+k] = sop[index+nops+k];
-                        if (nops+k >= n){
-                           delete[] sop;
-                           return package;
-                        }
-                     }
-                     nops += max;
-		     if (ms->State(i,j) != ms->State(j,i) && ms->State(j,i) != NULL) {
-                        cout << "Look for NH counterpart: " << ms->State(i,j) << " " << ms->State(j,i) << endl;
-                        cout << "Label: " << *label << endl;
-                        max=n;
-                        res = FindOperatorType<C>(ms->State(j,i), sop, max, label, index+nops);
+                     n += sub;
+		     if (n < limit && ms->State(i,j) != ms->State(j,i) && ms->State(j,i) != NULL) {
+                        sub = limit - n;
+                        res = FindOperatorType<C>(ms->State(j,i), found + n, sub, label);
 		        if (res != NULL){
-                           cout << "Found an j,i" << ms->State(j,i)->Name()  << endl;
 		           package->Add(res, j, i);
-                           for (int k=0; k < max; k++){
-                              found[index+nops+k] = sop[index+nops+k];
-                              if (nops+k >= n){
-                                 delete[] sop;
-                                 return package;
-                              }
-                           }
-                           nops += max;
+                           n += sub;
                         }
 		     }
 		  }
-                  /* Abort if limit is reached prematurely */
-                  if (nops > n){
-                     n = nops;
-                     delete[] sop;
-                     if (nops == 0) {
-                        delete package;
-                        return NULL;
-                     } else {
-                        return package;
-                     }
-                  }
 	       }
 	    }
 	 }
-         n = nops;
-         delete[] sop;
-         if (nops == 0) {
+         if (n == 0) {
             delete package;
             return NULL;
          } else {
@@ -163,7 +124,6 @@ namespace QDLIB
          }
       }
       
-      n = 0;
       return NULL;
    }
 
diff --git a/src/ProgOCT.cpp b/src/ProgOCT.cpp
index 3dc3cba..84623dc 100644
--- a/src/ProgOCT.cpp
+++ b/src/ProgOCT.cpp
@@ -933,6 +933,9 @@ namespace QDLIB
             } else
                log.cout() << "Found " << nlasers << " labeled laser field(s)\n";
             
+            if (nlasers > MAX_LASERS)
+               throw(EOverflow("More laser fields than MAX_LASERS"));
+
             _nlaser = nlasers;
             if (nlasers != 0) {
                for (int l = 0; l < _nlaser; l++){
-- 
2.43.0


From 94991f80674996c141af2342ce0e26fc18244c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:50 +0000
Subject: [PATCH 58/73] fix: k-space setup for a single dimension left it out
 and accepted any dimension

---
 src/qdlib/Diff.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qdlib/Diff.cpp b/src/qdlib/Diff.cpp
index 935f1bb..11f31b2 100644
--- a/src/qdlib/Diff.cpp
+++ b/src/qdlib/Diff.cpp
@@ -89,8 +89,11 @@ namespace QDLIB
          int begin = 0;
          int end = _grid.Dim();
          if (_dim > -1) {
+            if (_dim >= _grid.Dim())
+               throw (EParamProblem("Invalid dimension for difference operator"));
+
             begin = _dim;
-            end = _dim;
+            end = _dim + 1;
          }
 
          /* Setup derivatives for every coordinate */
-- 
2.43.0


From b01b56d8c2a9f2461ac86133910899d6578f0d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:12 +0000
Subject: [PATCH 59/73] fix: propagators did not pass their clock on to the
 Hamiltonian

---
 src/qdlib/OPropagator.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qdlib/OPropagator.h b/src/qdlib/OPropagator.h
index 5d9130e..865c7f9 100644
--- a/src/qdlib/OPropagator.h
+++ b/src/qdlib/OPropagator.h
@@ -43,7 +43,10 @@ namespace QDLIB {
 	 
 	 virtual void Clock(QDClock *cl)
 	 {
-	    clock = cl;
+	    OList::Clock(cl);
+	    if (H != NULL)
+	       H->Clock(cl);
+
 	    _c0 = I*clock->Dt();
 
 	    if (forward)
-- 
2.43.0


From 1ce32579bb47dd791f8c8344f8a0ad6daf1ebcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:12 +0000
Subject: [PATCH 60/73] fix: friction operators did not pass time updates on to
 the operators they contain

---
 src/qdlib/OGridGStokes.h        | 2 --
 src/qdlib/OGridStokesAlbrecht.h | 1 -
 2 files changed, 3 deletions(-)

diff --git a/src/qdlib/OGridGStokes.h b/src/qdlib/OGridGStokes.h
index 675aa68..e1f364a 100644
--- a/src/qdlib/OGridGStokes.h
+++ b/src/qdlib/OGridGStokes.h
@@ -57,8 +57,6 @@ namespace QDLIB
 
          virtual void Init(WaveFunction *Psi);
 
-         virtual void UpdateTime(){} /* Nothing to do here */
-
          virtual dcomplex Emax(){ return dcomplex(0); }
 
          virtual dcomplex Emin(){ return dcomplex(0); }
diff --git a/src/qdlib/OGridStokesAlbrecht.h b/src/qdlib/OGridStokesAlbrecht.h
index 0076549..2c3159b 100644
--- a/src/qdlib/OGridStokesAlbrecht.h
+++ b/src/qdlib/OGridStokesAlbrecht.h
@@ -57,7 +57,6 @@ namespace QDLIB
          virtual const string& Name();
          virtual void Init(ParamContainer &params);
          virtual void Init(WaveFunction *Psi);
-         virtual void UpdateTime(){}
          virtual dcomplex Emax();
          virtual dcomplex Emin() { return dcomplex(0); }
          virtual void Apply(WaveFunction *destPsi, WaveFunction *sourcePsi);
-- 
2.43.0


From e9425785db8114725e42ddb71e792814afc814ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:12 +0000
Subject: [PATCH 61/73] fix: multi state operators did not pass complex
 conjugation on to their elements

---
 src/qdlib/OMultistate.cpp | 14 +++++++++++++-
 src/qdlib/OMultistate.h   |  2 ++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/qdlib/OMultistate.cpp b/src/qdlib/OMultistate.cpp
index 7ce9647..d5f7592 100644
--- a/src/qdlib/OMultistate.cpp
+++ b/src/qdlib/OMultistate.cpp
@@ -48,7 +48,8 @@ namespace QDLIB
          throw (EParamProblem("Multistate matrix element is already in use"));
          
       _matrix[row][col] = O;
-      
+      O->Conj(_conj);
+
       if (O->isTimeDep()) _isTimedependent = true;
       if (!O->Hermitian()) Operator::_hermitian = false;
       
@@ -165,6 +166,17 @@ namespace QDLIB
       }
    }
    
+   void OMultistate::Conj(bool conj)
+   {
+      _conj = conj;
+      for(int i=0; i < _nstates; i++){
+	 for(int j=0; j < _nstates; j++){
+	    if (_matrix[i][j] != NULL)
+	       _matrix[i][j]->Conj(conj);
+	 }
+      }
+   }
+
    dcomplex OMultistate::Emax()
    {
       dMat Mmax;
diff --git a/src/qdlib/OMultistate.h b/src/qdlib/OMultistate.h
index 43ff2f4..ce6f0f4 100644
--- a/src/qdlib/OMultistate.h
+++ b/src/qdlib/OMultistate.h
@@ -99,6 +99,8 @@ namespace QDLIB
 	 virtual const string& Name();
 	                
 	 virtual void UpdateTime();
+
+	 virtual void Conj(bool conj);
 	 
 	 virtual dcomplex Emax();
 	 
-- 
2.43.0


From 7321075ef2f6d6d34584a329881428e3d40706c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:05 +0000
Subject: [PATCH 62/73] fix: adding an operator to a multi state matrix only
 passes conjugation on when it is set

---
 src/qdlib/OMultistate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qdlib/OMultistate.cpp b/src/qdlib/OMultistate.cpp
index d5f7592..b8e5e47 100644
--- a/src/qdlib/OMultistate.cpp
+++ b/src/qdlib/OMultistate.cpp
@@ -48,7 +48,7 @@ namespace QDLIB
          throw (EParamProblem("Multistate matrix element is already in use"));
          
       _matrix[row][col] = O;
-      O->Conj(_conj);
+      if (_conj) O->Conj(true);
 
       if (O->isTimeDep()) _isTimedependent = true;
       if (!O->Hermitian()) Operator::_hermitian = false;
-- 
2.43.0


From 99c238f65d2c32d611b28fe7d5df14ae1d940b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:05 +0000
Subject: [PATCH 63/73] fix: grid sums did not pass clock, conjugation and
 initialization on to their operators

---
 src/qdlib/OGridSum.cpp | 37 +++++++++++++++++++++++++++++++++++++
 src/qdlib/OGridSum.h   | 10 ++++++++++
 2 files changed, 47 insertions(+)

diff --git a/src/qdlib/OGridSum.cpp b/src/qdlib/OGridSum.cpp
index f5b8af0..2c76752 100644
--- a/src/qdlib/OGridSum.cpp
+++ b/src/qdlib/OGridSum.cpp
@@ -56,6 +56,43 @@ namespace QDLIB {
    
       if (dVec::size() != Psi->size())
 	 throw ( EIncompatible("Operator and WF differ in size") );
+
+      for (int i=0; i < _size; i++)
+	 _O[i]->Init(Psi);
+   }
+
+   /**
+    * Check the contained operators. The sum itself has no grid description.
+    */
+   bool OGridSum::Valid( WaveFunction * Psi )
+   {
+      if (Psi == NULL || _size == 0) return false;
+
+      for (int i=0; i < _size; i++)
+	 if (! _O[i]->Valid(Psi)) return false;
+
+      return true;
+   }
+
+   void OGridSum::Clock( QDClock * cl )
+   {
+      clock = cl;
+      for (int i=0; i < _size; i++)
+	 _O[i]->Clock(clock);
+   }
+
+   void OGridSum::Conj( bool conj )
+   {
+      _conj = conj;
+      for (int i=0; i < _size; i++)
+	 _O[i]->Conj(conj);
+   }
+
+   void OGridSum::RecalcInternals( bool on )
+   {
+      OGridSystem::RecalcInternals(on);
+      for (int i=0; i < _size; i++)
+	 _O[i]->RecalcInternals(on);
    }
 
    void OGridSum::UpdateTime( )
diff --git a/src/qdlib/OGridSum.h b/src/qdlib/OGridSum.h
index 7cbaaa5..b7f5bda 100644
--- a/src/qdlib/OGridSum.h
+++ b/src/qdlib/OGridSum.h
@@ -50,7 +50,17 @@ namespace QDLIB {
 	 
 	 virtual const string& Name();
 	 
+	 virtual void Clock(QDClock *cl);
+
 	 virtual void UpdateTime();
+
+	 virtual void Conj(bool conj);
+
+	 virtual void RecalcInternals(bool on);
+
+	 virtual bool RecalcInternals() { return OGridSystem::RecalcInternals(); }
+
+	 virtual bool Valid(WaveFunction *Psi);
 	 
 	 virtual dcomplex MatrixElement(WaveFunction *PsiBra, WaveFunction *PsiKet);
 	 
-- 
2.43.0


From 8b362e9561f4ad919ccd57936cc4fd107ce31b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:25 +0000
Subject: [PATCH 64/73] fix: the buffer of OGridNAC::Apply is released through
 the collector it is registered with

---
 src/qdlib/OGridNAC.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qdlib/OGridNAC.cpp b/src/qdlib/OGridNAC.cpp
index 94a8349..493ea47 100644
--- a/src/qdlib/OGridNAC.cpp
+++ b/src/qdlib/OGridNAC.cpp
@@ -161,7 +161,7 @@ namespace QDLIB {
       Apply(opPsi, Psi);
       *Psi = opPsi;
       
-      delete opPsi;
+      DELETE_WF(opPsi);
    }
 
    Operator * OGridNAC::operator =(Operator * O)
-- 
2.43.0


From a2722e001b9fd9294c6ecedff3393d14bbfbbf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:25 +0000
Subject: [PATCH 65/73] fix: empty operator packages are released through the
 collector they are registered with

---
 src/ChainLoader.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ChainLoader.h b/src/ChainLoader.h
index d59bb28..87d32a4 100644
--- a/src/ChainLoader.h
+++ b/src/ChainLoader.h
@@ -83,7 +83,7 @@ namespace QDLIB
 	     }
 	 }
          if (n == 0) {
-            delete package;
+            DELETE_OP(package);
             return NULL;
          } else {
             return package;
@@ -117,7 +117,7 @@ namespace QDLIB
 	    }
 	 }
          if (n == 0) {
-            delete package;
+            DELETE_OP(package);
             return NULL;
          } else {
             return package;
-- 
2.43.0


From 3c28c75035f0bf02e539b93832c068bb46aa5b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:25 +0000
Subject: [PATCH 66/73] fix: assigning a matrix operator released the storage
 of its source

---
 src/qdlib/OHermitianMatrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qdlib/OHermitianMatrix.cpp b/src/qdlib/OHermitianMatrix.cpp
index 35f1de3..44a7ff1 100644
--- a/src/qdlib/OHermitianMatrix.cpp
+++ b/src/qdlib/OHermitianMatrix.cpp
@@ -224,7 +224,7 @@ namespace QDLIB {
     */
    OHermitianMatrix& OHermitianMatrix::operator=(OHermitianMatrix &O)
    {
-      *(dMat*) this = (dMat) O;
+      *(dMat*) this = (dMat&) O;
       _params =  O.Params();
 
       _valid = false;
-- 
2.43.0


From bf6d5a3f51bb6735169154a78c0982676e6e1804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:25 +0000
Subject: [PATCH 67/73] fix: a copied grid sum shares its operators with the
 original without registering them

---
 src/qdlib/OGridSum.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qdlib/OGridSum.cpp b/src/qdlib/OGridSum.cpp
index 2c76752..65da295 100644
--- a/src/qdlib/OGridSum.cpp
+++ b/src/qdlib/OGridSum.cpp
@@ -183,8 +183,11 @@ namespace QDLIB {
             
       /* copy our stuff */
       _size = org->_size;
-      for (int i=0; i< MAX_OPS; i++)
+      for (int i=0; i< MAX_OPS; i++){
+	 Collector<Operator>::Instance()->Register(org->_O[i]);
+	 DELETE_OP(_O[i]);
 	 _O[i] = org->_O[i];
+      }
       _isUpTodate = org->_isUpTodate;
       
       return this;
-- 
2.43.0


From 29d6594634238f5bc0dc5ae046c85d321648b4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:25 +0000
Subject: [PATCH 68/73] fix: correlation function and eigenfunction runs keep
 pointers to the released initial wave function

---
 src/ProgCfun.cpp  | 1 +
 src/ProgEigen.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/ProgCfun.cpp b/src/ProgCfun.cpp
index db216f5..b6965df 100644
--- a/src/ProgCfun.cpp
+++ b/src/ProgCfun.cpp
@@ -545,6 +545,7 @@ namespace QDLIB
     /* Do */
 
     DELETE_WF(Psi0);
+    Psi0 = NULL;
 
   }
 
diff --git a/src/ProgEigen.cpp b/src/ProgEigen.cpp
index 1dbf454..218c463 100644
--- a/src/ProgEigen.cpp
+++ b/src/ProgEigen.cpp
@@ -739,6 +739,7 @@ namespace QDLIB
 
       /* Cleanup */
       DELETE_WF(_PsiInitial);
+      _PsiInitial = NULL;
    }
 
 
-- 
2.43.0


From 0300cba72e8e33852a8d0165de057ffdf4bc4927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:25 +0000
Subject: [PATCH 69/73] fix: OGSPO released its hamiltonian twice

---
 src/qdlib/OGSPO.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/qdlib/OGSPO.cpp b/src/qdlib/OGSPO.cpp
index 5db7cea..2492737 100644
--- a/src/qdlib/OGSPO.cpp
+++ b/src/qdlib/OGSPO.cpp
@@ -19,7 +19,6 @@ namespace QDLIB
 
    OGSPO::~OGSPO()
    {
-      DELETE_OP(H);
    }
 
    /**
-- 
2.43.0


From 7bda7de8fae4be8d4207f0ce9c95b5a001a01e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:54 +0000
Subject: [PATCH 70/73] fix: simpleXml: a for loop with a step of zero ran
 (nearly) forever and filled the memory

---
 src/simpleXml/SyntacticTreeModel.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/simpleXml/SyntacticTreeModel.h b/src/simpleXml/SyntacticTreeModel.h
index aa9da65..4d4d51c 100644
--- a/src/simpleXml/SyntacticTreeModel.h
+++ b/src/simpleXml/SyntacticTreeModel.h
@@ -238,6 +238,9 @@ class forloop: public block
 
       virtual void execute()
       {
+         if (step == 0)
+            throw (QDLIB::EParamProblem("The step of a for loop must not be zero", loopvar));
+
          Indent();
          ss_yy_buf << "<!-- for " << loopvar << " = " << begin << " " << end << " " << step << " -->\n";
          double d = begin;
-- 
2.43.0


From b8bc343b65a53466604f7629130b14ac9a37a0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:54 +0000
Subject: [PATCH 71/73] fix: FS::StripLast: stripping slashes ran past the
 start of a path of slashes only

---
 src/tools/fstools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/fstools.cpp b/src/tools/fstools.cpp
index dd3ac1f..f1bf17e 100644
--- a/src/tools/fstools.cpp
+++ b/src/tools/fstools.cpp
@@ -20,7 +20,7 @@ namespace QDLIB {
       size_t pos;
       
       /* strip trailing slashes */
-      while (dir[dir.length()-1] == '/')
+      while (!dir.empty() && dir[dir.length()-1] == '/')
          dir.erase(dir.length()-1,1);
       
       /* Erase last dir in string */
-- 
2.43.0


From dbe48992b1c4e0121aded4530ad6fa1fcff91ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:54 +0000
Subject: [PATCH 72/73] fix: WFBuffer::ResizeBuffer: reducing the buffer to
 zero never ended (unsigned countdown)

---
 src/qdlib/WFBuffer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qdlib/WFBuffer.cpp b/src/qdlib/WFBuffer.cpp
index 6c0933d..946b681 100644
--- a/src/qdlib/WFBuffer.cpp
+++ b/src/qdlib/WFBuffer.cpp
@@ -176,7 +176,7 @@ namespace QDLIB {
       size_t oldsize = _buf.size();
 
       if (oldsize > size) { /* Reduce size */
-         for (size_t i=oldsize-1; i >= size; i--){
+         for (size_t i=oldsize-1; _buf.size() > size; i--){
             if (_buf[i].Psi != NULL){ /* Remove wf from memory */
                DELETE_WF(_buf[i].Psi);
             }
-- 
2.43.0


From 636cef20d3b7b17e7d762185f0a2fea4cdd875cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:54 +0000
Subject: [PATCH 73/73] fix: Logger::Header: a title longer than the line was
 padded with 2^63 characters (unsigned underflow)

---
 src/tools/Logger.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools/Logger.cpp b/src/tools/Logger.cpp
index fc44ef0..24d9f91 100644
--- a/src/tools/Logger.cpp
+++ b/src/tools/Logger.cpp
@@ -243,7 +243,7 @@ namespace QDLIB {
 	       for(int i=0; i < _line_length; i++)
 		  *_global_out << "*";
 	       *_global_out << "\n";
-	       for(unsigned long int i=0; i < (_line_length-title.length())/2; i++)
+	       for(int i=0; i < (_line_length-(int) title.length())/2; i++)
 		  *_global_out << " ";
 	       *_global_out << title<<endl;
 	       for(int i=0; i < _line_length; i++)
@@ -252,11 +252,11 @@ namespace QDLIB {
 	    break;
 	 case Section:
 	       *_global_out << "\n*";
-	       for(unsigned long int i=0; i < (_line_length-title.length())/2-2; i++)
+	       for(int i=0; i < (_line_length-(int) title.length())/2-2; i++)
 		  *_global_out << "*";
 	       *_global_out << " ";
 	       *_global_out << title << " ";
-	       for(unsigned long int i=0; i < (_line_length-title.length())/2-2; i++)
+	       for(int i=0; i < (_line_length-(int) title.length())/2-2; i++)
 		  *_global_out << "*";
 	       *_global_out << "\n\n";
 	    break;
-- 
2.43.0

