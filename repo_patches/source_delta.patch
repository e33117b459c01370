From bd566e2bc22621a5bd24a57cb7215d15b2723b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:25 +0000
Subject: [PATCH 01/25] fix: scale all points of backward FFT output (input
 layout), not the output layout count

---
 src/fft2d.cpp | 4 ++--
 src/fft3d.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index e5fe4c7..60c139e 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -411,7 +411,7 @@ void FFT2d::setup(int user_nfast, int user_nslow,
   if (exchange) fftsize = MAX(fftsize,bricksize);
 
   // setup for 2 sets of 1d FFTs, also scaling normalization
-  // outsize must be already set for setup_ffts() to use to setup scaling
+  // insize must be already set to setup scaling of backward FFT output
   // norm must allow for nfast*nmid*nslow to exceed a 4-byte int (2B)
 
   fft_fast = new FFT1d;
@@ -428,7 +428,7 @@ void FFT2d::setup(int user_nfast, int user_nslow,
   setup_ffts();
 
   norm = 1.0/((bigint) nfast * nslow);
-  normnum = outsize;
+  normnum = insize;
 
   // allocate sendbuf, recvbuf arrays to max sizes needed by any remap
 
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index a643992..9a6590a 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -437,7 +437,7 @@ void FFT3d::setup(int user_nfast, int user_nmid, int user_nslow,
   if (exchange) fftsize = MAX(fftsize,bricksize);
 
   // setup for 3 sets of 1d FFTs, also scaling normalization
-  // outsize must be already set for setup_ffts() to use to setup scaling
+  // insize must be already set to setup scaling of backward FFT output
   // norm must allow for nfast*nmid*nslow to exceed a 4-byte int (2B)
 
   fft_fast = new FFT1d;
@@ -459,7 +459,7 @@ void FFT3d::setup(int user_nfast, int user_nmid, int user_nslow,
   setup_ffts();
 
   norm = 1.0/((bigint) nfast * nmid*nslow);
-  normnum = outsize;
+  normnum = insize;
 
   // allocate sendbuf, recvbuf arrays to max sizes needed by any remap
 
-- 
2.43.0


From 21d5528e3bb013c6ab69a065b543df5e04f42a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:25 +0000
Subject: [PATCH 02/25] fix: copy both components of complex data when no
 initial remap is needed

---
 src/fft2d.cpp | 12 ++++++------
 src/fft3d.cpp | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index 60c139e..a701d8d 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -533,7 +533,7 @@ void FFT2d::compute(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   if (flag == FORWARD || inout_layout_same) {
 
     if (remap_prefast) remap(in,out,remap_prefast);
-    else if (in != out) memcpy(out,in,insize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,2*(size_t) insize*sizeof(FFT_SCALAR));
 
     if (remaponly) {
       if (remap_fastslow) remap(data,data,remap_fastslow);
@@ -548,7 +548,7 @@ void FFT2d::compute(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   } else {
 
     if (remap_preslow) remap(in,out,remap_preslow);
-    else if (in != out) memcpy(out,in,outsize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,2*(size_t) outsize*sizeof(FFT_SCALAR));
 
     if (remaponly) {
       if (remap_slowfast) remap(data,data,remap_slowfast);
@@ -600,7 +600,7 @@ void FFT2d::only_remaps(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   if (flag == FORWARD || inout_layout_same) {
 
     if (remap_prefast) remap(in,out,remap_prefast);
-    else if (in != out) memcpy(out,in,insize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,2*(size_t) insize*sizeof(FFT_SCALAR));
 
     if (remap_fastslow) remap(data,data,remap_fastslow);
 
@@ -609,7 +609,7 @@ void FFT2d::only_remaps(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   } else {
 
     if (remap_preslow) remap(in,out,remap_preslow);
-    else if (in != out) memcpy(out,in,outsize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,2*(size_t) outsize*sizeof(FFT_SCALAR));
 
     if (remap_slowfast) remap(data,data,remap_slowfast);
 
@@ -636,7 +636,7 @@ void FFT2d::only_one_remap(FFT_SCALAR *in, FFT_SCALAR *out, int flag, int which)
   if (flag == FORWARD || inout_layout_same) {
     if (which == 1) {
       if (remap_prefast) remap(in,out,remap_prefast);
-      else if (in != out) memcpy(out,in,insize*sizeof(FFT_SCALAR));
+      else if (in != out) memcpy(out,in,2*(size_t) insize*sizeof(FFT_SCALAR));
     } else if (which == 2) {
       if (remap_fastslow) remap(in,out,remap_fastslow);
     } else if (which == 3) {
@@ -646,7 +646,7 @@ void FFT2d::only_one_remap(FFT_SCALAR *in, FFT_SCALAR *out, int flag, int which)
   } else {
     if (which == 3) {
       if (remap_preslow) remap(in,out,remap_preslow);
-      else if (in != out) memcpy(out,in,outsize*sizeof(FFT_SCALAR));
+      else if (in != out) memcpy(out,in,2*(size_t) outsize*sizeof(FFT_SCALAR));
     } else if (which == 2) {
       if (remap_slowfast) remap(in,out,remap_slowfast);
     } else if (which == 1) {
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index 9a6590a..f7e3d0d 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -567,7 +567,7 @@ void FFT3d::compute(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   if (flag == FORWARD || inout_layout_same) {
 
     if (remap_prefast) remap(in,out,remap_prefast);
-    else if (in != out) memcpy(out,in,insize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,2*(size_t) insize*sizeof(FFT_SCALAR));
 
     if (remaponly) {
       if (remap_fastmid) remap(data,data,remap_fastmid);
@@ -585,7 +585,7 @@ void FFT3d::compute(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   } else {
 
     if (remap_preslow) remap(in,out,remap_preslow);
-    else if (in != out) memcpy(out,in,outsize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,2*(size_t) outsize*sizeof(FFT_SCALAR));
 
     if (remaponly) {
       if (remap_slowmid) remap(data,data,remap_slowmid);
@@ -641,7 +641,7 @@ void FFT3d::only_remaps(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   if (flag == FORWARD || inout_layout_same) {
 
     if (remap_prefast) remap(in,out,remap_prefast);
-    else if (in != out) memcpy(out,in,insize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,2*(size_t) insize*sizeof(FFT_SCALAR));
 
     if (remap_fastmid) remap(data,data,remap_fastmid);
     if (remap_midslow) remap(data,data,remap_midslow);
@@ -651,7 +651,7 @@ void FFT3d::only_remaps(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   } else {
 
     if (remap_preslow) remap(in,out,remap_preslow);
-    else if (in != out) memcpy(out,in,outsize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,2*(size_t) outsize*sizeof(FFT_SCALAR));
 
     if (remap_slowmid) remap(data,data,remap_slowmid);
     if (remap_midfast) remap(data,data,remap_midfast);
@@ -679,7 +679,7 @@ void FFT3d::only_one_remap(FFT_SCALAR *in, FFT_SCALAR *out, int flag, int which)
   if (flag == FORWARD || inout_layout_same) {
     if (which == 1) {
       if (remap_prefast) remap(in,out,remap_prefast);
-      else if (in != out) memcpy(out,in,insize*sizeof(FFT_SCALAR));
+      else if (in != out) memcpy(out,in,2*(size_t) insize*sizeof(FFT_SCALAR));
     } else if (which == 2) {
       if (remap_fastmid) remap(in,out,remap_fastmid);
     } else if (which == 3) {
@@ -691,7 +691,7 @@ void FFT3d::only_one_remap(FFT_SCALAR *in, FFT_SCALAR *out, int flag, int which)
   } else {
     if (which == 4) {
       if (remap_preslow) remap(in,out,remap_preslow);
-      else if (in != out) memcpy(out,in,outsize*sizeof(FFT_SCALAR));
+      else if (in != out) memcpy(out,in,2*(size_t) outsize*sizeof(FFT_SCALAR));
     } else if (which == 3) {
       if (remap_slowmid) remap(in,out,remap_slowmid);
     } else if (which == 2) {
-- 
2.43.0


From 8e28028cb2b6106ba82537e14de2e0e614e9916c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:25 +0000
Subject: [PATCH 03/25] fix: final remap of out-of-place backward FFT must
 operate on transformed data

---
 src/fft2d.cpp | 2 +-
 src/fft3d.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index a701d8d..6c47afd 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -558,7 +558,7 @@ void FFT2d::compute(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
       perform_ffts((FFT_DATA *) data,flag,fft_fast);
     }
 
-    if (remap_postfast) remap(in,out,remap_postfast);
+    if (remap_postfast) remap(data,data,remap_postfast);
   }
 
   if (flag == BACKWARD && scaled && !remaponly) scale_ffts((FFT_DATA *) data);
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index f7e3d0d..e9a05cf 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -598,7 +598,7 @@ void FFT3d::compute(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
       perform_ffts((FFT_DATA *) data,flag,fft_fast);
     }
 
-    if (remap_postfast) remap(in,out,remap_postfast);
+    if (remap_postfast) remap(data,data,remap_postfast);
   }
 
   if (flag == BACKWARD && scaled && !remaponly) scale_ffts((FFT_DATA *) data);
-- 
2.43.0


From c2287fd57ac3dd1ec2bf066fda15da1735aef7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:25 +0000
Subject: [PATCH 04/25] fix: second stage of two-stage remap must operate on
 output of first stage

---
 src/fft2d.cpp | 2 +-
 src/fft3d.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index 6c47afd..6ba0d1e 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -1056,7 +1056,7 @@ void FFT2d::remap(FFT_SCALAR *in, FFT_SCALAR *out, Remap *remap)
 {
   remap->remap2d->remap(in,out,sendbuf,recvbuf);
   if (remap->remap2d_extra) 
-    remap->remap2d_extra->remap(in,out,sendbuf,recvbuf);
+    remap->remap2d_extra->remap(out,out,sendbuf,recvbuf);
 }
 
 /* ----------------------------------------------------------------------
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index e9a05cf..4aa591e 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -1117,7 +1117,7 @@ void FFT3d::remap(FFT_SCALAR *in, FFT_SCALAR *out, Remap *remap)
 {
   remap->remap3d->remap(in,out,sendbuf,recvbuf);
   if (remap->remap3d_extra) 
-    remap->remap3d_extra->remap(in,out,sendbuf,recvbuf);
+    remap->remap3d_extra->remap(out,out,sendbuf,recvbuf);
 }
 
 /* ----------------------------------------------------------------------
-- 
2.43.0


From c0a89686404472b95092fb2ec80defb93f79c4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:25 +0000
Subject: [PATCH 05/25] fix: 2d memcpy pack/unpack must copy PACK_DATA sized
 elements

---
 src/pack2d.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pack2d.h b/src/pack2d.h
index d296efc..433d0ef 100644
--- a/src/pack2d.h
+++ b/src/pack2d.h
@@ -322,7 +322,7 @@ static void pack_2d_memcpy(PACK_DATA *data, PACK_DATA *buf,
   nslow = plan->nslow;
   nstride = plan->nstride;
 
-  size = nfast*sizeof(double);
+  size = nfast*sizeof(PACK_DATA);
   for (slow = 0; slow < nslow; slow++) {
     in = &(buf[slow*nfast]);
     out = &(data[slow*nstride]);
@@ -346,7 +346,7 @@ static void unpack_2d_memcpy(PACK_DATA *buf, PACK_DATA *data,
   nslow = plan->nslow;
   nstride = plan->nstride;
 
-  size = nfast*sizeof(double);
+  size = nfast*sizeof(PACK_DATA);
   for (slow = 0; slow < nslow; slow++) {
     in = &(data[slow*nstride]);
     out = &(buf[slow*nfast]);
-- 
2.43.0


From 24ed5dc2e3903ecdd06103de4f8d8730a86bb8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:10 +0000
Subject: [PATCH 06/25] fix: include brick to fast pencil remap of inverse FFT
 in send/recv buffer sizes

---
 src/fft3d.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index 4aa591e..3a44524 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -1372,6 +1372,8 @@ void FFT3d::remap_inverse_create(int &sendsize, int &recvsize)
       setup(brick_jlo,brick_jhi,brick_klo,brick_khi,brick_ilo,brick_ihi,
             fast_jlo,fast_jhi,fast_klo,fast_khi,fast_ilo,fast_ihi,
             2,2,0,ssize,rsize);
+    sendsize = MAX(sendsize,ssize);
+    recvsize = MAX(recvsize,rsize);
   }
 
   // remap uses I=fast, J=mid, K=slow, b/c current permute=0
-- 
2.43.0


From 489a54f49af784d3e5c5527b3e17ff144011e144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:10 +0000
Subject: [PATCH 07/25] fix: destroying a 2d FFT which was never set up must
 not dereference NULL plans

---
 src/fft2d.cpp | 20 ++------------------
 1 file changed, 2 insertions(+), 18 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index 6ba0d1e..a0a52fc 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -183,24 +183,8 @@ FFT2d::~FFT2d()
   delete [] primes;
   delete [] factors;
 
-  deallocate_remap(remap_prefast);
-  deallocate_remap(remap_fastslow);
-  deallocate_remap(remap_postslow);
-
-  deallocate_remap(remap_preslow);
-  deallocate_remap(remap_slowfast);
-  deallocate_remap(remap_postfast);
-
-  deallocate_ffts();
-  delete fft_fast;
-  delete fft_slow;
-
-  // only deallocated send/recv bufs if allocated internally
-
-  if (memoryflag) {
-    memory->sfree(sendbuf);
-    memory->sfree(recvbuf);
-  }
+  if (setupflag) deallocate_setup();
+  if (memoryflag) deallocate_setup_memory();
 }
 
 /* ----------------------------------------------------------------------
-- 
2.43.0


From fa31fa14b51a4fb84abaf54dcc43a903cd1695e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:10 +0000
Subject: [PATCH 08/25] fix: a second setup of a 2d FFT is an error, as for 3d
 FFTs

---
 src/fft2d.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index a0a52fc..b7657fd 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -218,6 +218,7 @@ void FFT2d::setup(int user_nfast, int user_nslow,
 {
   int flag,allflag;
 
+  if (setupflag) error->all("FFT is already setup");
   setupflag = 1;
 
   // internal copies of input params
-- 
2.43.0


From b683cc0c9f994bc872e38438bc6d9d5902913364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:10 +0000
Subject: [PATCH 09/25] fix: a second setup of a Remap is an error

---
 src/remap2d.cpp | 1 +
 src/remap3d.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/remap2d.cpp b/src/remap2d.cpp
index 92028f2..435f84e 100644
--- a/src/remap2d.cpp
+++ b/src/remap2d.cpp
@@ -176,6 +176,7 @@ void Remap2d::setup(int in_ilo, int in_ihi, int in_jlo, int in_jhi,
   struct extent_2d in,out,overlap;
   struct extent_2d *inarray,*outarray;
 
+  if (setupflag) error->all("Remap is already setup");
   setupflag = 1;
 
   permute = user_permute;
diff --git a/src/remap3d.cpp b/src/remap3d.cpp
index 948056e..7cd266e 100644
--- a/src/remap3d.cpp
+++ b/src/remap3d.cpp
@@ -181,6 +181,7 @@ void Remap3d::setup(int in_ilo, int in_ihi, int in_jlo, int in_jhi,
   struct extent_3d in,out,overlap;
   struct extent_3d *inarray,*outarray;
 
+  if (setupflag) error->all("Remap is already setup");
   setupflag = 1;
 
   permute = user_permute;
-- 
2.43.0


From 7fa080267f32527d7d3fbd1f59c162d60a55f385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:10 +0000
Subject: [PATCH 10/25] fix: destroying a Remap which was never set up must not
 use uninitialized members

---
 src/remap2d.cpp | 6 ++++++
 src/remap3d.cpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/remap2d.cpp b/src/remap2d.cpp
index 435f84e..eeb0478 100644
--- a/src/remap2d.cpp
+++ b/src/remap2d.cpp
@@ -90,7 +90,13 @@ Remap2d::Remap2d(MPI_Comm user_comm)
   request = NULL;
   unpackplan = NULL;
 
+  newcomm = MPI_COMM_NULL;
+  pgroup = NULL;
+  sendcnts = senddispls = sendmap = NULL;
+  recvcnts = recvdispls = recvmap = NULL;
+
   memusage = 0;
+  memoryflag = 0;
   sendbuf = recvbuf = NULL;
 
   setupflag = 0;
diff --git a/src/remap3d.cpp b/src/remap3d.cpp
index 7cd266e..d306e32 100644
--- a/src/remap3d.cpp
+++ b/src/remap3d.cpp
@@ -90,7 +90,13 @@ Remap3d::Remap3d(MPI_Comm user_comm)
   request = NULL;
   unpackplan = NULL;
 
+  newcomm = MPI_COMM_NULL;
+  pgroup = NULL;
+  sendcnts = senddispls = sendmap = NULL;
+  recvcnts = recvdispls = recvmap = NULL;
+
   memusage = 0;
+  memoryflag = 0;
   sendbuf = recvbuf = NULL;
 
   setupflag = 0;
-- 
2.43.0


From 9a7c366cd39acf690c1a30427c6b8e280306c5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:10 +0000
Subject: [PATCH 11/25] fix: destructors must not use Memory instance after
 deleting it

---
 src/fft2d.cpp   | 6 +++---
 src/fft3d.cpp   | 6 +++---
 src/remap2d.cpp | 6 +++---
 src/remap3d.cpp | 6 +++---
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index b7657fd..46ee7f2 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -177,14 +177,14 @@ FFT2d::FFT2d(MPI_Comm user_comm, int user_precision)
 
 FFT2d::~FFT2d()
 {
-  delete memory;
-  delete error;
-
   delete [] primes;
   delete [] factors;
 
   if (setupflag) deallocate_setup();
   if (memoryflag) deallocate_setup_memory();
+
+  delete memory;
+  delete error;
 }
 
 /* ----------------------------------------------------------------------
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index 3a44524..c2da479 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -183,14 +183,14 @@ FFT3d::FFT3d(MPI_Comm user_comm, int user_precision)
 
 FFT3d::~FFT3d()
 {
-  delete memory;
-  delete error;
-
   delete [] primes;
   delete [] factors;
 
   if (setupflag) deallocate_setup();
   if (memoryflag) deallocate_setup_memory();
+
+  delete memory;
+  delete error;
 }
 
 /* ----------------------------------------------------------------------
diff --git a/src/remap2d.cpp b/src/remap2d.cpp
index eeb0478..28b5b9d 100644
--- a/src/remap2d.cpp
+++ b/src/remap2d.cpp
@@ -108,9 +108,6 @@ Remap2d::Remap2d(MPI_Comm user_comm)
 
 Remap2d::~Remap2d()
 {
-  delete memory;
-  delete error;
-
   // free new MPI communicator for collective comm
 
   if (collective) {
@@ -150,6 +147,9 @@ Remap2d::~Remap2d()
     memory->sfree(sendbuf);
     memory->sfree(recvbuf);
   }
+
+  delete memory;
+  delete error;
 }
 
 /* ----------------------------------------------------------------------
diff --git a/src/remap3d.cpp b/src/remap3d.cpp
index d306e32..89e720f 100644
--- a/src/remap3d.cpp
+++ b/src/remap3d.cpp
@@ -108,9 +108,6 @@ Remap3d::Remap3d(MPI_Comm user_comm)
 
 Remap3d::~Remap3d()
 {
-  delete memory;
-  delete error;
-
   // free new MPI communicator for collective comm
 
   if (collective) {
@@ -150,6 +147,9 @@ Remap3d::~Remap3d()
     memory->sfree(sendbuf);
     memory->sfree(recvbuf);
   }
+
+  delete memory;
+  delete error;
 }
 
 /* ----------------------------------------------------------------------
-- 
2.43.0


From 2683cae9c28162a4f8157d164b3c2e0a3ee37100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:10 +0000
Subject: [PATCH 12/25] fix: changing collective after setup of a Remap must
 have no effect

---
 src/remap2d.cpp | 8 +++++---
 src/remap2d.h   | 1 +
 src/remap3d.cpp | 8 +++++---
 src/remap3d.h   | 1 +
 4 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/remap2d.cpp b/src/remap2d.cpp
index 28b5b9d..0ca3726 100644
--- a/src/remap2d.cpp
+++ b/src/remap2d.cpp
@@ -97,6 +97,7 @@ Remap2d::Remap2d(MPI_Comm user_comm)
 
   memusage = 0;
   memoryflag = 0;
+  collective_setup = 0;
   sendbuf = recvbuf = NULL;
 
   setupflag = 0;
@@ -110,7 +111,7 @@ Remap2d::~Remap2d()
 {
   // free new MPI communicator for collective comm
 
-  if (collective) {
+  if (collective_setup) {
     if (newcomm != MPI_COMM_NULL) MPI_Comm_free(&newcomm);
     memory->sfree(pgroup);
   }
@@ -132,7 +133,7 @@ Remap2d::~Remap2d()
 
   // free internal arrays for collective commm
     
-  if (collective) {
+  if (collective_setup) {
     memory->sfree(sendcnts);
     memory->sfree(recvcnts);
     memory->sfree(senddispls);
@@ -187,6 +188,7 @@ void Remap2d::setup(int in_ilo, int in_ihi, int in_jlo, int in_jhi,
 
   permute = user_permute;
   memoryflag = user_memoryflag;
+  collective_setup = collective;
 
   // store parameters in local data structs
 
@@ -600,7 +602,7 @@ void Remap2d::remap(FFT_SCALAR *in, FFT_SCALAR *out,
 
   // point-to-point remap communication
 
-  if (!collective) {
+  if (!collective_setup) {
 
     // post all recvs into scratch space
 
diff --git a/src/remap2d.h b/src/remap2d.h
index 52a3c57..e2d9014 100644
--- a/src/remap2d.h
+++ b/src/remap2d.h
@@ -46,6 +46,7 @@ class Remap2d {
 
   int permute;                      // permutation setting = 0,1
   int memoryflag;                   // 0 = user-provided bufs, 1 = internal
+  int collective_setup;             // collective setting when setup() was called
 
   // point to point communication
 
diff --git a/src/remap3d.cpp b/src/remap3d.cpp
index 89e720f..b3b6a18 100644
--- a/src/remap3d.cpp
+++ b/src/remap3d.cpp
@@ -97,6 +97,7 @@ Remap3d::Remap3d(MPI_Comm user_comm)
 
   memusage = 0;
   memoryflag = 0;
+  collective_setup = 0;
   sendbuf = recvbuf = NULL;
 
   setupflag = 0;
@@ -110,7 +111,7 @@ Remap3d::~Remap3d()
 {
   // free new MPI communicator for collective comm
 
-  if (collective) {
+  if (collective_setup) {
     if (newcomm != MPI_COMM_NULL) MPI_Comm_free(&newcomm);
     memory->sfree(pgroup);
   }
@@ -132,7 +133,7 @@ Remap3d::~Remap3d()
 
   // free internal arrays for collective commm
     
-  if (collective) {
+  if (collective_setup) {
     memory->sfree(sendcnts);
     memory->sfree(recvcnts);
     memory->sfree(senddispls);
@@ -192,6 +193,7 @@ void Remap3d::setup(int in_ilo, int in_ihi, int in_jlo, int in_jhi,
 
   permute = user_permute;
   memoryflag = user_memoryflag;
+  collective_setup = collective;
 
   // store parameters in local data structs
 
@@ -647,7 +649,7 @@ void Remap3d::remap(FFT_SCALAR *in, FFT_SCALAR *out,
 
   // point-to-point remap communication
 
-  if (!collective) {
+  if (!collective_setup) {
 
     // post all recvs into scratch space
 
diff --git a/src/remap3d.h b/src/remap3d.h
index afc58d8..1fd3397 100644
--- a/src/remap3d.h
+++ b/src/remap3d.h
@@ -47,6 +47,7 @@ class Remap3d {
 
   int permute;                      // permutation setting = 0,1,2
   int memoryflag;                   // 0 = user-provided bufs, 1 = internal
+  int collective_setup;             // collective setting when setup() was called
 
   // point to point communication
 
-- 
2.43.0


From c2fb694e3970f9b9ef45ddca8d4ef208d2a75a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:11 +0000
Subject: [PATCH 13/25] fix: changing memoryflag after setup of an FFT must
 have no effect

---
 src/fft2d.cpp | 7 +++++--
 src/fft2d.h   | 1 +
 src/fft3d.cpp | 7 +++++--
 src/fft3d.h   | 1 +
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index 46ee7f2..58e2e17 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -169,6 +169,7 @@ FFT2d::FFT2d(MPI_Comm user_comm, int user_precision)
 
   setupflag = 0;
   setup_memory_flag = 0;
+  memory_internal = 0;
 }
 
 /* ----------------------------------------------------------------------
@@ -181,7 +182,7 @@ FFT2d::~FFT2d()
   delete [] factors;
 
   if (setupflag) deallocate_setup();
-  if (memoryflag) deallocate_setup_memory();
+  if (memory_internal) deallocate_setup_memory();
 
   delete memory;
   delete error;
@@ -220,6 +221,7 @@ void FFT2d::setup(int user_nfast, int user_nslow,
 
   if (setupflag) error->all("FFT is already setup");
   setupflag = 1;
+  memory_internal = memoryflag;
 
   // internal copies of input params
 
@@ -481,7 +483,8 @@ void FFT2d::deallocate_setup()
 void FFT2d::setup_memory(FFT_SCALAR *user_sendbuf, FFT_SCALAR *user_recvbuf)
 {
   if (!setupflag) error->all("Cannot setup FFT memory before setup");
-  if (memoryflag) error-> all("Cannot setup FFT memory with memoryflag set");
+  if (memory_internal)
+    error->all("Cannot setup FFT memory with memoryflag set");
 
   setup_memory_flag = 1;
   sendbuf = user_sendbuf;
diff --git a/src/fft2d.h b/src/fft2d.h
index 411da1f..fca32a2 100644
--- a/src/fft2d.h
+++ b/src/fft2d.h
@@ -63,6 +63,7 @@ class FFT2d {
   MPI_Comm world;
   int me,nprocs;
   int setupflag,setup_memory_flag;
+  int memory_internal;              // memoryflag setting when setup() was called
 
   class Memory *memory;
   class Error *error;
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index c2da479..6b8b868 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -175,6 +175,7 @@ FFT3d::FFT3d(MPI_Comm user_comm, int user_precision)
 
   setupflag = 0;
   setup_memory_flag = 0;
+  memory_internal = 0;
 }
 
 /* ----------------------------------------------------------------------
@@ -187,7 +188,7 @@ FFT3d::~FFT3d()
   delete [] factors;
 
   if (setupflag) deallocate_setup();
-  if (memoryflag) deallocate_setup_memory();
+  if (memory_internal) deallocate_setup_memory();
 
   delete memory;
   delete error;
@@ -228,6 +229,7 @@ void FFT3d::setup(int user_nfast, int user_nmid, int user_nslow,
 
   if (setupflag) error->all("FFT is already setup");
   setupflag = 1;
+  memory_internal = memoryflag;
 
   // internal copies of input params
 
@@ -530,7 +532,8 @@ void FFT3d::deallocate_setup()
 void FFT3d::setup_memory(FFT_SCALAR *user_sendbuf, FFT_SCALAR *user_recvbuf)
 {
   if (!setupflag) error->all("Cannot setup FFT memory before setup");
-  if (memoryflag) error-> all("Cannot setup FFT memory with memoryflag set");
+  if (memory_internal)
+    error->all("Cannot setup FFT memory with memoryflag set");
 
   setup_memory_flag = 1;
   sendbuf = user_sendbuf;
diff --git a/src/fft3d.h b/src/fft3d.h
index 17ba5ee..2bc829b 100644
--- a/src/fft3d.h
+++ b/src/fft3d.h
@@ -68,6 +68,7 @@ class FFT3d {
  private:
   int me,nprocs;
   int setupflag,setup_memory_flag;
+  int memory_internal;              // memoryflag setting when setup() was called
 
   class Memory *memory;
   class Error *error;
-- 
2.43.0


From a0d31311a1f9be5f4dfccd8a8ca9c7e6ef35b58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:11 +0000
Subject: [PATCH 14/25] fix: all procs must choose same settings in tune, so
 use same timings on all procs

---
 src/fft2d.cpp | 4 ++++
 src/fft3d.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index 58e2e17..25b988b 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -976,6 +976,10 @@ void FFT2d::tune_trial(FFT_SCALAR *data, int nper, int flag, int tflag,
   time2 = MPI_Wtime();
   time2d = time2-time1;
 
+  // insure all procs use exact same FFT time to choose best settings
+
+  MPI_Bcast(&time2d,1,MPI_DOUBLE,0,world);
+
   if (tflag) {
     if (flag)
       for (int i = 0; i < nper; i++)
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index 6b8b868..4644990 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -1050,6 +1050,10 @@ void FFT3d::tune_trial(FFT_SCALAR *data, int nper, int flag, int tflag,
   time2 = MPI_Wtime();
   time3d = time2-time1;
 
+  // insure all procs use exact same FFT time to choose best settings
+
+  MPI_Bcast(&time3d,1,MPI_DOUBLE,0,world);
+
   if (tflag) {
     if (flag)
       for (int i = 0; i < nper; i++)
-- 
2.43.0


From f1d93af6841a485846ce282d70326322c9735910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:11 +0000
Subject: [PATCH 15/25] fix: initialize tuning results when FFT is created

---
 src/fft2d.cpp | 6 ++++++
 src/fft3d.cpp | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index 25b988b..73b3068 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -130,6 +130,12 @@ FFT2d::FFT2d(MPI_Comm user_comm, int user_precision)
   scaled = 1;
   remaponly = 0;
 
+  // tuning results
+
+  ntrial = npertrial = 0;
+  cbest = ebest = pbest = -1;
+  besttime = setuptime = 0.0;
+
   // Memory and Error classes
 
   memory = new Memory();
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index 4644990..5fd5108 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -134,7 +134,7 @@ FFT3d::FFT3d(MPI_Comm user_comm, int user_precision)
 
   ntrial = npertrial = 0;
   cbest = ebest = pbest = -1;
-  besttime = 0.0;
+  besttime = setuptime = 0.0;
 
   // Memory and Error classes
 
-- 
2.43.0


From af473d77f7290048403e8add311a5ea231865723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:11 +0000
Subject: [PATCH 16/25] fix: use documented default of packflag

---
 src/fft2d.cpp   | 4 ++--
 src/remap2d.cpp | 4 ++--
 src/remap3d.cpp | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index 73b3068..a099414 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -85,7 +85,7 @@ typedef int64_t bigint;
        style of data exchanges
        0 = pencil to pencil
        1 = brick to pencil and pencil to brick
-     packflag = 0/1/2 (default = 0)
+     packflag = 0/1/2 (default = 2)
        style of pack/unpack methods for remapping data
        0 = array
        1 = pointer
@@ -121,7 +121,7 @@ FFT2d::FFT2d(MPI_Comm user_comm, int user_precision)
 
   collective = 2;
   exchange = 0;
-  packflag = 0;
+  packflag = 2;
   memoryflag = 1;
 
   // default settings
diff --git a/src/remap2d.cpp b/src/remap2d.cpp
index 0ca3726..dd2d7b9 100644
--- a/src/remap2d.cpp
+++ b/src/remap2d.cpp
@@ -52,7 +52,7 @@ using namespace FFTMPI_NS;
        collective MPI operations for remapping data
        0 = point to point comm
        1 = MPI all2all
-     packflag = 0/1/2 (default = 0)
+     packflag = 0/1/2 (default = 2)
        style of pack/unpack methods
        0 = array
        1 = pointer
@@ -74,7 +74,7 @@ Remap2d::Remap2d(MPI_Comm user_comm)
   // user can change them before setup()
 
   collective = 1;
-  packflag = 0;
+  packflag = 2;
 
   // Memory and Error classes
 
diff --git a/src/remap3d.cpp b/src/remap3d.cpp
index b3b6a18..cdf9e2f 100644
--- a/src/remap3d.cpp
+++ b/src/remap3d.cpp
@@ -38,7 +38,7 @@ using namespace FFTMPI_NS;
        collective MPI operations for remapping data
        0 = point to point comm
        1 = MPI all2all
-     packflag = 0/1/2 (default = 0)
+     packflag = 0/1/2 (default = 2)
        style of pack/unpack methods
        0 = array
        1 = pointer
@@ -74,7 +74,7 @@ Remap3d::Remap3d(MPI_Comm user_comm)
   // user can change them before setup()
 
   collective = 1;
-  packflag = 0;
+  packflag = 2;
 
   // Memory and Error classes
 
-- 
2.43.0


From 4af47c2d9722accde9c2635389d2ebea9be7f3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:11 +0000
Subject: [PATCH 17/25] fix: setup must also check output indices and output
 tiling

---
 src/fft2d.cpp |  9 +++++++++
 src/fft3d.cpp | 10 ++++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index a099414..d7ed971 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -256,6 +256,9 @@ void FFT2d::setup(int user_nfast, int user_nslow,
   if (in_ilo > in_ihi+1 || in_jlo > in_jhi+1) flag = 1;
   if (in_ilo < 0 || in_jlo < 0) flag = 1;
   if (in_ihi >= nfast || in_jhi >= nslow) flag = 1;
+  if (out_ilo > out_ihi+1 || out_jlo > out_jhi+1) flag = 1;
+  if (out_ilo < 0 || out_jlo < 0) flag = 1;
+  if (out_ihi >= nfast || out_jhi >= nslow) flag = 1;
 
   MPI_Allreduce(&flag,&allflag,1,MPI_INT,MPI_MAX,world);
 
@@ -265,6 +268,12 @@ void FFT2d::setup(int user_nfast, int user_nslow,
   bigint nall;
   MPI_Allreduce(&n,&nall,1,MPI_FFT_BIGINT,MPI_SUM,world);
 
+  if (nall != ((bigint) nfast * nslow))
+    error->all("FFT setup in/out indices do not tile grid");
+
+  n = (bigint) (out_ihi-out_ilo+1) * (out_jhi-out_jlo+1);
+  MPI_Allreduce(&n,&nall,1,MPI_FFT_BIGINT,MPI_SUM,world);
+
   if (nall != ((bigint) nfast * nslow))
     error->all("FFT setup in/out indices do not tile grid");
 
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index 5fd5108..3305424 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -262,6 +262,10 @@ void FFT3d::setup(int user_nfast, int user_nmid, int user_nslow,
   if (in_ilo > in_ihi+1 || in_jlo > in_jhi+1 || in_klo > in_khi+1) flag = 1;
   if (in_ilo < 0 || in_jlo < 0 || in_klo < 0) flag = 1;
   if (in_ihi >= nfast || in_jhi >= nmid || in_khi >= nslow) flag = 1;
+  if (out_ilo > out_ihi+1 || out_jlo > out_jhi+1 || out_klo > out_khi+1)
+    flag = 1;
+  if (out_ilo < 0 || out_jlo < 0 || out_klo < 0) flag = 1;
+  if (out_ihi >= nfast || out_jhi >= nmid || out_khi >= nslow) flag = 1;
 
   MPI_Allreduce(&flag,&allflag,1,MPI_INT,MPI_MAX,world);
 
@@ -271,6 +275,12 @@ void FFT3d::setup(int user_nfast, int user_nmid, int user_nslow,
   bigint nall;
   MPI_Allreduce(&n,&nall,1,MPI_FFT_BIGINT,MPI_SUM,world);
 
+  if (nall != ((bigint) nfast * nmid*nslow))
+    error->all("FFT setup in/out indices do not tile grid");
+
+  n = (bigint) (out_ihi-out_ilo+1) * (out_jhi-out_jlo+1) * (out_khi-out_klo+1);
+  MPI_Allreduce(&n,&nall,1,MPI_FFT_BIGINT,MPI_SUM,world);
+
   if (nall != ((bigint) nfast * nmid*nslow))
     error->all("FFT setup in/out indices do not tile grid");
 
-- 
2.43.0


From a09554b80a3f13efe43fe6a9c404c0a48e2fbeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:11 +0000
Subject: [PATCH 18/25] fix: setup must reject invalid permute values

---
 src/fft2d.cpp | 2 ++
 src/fft3d.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index d7ed971..dbda614 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -250,6 +250,8 @@ void FFT2d::setup(int user_nfast, int user_nslow,
   if (!prime_factorable(nfast)) error->all("Invalid nfast");
   if (!prime_factorable(nslow)) error->all("Invalid nslow");
 
+  if (permute < 0 || permute > 1) error->all("Invalid permute setting");
+
   // error checks in indices and tiling
 
   flag = 0;
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index 3305424..2d69803 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -256,6 +256,8 @@ void FFT3d::setup(int user_nfast, int user_nmid, int user_nslow,
   if (!prime_factorable(nmid)) error->all("Invalid nmid");
   if (!prime_factorable(nslow)) error->all("Invalid nslow");
 
+  if (permute < 0 || permute > 2) error->all("Invalid permute setting");
+
   // error checks in indices and tiling
 
   flag = 0;
-- 
2.43.0


From db4dc327fa26e8ed8d6d4f6ab2bff3b9aaf415f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:11 +0000
Subject: [PATCH 19/25] fix: report failed allocations in tune and collective
 Remap setup

---
 src/fft2d.cpp   | 3 +++
 src/fft3d.cpp   | 3 +++
 src/remap2d.cpp | 3 +++
 src/remap3d.cpp | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index dbda614..366d86c 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -730,6 +730,7 @@ void FFT2d::tune(int user_nfast, int user_nslow,
   if (user_fftsize > maxfftsize) {
     data = (FFT_SCALAR *) 
       memory->srealloc(data,user_fftsize*2*sizeof(FFT_SCALAR));
+    if (!data) error->one("Could not allocate tune data array");
     for (int i = 2*maxfftsize; i < 2*user_fftsize; i++) data[i] = 0.0;
     maxfftsize = user_fftsize;
   }
@@ -858,6 +859,7 @@ void FFT2d::tune(int user_nfast, int user_nslow,
         if (user_fftsize > maxfftsize) {
           data = (FFT_SCALAR *) 
             memory->srealloc(data,user_fftsize*2*sizeof(FFT_SCALAR));
+          if (!data) error->one("Could not allocate tune data array");
           for (int i = 2*maxfftsize; i < 2*user_fftsize; i++) data[i] = 0.0;
           maxfftsize = user_fftsize;
         }
@@ -898,6 +900,7 @@ void FFT2d::tune(int user_nfast, int user_nslow,
       if (user_fftsize > maxfftsize) {
         data = (FFT_SCALAR *) 
           memory->srealloc(data,user_fftsize*2*sizeof(FFT_SCALAR));
+        if (!data) error->one("Could not allocate tune data array");
         for (int i = 2*maxfftsize; i < 2*user_fftsize; i++) data[i] = 0.0;
         maxfftsize = user_fftsize;
       }
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index 2d69803..3a9a3a2 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -789,6 +789,7 @@ void FFT3d::tune(int user_nfast, int user_nmid, int user_nslow,
   if (user_fftsize > maxfftsize) {
     data = (FFT_SCALAR *) 
       memory->srealloc(data,user_fftsize*2*sizeof(FFT_SCALAR));
+    if (!data) error->one("Could not allocate tune data array");
     for (int i = 2*maxfftsize; i < 2*user_fftsize; i++) data[i] = 0.0;
     maxfftsize = user_fftsize;
   }
@@ -919,6 +920,7 @@ void FFT3d::tune(int user_nfast, int user_nmid, int user_nslow,
         if (user_fftsize > maxfftsize) {
           data = (FFT_SCALAR *) 
             memory->srealloc(data,user_fftsize*2*sizeof(FFT_SCALAR));
+          if (!data) error->one("Could not allocate tune data array");
           for (int i = 2*maxfftsize; i < 2*user_fftsize; i++) data[i] = 0.0;
           maxfftsize = user_fftsize;
         }
@@ -962,6 +964,7 @@ void FFT3d::tune(int user_nfast, int user_nmid, int user_nslow,
       if (user_fftsize > maxfftsize) {
         data = (FFT_SCALAR *) 
           memory->srealloc(data,user_fftsize*2*sizeof(FFT_SCALAR));
+        if (!data) error->one("Could not allocate tune data array");
         for (int i = 2*maxfftsize; i < 2*user_fftsize; i++) data[i] = 0.0;
         maxfftsize = user_fftsize;
       }
diff --git a/src/remap2d.cpp b/src/remap2d.cpp
index dd2d7b9..c8eab96 100644
--- a/src/remap2d.cpp
+++ b/src/remap2d.cpp
@@ -398,9 +398,11 @@ void Remap2d::setup(int in_ilo, int in_ihi, int in_jlo, int in_jhi,
     // allocate pgroup as large as all procs
 
     int *pflag = (int *) memory->smalloc(nprocs*sizeof(int));
+    if (!pflag) error->one("Could not allocate pflag array");
     for (i = 0; i < nprocs; i++) pflag[i] = 0;
 
     pgroup = (int *) memory->smalloc(nprocs*sizeof(int));
+    if (!pgroup) error->one("Could not allocate pgroup array");
     ngroup = 0;
 
     // add procs to pgroup that I send to and recv from, including self
@@ -453,6 +455,7 @@ void Remap2d::setup(int in_ilo, int in_ihi, int in_jlo, int in_jhi,
     // recreate sorted pgroup from pflag
 
     pgroup = (int *) memory->srealloc(pgroup,ngroup*sizeof(int));
+    if (ngroup && !pgroup) error->one("Could not allocate pgroup array");
 
     ngroup = 0;
     for (i = 0; i < nprocs; i++) 
diff --git a/src/remap3d.cpp b/src/remap3d.cpp
index cdf9e2f..dfd714c 100644
--- a/src/remap3d.cpp
+++ b/src/remap3d.cpp
@@ -445,9 +445,11 @@ void Remap3d::setup(int in_ilo, int in_ihi, int in_jlo, int in_jhi,
     // allocate pgroup as large as all procs
 
     int *pflag = (int *) memory->smalloc(nprocs*sizeof(int));
+    if (!pflag) error->one("Could not allocate pflag array");
     for (i = 0; i < nprocs; i++) pflag[i] = 0;
 
     pgroup = (int *) memory->smalloc(nprocs*sizeof(int));
+    if (!pgroup) error->one("Could not allocate pgroup array");
     ngroup = 0;
 
     // add procs to pgroup that I send to and recv from, including self
@@ -500,6 +502,7 @@ void Remap3d::setup(int in_ilo, int in_ihi, int in_jlo, int in_jhi,
     // recreate sorted pgroup from pflag
 
     pgroup = (int *) memory->srealloc(pgroup,ngroup*sizeof(int));
+    if (ngroup && !pgroup) error->one("Could not allocate pgroup array");
 
     ngroup = 0;
     for (i = 0; i < nprocs; i++) 
-- 
2.43.0


From aa0ccdb082259b9b8d65d615230f38b2c61fbad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:25 +0000
Subject: [PATCH 20/25] fix: pass user buffers by value in Fortran interface of
 setup_memory

---
 src/fft2d_wrap.f90 | 2 +-
 src/fft3d_wrap.f90 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fft2d_wrap.f90 b/src/fft2d_wrap.f90
index afe43d9..b7a1494 100644
--- a/src/fft2d_wrap.f90
+++ b/src/fft2d_wrap.f90
@@ -99,7 +99,7 @@ interface
   subroutine fft2d_setup_memory(ptr,sendbuf,recvbuf) bind(c)
     use iso_c_binding
     type(c_ptr), value :: ptr
-    type(c_ptr) :: sendbuf,recvbuf
+    type(c_ptr), value :: sendbuf,recvbuf
   end subroutine fft2d_setup_memory
 
   subroutine fft2d_compute(ptr,in,out,flag) bind(c)
diff --git a/src/fft3d_wrap.f90 b/src/fft3d_wrap.f90
index f6ccc2a..f80082a 100644
--- a/src/fft3d_wrap.f90
+++ b/src/fft3d_wrap.f90
@@ -99,7 +99,7 @@ interface
   subroutine fft3d_setup_memory(ptr,sendbuf,recvbuf) bind(c)
     use iso_c_binding
     type(c_ptr), value :: ptr
-    type(c_ptr) :: sendbuf,recvbuf
+    type(c_ptr), value :: sendbuf,recvbuf
   end subroutine fft3d_setup_memory
 
   subroutine fft3d_compute(ptr,in,out,flag) bind(c)
-- 
2.43.0


From 5c7f554066f685b484c0df35967a21068cfa1fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:25 +0000
Subject: [PATCH 21/25] fix: Python setup_memory must pass the caller's buffers

---
 src/fftmpi.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/fftmpi.py b/src/fftmpi.py
index 4b7a2d4..c36ff1f 100644
--- a/src/fftmpi.py
+++ b/src/fftmpi.py
@@ -210,11 +210,11 @@ class FFT3dMPI:
       sys.exit()
       
     if self.precision == 1:
-      csendbuf = csendbuf.ctypes.data_as(POINTER(c_float))
-      crecvbuf = crecvbuf.ctypes.data_as(POINTER(c_float))
+      csendbuf = sendbuf.ctypes.data_as(POINTER(c_float))
+      crecvbuf = recvbuf.ctypes.data_as(POINTER(c_float))
     else:
-      csendbuf = csendbuf.ctypes.data_as(POINTER(c_double))
-      crecvbuf = crecvbuf.ctypes.data_as(POINTER(c_double))
+      csendbuf = sendbuf.ctypes.data_as(POINTER(c_double))
+      crecvbuf = recvbuf.ctypes.data_as(POINTER(c_double))
       
     self.lib.fft3d_setup_memory(self.fft,csendbuf,crecvbuf)
       
@@ -464,11 +464,11 @@ class FFT2dMPI:
       sys.exit()
       
     if self.precision == 1:
-      csendbuf = csendbuf.ctypes.data_as(POINTER(c_float))
-      crecvbuf = crecvbuf.ctypes.data_as(POINTER(c_float))
+      csendbuf = sendbuf.ctypes.data_as(POINTER(c_float))
+      crecvbuf = recvbuf.ctypes.data_as(POINTER(c_float))
     else:
-      csendbuf = csendbuf.ctypes.data_as(POINTER(c_double))
-      crecvbuf = crecvbuf.ctypes.data_as(POINTER(c_double))
+      csendbuf = sendbuf.ctypes.data_as(POINTER(c_double))
+      crecvbuf = recvbuf.ctypes.data_as(POINTER(c_double))
       
     self.lib.fft2d_setup_memory(self.fft,csendbuf,crecvbuf)
       
-- 
2.43.0


From e5d0737d5d72552c3d527c6b1257601f256dd4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:25 +0000
Subject: [PATCH 22/25] fix: Python Remap classes must match C interface of
 Remaps

---
 src/fftmpi.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/fftmpi.py b/src/fftmpi.py
index c36ff1f..7c57769 100644
--- a/src/fftmpi.py
+++ b/src/fftmpi.py
@@ -574,7 +574,7 @@ class Remap3dMPI:
     if mpi4pyflag and MPI._sizeof(comm) == sizeof(c_int): MPI_Comm = c_int
     else: MPI_Comm = c_void_p
 
-    self.lib.remap3d_create.argtypes = [MPI_Comm,c_int,POINTER(c_void_p)]
+    self.lib.remap3d_create.argtypes = [MPI_Comm,POINTER(c_void_p)]
     self.lib.remap3d_create.restype = None
 
     self.lib.remap3d_destroy.argtypes = [c_void_p]
@@ -586,7 +586,7 @@ class Remap3dMPI:
     self.lib.remap3d_setup.argtypes = \
       [c_void_p,c_int,c_int,c_int,c_int,c_int,c_int,
        c_int,c_int,c_int,c_int,c_int,c_int,
-       c_int,c_int,c_int,POINTER(c_int)]
+       c_int,c_int,c_int,POINTER(c_int),POINTER(c_int)]
     self.lib.remap3d_setup.restype = None
     
     if precision == 1:
@@ -597,14 +597,14 @@ class Remap3dMPI:
       self.lib.remap3d_remap.argtypes = \
         [c_void_p,POINTER(c_double),POINTER(c_double),
            POINTER(c_double),POINTER(c_double)]
-    self.lib.remap3d_compute.restype = None
+    self.lib.remap3d_remap.restype = None
 
     # create an instance of Remap3d
 
     self.remap = c_void_p()
     comm_ptr = MPI._addressof(comm)
     comm_value = MPI_Comm.from_address(comm_ptr)
-    self.lib.remap3d_create(comm_value,precision,byref(self.remap))
+    self.lib.remap3d_create(comm_value,byref(self.remap))
 
   # destroy instance of Remap3d
   
@@ -623,9 +623,14 @@ class Remap3dMPI:
   def setup(self,in_ilo,in_ihi,in_jlo,in_jhi,in_klo,in_khi,
             out_ilo,out_ihi,out_jlo,out_jhi,out_klo,out_khi,
             nqty,permute,memoryflag):
+    sendsize = c_int()
+    recvsize = c_int()
     self.lib.remap3d_setup(self.remap,in_ilo,in_ihi,in_jlo,in_jhi,in_klo,in_khi,
                            out_ilo,out_ihi,out_jlo,out_jhi,out_klo,out_khi,
-                           nqty,permute,memoryflag,sendsize,recvsize)
+                           nqty,permute,memoryflag,
+                           byref(sendsize),byref(recvsize))
+    sendsize = sendsize.value
+    recvsize = recvsize.value
     return sendsize,recvsize
       
   # remap
@@ -678,7 +683,7 @@ class Remap2dMPI:
     if mpi4pyflag and MPI._sizeof(comm) == sizeof(c_int): MPI_Comm = c_int
     else: MPI_Comm = c_void_p
 
-    self.lib.remap2d_create.argtypes = [MPI_Comm,c_int,POINTER(c_void_p)]
+    self.lib.remap2d_create.argtypes = [MPI_Comm,POINTER(c_void_p)]
     self.lib.remap2d_create.restype = None
 
     self.lib.remap2d_destroy.argtypes = [c_void_p]
@@ -689,7 +694,7 @@ class Remap2dMPI:
     
     self.lib.remap2d_setup.argtypes = \
     [c_void_p,c_int,c_int,c_int,c_int,c_int,c_int,c_int,c_int,
-        c_int,c_int,c_int,POINTER(c_int)]
+        c_int,c_int,c_int,POINTER(c_int),POINTER(c_int)]
     self.lib.remap2d_setup.restype = None
     
     if precision == 1:
@@ -700,14 +705,14 @@ class Remap2dMPI:
       self.lib.remap2d_remap.argtypes = \
         [c_void_p,POINTER(c_double),POINTER(c_double),
          POINTER(c_double),POINTER(c_double)]
-    self.lib.remap2d_compute.restype = None
+    self.lib.remap2d_remap.restype = None
 
     # create an instance of Remap2d
 
     self.remap = c_void_p()
     comm_ptr = MPI._addressof(comm)
     comm_value = MPI_Comm.from_address(comm_ptr)
-    self.lib.remap2d_create(comm_value,precision,byref(self.remap))
+    self.lib.remap2d_create(comm_value,byref(self.remap))
 
   # destroy instance of Remap2d
   
@@ -725,9 +730,14 @@ class Remap2dMPI:
 
   def setup(self,in_ilo,in_ihi,in_jlo,in_jhi,
             out_ilo,out_ihi,out_jlo,out_jhi,nqty,permute,memoryflag):
+    sendsize = c_int()
+    recvsize = c_int()
     self.lib.remap2d_setup(self.remap,in_ilo,in_ihi,in_jlo,in_jhi,
                            out_ilo,out_ihi,out_jlo,out_jhi,
-                           nqty,permute,memoryflag,sendsize,recvsize)
+                           nqty,permute,memoryflag,
+                           byref(sendsize),byref(recvsize))
+    sendsize = sendsize.value
+    recvsize = recvsize.value
     return sendsize,recvsize
       
   # remap
-- 
2.43.0


From bcc43fac45321fbdc53cbc877dfe7b0aac79a813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:25 +0000
Subject: [PATCH 23/25] fix: declare return type of only_one_remap in Python
 interface

---
 src/fftmpi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fftmpi.py b/src/fftmpi.py
index 7c57769..822e33d 100644
--- a/src/fftmpi.py
+++ b/src/fftmpi.py
@@ -129,7 +129,7 @@ class FFT3dMPI:
     elif precision == 2:
       self.lib.fft3d_only_one_remap.argtypes = \
         [c_void_p,POINTER(c_double),POINTER(c_double),c_int,c_int]
-    self.lib.fft3d_only_remaps.restype = None
+    self.lib.fft3d_only_one_remap.restype = None
 
     self.lib.fft3d_tune.argtypes = \
       [c_void_p,c_int,c_int,c_int,
@@ -386,7 +386,7 @@ class FFT2dMPI:
     elif precision == 2:
       self.lib.fft2d_only_one_remap.argtypes = \
         [c_void_p,POINTER(c_double),POINTER(c_double),c_int,c_int]
-    self.lib.fft2d_only_remaps.restype = None
+    self.lib.fft2d_only_one_remap.restype = None
 
     self.lib.fft2d_tune.argtypes = \
     [c_void_p,c_int,c_int,
-- 
2.43.0


From aa814cfce231bfe49f46db853fabb0011a6794e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:25 +0000
Subject: [PATCH 24/25] fix: Python finalizer must not destroy an already
 destroyed instance

---
 src/fftmpi.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fftmpi.py b/src/fftmpi.py
index 822e33d..59ce7cf 100644
--- a/src/fftmpi.py
+++ b/src/fftmpi.py
@@ -149,7 +149,7 @@ class FFT3dMPI:
   # destroy instance of fftMPI
   
   def __del__(self):
-    self.lib.fft3d_destroy(self.fft)
+    if self.lib: self.lib.fft3d_destroy(self.fft)
 
   def destroy(self):
     self.lib.fft3d_destroy(self.fft)
@@ -405,7 +405,7 @@ class FFT2dMPI:
   # destroy instance of fftMPI
   
   def __del__(self):
-    self.lib.fft2d_destroy(self.fft)
+    if self.lib: self.lib.fft2d_destroy(self.fft)
 
   def destroy(self):
     self.lib.fft2d_destroy(self.fft)
@@ -609,7 +609,7 @@ class Remap3dMPI:
   # destroy instance of Remap3d
   
   def __del__(self):
-    self.lib.remap3d_destroy(self.remap)
+    if self.lib: self.lib.remap3d_destroy(self.remap)
 
   def destroy(self):
     self.lib.remap3d_destroy(self.remap)
@@ -717,7 +717,7 @@ class Remap2dMPI:
   # destroy instance of Remap2d
   
   def __del__(self):
-    self.lib.remap2d_destroy(self.remap)
+    if self.lib: self.lib.remap2d_destroy(self.remap)
 
   def destroy(self):
     self.lib.remap2d_destroy(self.remap)
-- 
2.43.0


From 5455d63af247b0fbebbd37d8a9705faa80e0fd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:50 +0000
Subject: [PATCH 25/25] fix: memcpy pack/unpack must compute byte counts in 64
 bits

---
 src/pack2d.h | 6 ++++--
 src/pack3d.h | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pack2d.h b/src/pack2d.h
index 433d0ef..b12e968 100644
--- a/src/pack2d.h
+++ b/src/pack2d.h
@@ -315,7 +315,8 @@ static void pack_2d_memcpy(PACK_DATA *data, PACK_DATA *buf,
 
 {
   register PACK_DATA *in,*out;
-  register int slow,size;
+  register int slow;
+  size_t size;
   register int nfast,nslow,nstride;
 
   nfast = plan->nfast;
@@ -339,7 +340,8 @@ static void unpack_2d_memcpy(PACK_DATA *buf, PACK_DATA *data,
 
 {
   register PACK_DATA *in,*out;
-  register int slow,size;
+  register int slow;
+  size_t size;
   register int nfast,nslow,nstride;
 
   nfast = plan->nfast;
diff --git a/src/pack3d.h b/src/pack3d.h
index 7884600..1043573 100644
--- a/src/pack3d.h
+++ b/src/pack3d.h
@@ -545,7 +545,8 @@ static void pack_3d_memcpy(PACK_DATA *data, PACK_DATA *buf,
 
 {
   register PACK_DATA *in,*out;
-  register int mid,slow,size;
+  register int mid,slow;
+  size_t size;
   register int nfast,nmid,nslow,nstride_line,nstride_plane,plane,upto;
 
   nfast = plan->nfast;
@@ -575,7 +576,8 @@ static void unpack_3d_memcpy(PACK_DATA *buf, PACK_DATA *data,
 
 {
   register PACK_DATA *in,*out;
-  register int mid,slow,size;
+  register int mid,slow;
+  size_t size;
   register int nfast,nmid,nslow,nstride_line,nstride_plane,plane,upto;
 
   nfast = plan->nfast;
-- 
2.43.0

