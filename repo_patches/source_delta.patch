From 85d39f864f9f27bd7712753cc3dd54cc6661a9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:28 +0000
Subject: [PATCH] hook: let SLALIB_THREAD_SAFE be set from the compiler command
 line

The default stays 0; defining SLALIB_THREAD_SAFE=1 on the command line selects
the multi-threaded configuration the header documents.
---
 src/slalib.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/slalib.h b/src/slalib.h
index 9f59f61..ef07cf6 100644
--- a/src/slalib.h
+++ b/src/slalib.h
@@ -24,7 +24,9 @@
 namespace sla {
 
 /// Set this to a non-zero value if the library is used in a multi-threaded application.
-#define SLALIB_THREAD_SAFE 0
+#ifndef SLALIB_THREAD_SAFE
+  #define SLALIB_THREAD_SAFE 0
+#endif
 
 #if SLALIB_THREAD_SAFE
   #define SLALIB_THREAD_LOCAL thread_local
-- 
2.43.0

