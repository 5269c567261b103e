From 045eb544a2019f0ef0e90a4a94010df52c1fa606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:32 +0000
Subject: [PATCH 1/3] fix: check the whole DTLS record header is present before
 parsing it

A datagram (or datagram tail) shorter than 13 bytes whose first byte looks like
a DTLS 1.3 unified header passed the length check of RecGetReadHeaderLen on a
non-DTLS 1.3 connection and the 13-byte header was then read past its end.
---
 tls/record/src/rec_read.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tls/record/src/rec_read.c b/tls/record/src/rec_read.c
index c15a9ef..0378b6d 100644
--- a/tls/record/src/rec_read.c
+++ b/tls/record/src/rec_read.c
@@ -955,6 +955,11 @@ static int32_t DtlsGetRecordHeader(TLS_Ctx *ctx, const uint8_t *msg, uint32_t le
         return Dtls13GetRecordUnifiedHeader(ctx, msg, len, hdr);
     }
 #endif
+    /* The first byte alone does not prove that a whole DTLSPlaintext header is present */
+    if (len < REC_DTLS_RECORD_HEADER_LEN) {
+        BSL_ERR_PUSH_ERROR(HITLS_REC_DECODE_ERROR);
+        return HITLS_REC_DECODE_ERROR;
+    }
     /* Parse the record header */
     hdr->type = msg[0];
     hdr->version = BSL_ByteToUint16(&msg[1]);
-- 
2.43.0


From e1a33b60dafb8ac711fde34e0a82cfbe31a18c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:45 +0000
Subject: [PATCH 2/3] fix: keep BSL_DateTimeAddUs exact for durations near 2^32
 microseconds

us + dateA->microSec was computed in 32 bits and wrapped, so adding such a
duration returned a date about 71 minutes too early.
---
 bsl/sal/src/sal_time.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bsl/sal/src/sal_time.c b/bsl/sal/src/sal_time.c
index f51062c..328d4e4 100644
--- a/bsl/sal/src/sal_time.c
+++ b/bsl/sal/src/sal_time.c
@@ -205,10 +205,10 @@ int32_t BSL_DateTimeAddUs(BSL_TIME *dateR, const BSL_TIME *dateA, uint32_t us)
     }
 
     /* Convert the increased time to seconds */
-    uint32_t microSec = us + dateA->microSec;
-    uint32_t millSec = (microSec / BSL_SECOND_TRANSFER_RATIO) + dateA->millSec;
+    uint64_t microSec = (uint64_t)us + dateA->microSec;
+    uint64_t millSec = (microSec / BSL_SECOND_TRANSFER_RATIO) + dateA->millSec;
     microSec %= BSL_SECOND_TRANSFER_RATIO;
-    uint32_t second = millSec / BSL_SECOND_TRANSFER_RATIO;
+    uint64_t second = millSec / BSL_SECOND_TRANSFER_RATIO;
     millSec %= BSL_SECOND_TRANSFER_RATIO;
 
     /* Convert to the date after the number of seconds is added */
-- 
2.43.0


From 964e5e8bb461e3748870fa08451371e073d4b18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:40 +0000
Subject: [PATCH 3/3] fix: compare an empty label like any other in the partial
 wildcard name match

---
 pki/x509_common/src/hitls_x509_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pki/x509_common/src/hitls_x509_util.c b/pki/x509_common/src/hitls_x509_util.c
index 90c709e..78b4536 100644
--- a/pki/x509_common/src/hitls_x509_util.c
+++ b/pki/x509_common/src/hitls_x509_util.c
@@ -128,7 +128,7 @@ static int32_t MatchWithPartialWildcard(const char *pattern, const char *hostnam
             }
             labelCount++;
         } else {
-            if (pLen > 0 && BSL_SAL_StrcaseCmp(p, h) != 0) {
+            if (BSL_SAL_StrcaseCmp(p, h) != 0) {
                 return HITLS_X509_ERR_VFY_HOSTNAME_FAIL;
             }
         }
-- 
2.43.0

