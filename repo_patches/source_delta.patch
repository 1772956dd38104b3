From 929b383c58dcaef801af875a40c0ce0161e5bfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:02 +0000
Subject: [PATCH 01/68] fix: cipher re-initialisation starts a new stream

Re-initialising a context (new key, new IV or both) kept the position in a
partially used gamma block and the re-keying counter, and a re-init without
a key continued under the key that key meshing, ACPKM or TLSTREE had derived
instead of the key the context was given.
---
 gost_crypt.c              | 34 ++++++++++++++++++++++++++--------
 gost_grasshopper_cipher.c |  5 +++++
 2 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 516e598..17f7049 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -23,6 +23,7 @@
 #endif
 #include <assert.h>
 
+#define MAGMA_BLOCK_SIZE 8
 static int gost_cipher_init(EVP_CIPHER_CTX *ctx, const unsigned char *key,
                             const unsigned char *iv, int enc);
 static int gost_cipher_init_cbc(EVP_CIPHER_CTX *ctx, const unsigned char *key,
@@ -412,6 +413,19 @@ static int gost_cipher_set_param(struct ossl_gost_cipher_ctx *c, int nid)
     return 1;
 }
 
+/*
+ * Starts a new stream under the given key or, without one, under the key the
+ * context was initialised with: key meshing has replaced it in the meantime.
+ */
+static void gost_cipher_start(EVP_CIPHER_CTX *ctx, gost_ctx *cctx,
+                              const unsigned char *key)
+{
+    if (key)
+        magma_master_key(cctx, key);
+    gost_key(cctx, (const unsigned char *)cctx->master_key);
+    EVP_CIPHER_CTX_set_num(ctx, 0);
+}
+
 /* Initializes EVP_CIPHER_CTX by paramset NID */
 static int gost_cipher_init_param(EVP_CIPHER_CTX *ctx,
                                   const unsigned char *key,
@@ -424,8 +438,8 @@ static int gost_cipher_init_param(EVP_CIPHER_CTX *ctx,
             return 0;
         EVP_CIPHER_CTX_set_app_data(ctx, EVP_CIPHER_CTX_get_cipher_data(ctx));
     }
-    if (key)
-        gost_key(&(c->cctx), key);
+    gost_cipher_start(ctx, &(c->cctx), key);
+    c->count = 0;
     if (iv) {
         memcpy((unsigned char *)EVP_CIPHER_CTX_original_iv(ctx), iv,
                EVP_CIPHER_CTX_iv_length(ctx));
@@ -444,8 +458,7 @@ static int gost_cipher_init_cnt(EVP_CIPHER_CTX *ctx,
     gost_init(&(c->cctx), block);
     c->key_meshing = 1;
     c->count = 0;
-    if (key)
-        gost_key(&(c->cctx), key);
+    gost_cipher_start(ctx, &(c->cctx), key);
     if (iv) {
         memcpy((unsigned char *)EVP_CIPHER_CTX_original_iv(ctx), iv,
                EVP_CIPHER_CTX_iv_length(ctx));
@@ -501,14 +514,20 @@ static int magma_cipher_init(EVP_CIPHER_CTX *ctx, const unsigned char *key,
         }
     }
 
-    if (key) {
-        magma_key(&(c->cctx), key);
+    /*
+     * A new stream starts under the key the context was initialised with:
+     * ACPKM and TLSTREE have replaced it in the meantime.
+     */
+    if (key)
         magma_master_key(&(c->cctx), key);
-    }
+    magma_key(&(c->cctx), (const unsigned char *)c->cctx.master_key);
+    EVP_CIPHER_CTX_set_num(ctx, 0);
+    c->count = 0;
     if (iv) {
         memcpy((unsigned char *)EVP_CIPHER_CTX_original_iv(ctx), iv,
                EVP_CIPHER_CTX_iv_length(ctx));
     }
+    memset(EVP_CIPHER_CTX_iv_noconst(ctx), 0, MAGMA_BLOCK_SIZE);
     memcpy(EVP_CIPHER_CTX_iv_noconst(ctx),
            EVP_CIPHER_CTX_original_iv(ctx), EVP_CIPHER_CTX_iv_length(ctx));
 
@@ -809,7 +828,6 @@ static void ctr64_inc(unsigned char *counter)
     inc_counter(counter, 8);
 }
 
-#define MAGMA_BLOCK_SIZE 8
 #define MAGMA_BLOCK_MASK (MAGMA_BLOCK_SIZE - 1)
 static inline void apply_acpkm_magma(struct ossl_gost_cipher_ctx *
                                            ctx, unsigned int *num)
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index ef06e2d..92fc848 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -250,13 +250,18 @@ static int gost_grasshopper_cipher_init(EVP_CIPHER_CTX *ctx,
     if (key != NULL) {
         gost_grasshopper_cipher_key(c, key);
         gost_grasshopper_master_key(c, key);
+    } else if (memcmp(&c->key, &c->master_key, sizeof(c->key)) != 0) {
+        /* ACPKM or TLSTREE replaced the key the context was initialised with */
+        gost_grasshopper_cipher_key(c, c->master_key.k.b);
     }
+    EVP_CIPHER_CTX_set_num(ctx, 0);
 
     if (iv != NULL) {
         memcpy((unsigned char *)EVP_CIPHER_CTX_original_iv(ctx), iv,
                EVP_CIPHER_CTX_iv_length(ctx));
     }
 
+    memset(EVP_CIPHER_CTX_iv_noconst(ctx), 0, GRASSHOPPER_BLOCK_SIZE);
     memcpy(EVP_CIPHER_CTX_iv_noconst(ctx),
            EVP_CIPHER_CTX_original_iv(ctx), EVP_CIPHER_CTX_iv_length(ctx));
 
-- 
2.43.0


From 63430afdccb9acf33c973edd4265413eb842b453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:14 +0000
Subject: [PATCH 02/68] fix: cipher initialisation reports a failing random
 source

EVP takes any non-zero result of the init callback for success, so -1 left
the caller with a context that was never keyed.
---
 gost_crypt.c              | 2 +-
 gost_grasshopper_cipher.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 17f7049..2a2032c 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -510,7 +510,7 @@ static int magma_cipher_init(EVP_CIPHER_CTX *ctx, const unsigned char *key,
 
         if (enc) {
             if (init_zero_kdf_seed(c->kdf_seed) == 0)
-                return -1;
+                return 0;
         }
     }
 
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index 92fc848..d1ab71e 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -243,7 +243,7 @@ static int gost_grasshopper_cipher_init(EVP_CIPHER_CTX *ctx,
         if (enc && c->type == GRASSHOPPER_CIPHER_CTRACPKM) {
             gost_grasshopper_cipher_ctx_ctr *ctr = EVP_CIPHER_CTX_get_cipher_data(ctx);
             if (init_zero_kdf_seed(ctr->kdf_seed) == 0)
-                return -1;
+                return 0;
         }
     }
 
-- 
2.43.0


From 809b8fca29fb4c711305eb1987140ec2702636a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:59 +0000
Subject: [PATCH 03/68] fix: keep the ACPKM section size set by the ASN.1
 parameters

A CMS recipient reads the parameters before it has the key; the keyed init
that follows reset the section size to the built-in default, so content
longer than one default section did not decrypt.
---
 gost_crypt.c              | 15 ++++++++-------
 gost_grasshopper_cipher.c |  8 ++++++--
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 2a2032c..4ae1c78 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -508,6 +508,14 @@ static int magma_cipher_init(EVP_CIPHER_CTX *ctx, const unsigned char *key,
             return 0;
         EVP_CIPHER_CTX_set_app_data(ctx, EVP_CIPHER_CTX_get_cipher_data(ctx));
 
+        /* The ASN.1 parameters or a control may have changed it by a later call */
+        if (EVP_CIPHER_CTX_nid(ctx) == NID_magma_ctr_acpkm
+         || EVP_CIPHER_CTX_nid(ctx) == NID_magma_ctr_acpkm_omac) {
+           c->key_meshing = 1024;
+        } else {
+           c->key_meshing = 0;
+        }
+
         if (enc) {
             if (init_zero_kdf_seed(c->kdf_seed) == 0)
                 return 0;
@@ -531,13 +539,6 @@ static int magma_cipher_init(EVP_CIPHER_CTX *ctx, const unsigned char *key,
     memcpy(EVP_CIPHER_CTX_iv_noconst(ctx),
            EVP_CIPHER_CTX_original_iv(ctx), EVP_CIPHER_CTX_iv_length(ctx));
 
-    if (EVP_CIPHER_CTX_nid(ctx) == NID_magma_ctr_acpkm
-     || EVP_CIPHER_CTX_nid(ctx) == NID_magma_ctr_acpkm_omac) {
-       c->key_meshing = 1024;
-    } else {
-       c->key_meshing = 0;
-    }
-
     return 1;
 }
 
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index d1ab71e..869298f 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -336,7 +336,9 @@ gost_grasshopper_cipher_init_ctracpkm(EVP_CIPHER_CTX
     /* NB: setting type makes EVP do_cipher callback useless */
     c->c.type = GRASSHOPPER_CIPHER_CTRACPKM;
     EVP_CIPHER_CTX_set_num(ctx, 0);
-    c->section_size = 4096;
+    /* The ASN.1 parameters or a control may have changed it by a later call */
+    if (EVP_CIPHER_CTX_get_app_data(ctx) == NULL)
+        c->section_size = 4096;
 
     return gost_grasshopper_cipher_init(ctx, key, iv, enc);
 }
@@ -352,7 +354,9 @@ gost_grasshopper_cipher_init_ctracpkm_omac(EVP_CIPHER_CTX
     /* NB: setting type makes EVP do_cipher callback useless */
     c->c.type = GRASSHOPPER_CIPHER_CTRACPKMOMAC;
     EVP_CIPHER_CTX_set_num(ctx, 0);
-    c->section_size = 4096;
+    /* The ASN.1 parameters or a control may have changed it by a later call */
+    if (EVP_CIPHER_CTX_get_app_data(ctx) == NULL)
+        c->section_size = 4096;
 
     if (key) {
         unsigned char cipher_key[32];
-- 
2.43.0


From fd550617c46b53b993faf9b1840d814cd83332cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:20 +0000
Subject: [PATCH 04/68] fix: 8-byte imitovstavka message does not depend on how
 it is delivered

A message of exactly one block completed by a second update was processed
at once, and final then missed that it has to be followed by a zero block.
---
 gost_crypt.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 4ae1c78..5fa9be6 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -1556,7 +1556,8 @@ static int gost_imit_update(EVP_MD_CTX *ctx, const void *data, size_t count)
         for (i = c->bytes_left; i < 8 && bytes > 0; bytes--, i++, p++) {
             c->partial_block[i] = *p;
         }
-        if (i == 8) {
+        /* A completed block waits until it is known not to be the last one */
+        if (i == 8 && bytes > 0) {
             mac_block_mesh(c, c->partial_block);
         } else {
             c->bytes_left = i;
-- 
2.43.0


From 2d56f2b64411998c0bef0862723006f1dc71e6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:20 +0000
Subject: [PATCH 05/68] fix: accept Kuznyechik MAC sizes up to 16 bytes by
 control string

The numeric control already accepts them.
---
 gost_pmeth.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gost_pmeth.c b/gost_pmeth.c
index 44bfc75..2bf344a 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -917,7 +917,7 @@ static int pkey_gost_magma_mac_ctrl_str(EVP_PKEY_CTX *ctx,
 static int pkey_gost_grasshopper_mac_ctrl_str(EVP_PKEY_CTX *ctx,
                                   const char *type, const char *value)
 {
-    return pkey_gost_omac_ctrl_str(ctx, type, value, 8);
+    return pkey_gost_omac_ctrl_str(ctx, type, value, 16);
 }
 
 static int pkey_gost_mac_keygen_base(EVP_PKEY_CTX *ctx,
-- 
2.43.0


From 01e384f4e6e2823017f45c6e1410c4d9b0627956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:32 +0000
Subject: [PATCH 06/68] fix: imitovstavka cleanup after a failed context copy
 does not crash

---
 gost_crypt.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 5fa9be6..a765512 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -1667,7 +1667,9 @@ static int gost_imit_copy(EVP_MD_CTX *to, const EVP_MD_CTX *from)
 /* Clean up imit ctx */
 static int gost_imit_cleanup(EVP_MD_CTX *ctx)
 {
-    memset(EVP_MD_CTX_md_data(ctx), 0, sizeof(struct ossl_gost_imit_ctx));
+    /* There is none if the context is the target of a failed copy */
+    if (EVP_MD_CTX_md_data(ctx) != NULL)
+        memset(EVP_MD_CTX_md_data(ctx), 0, sizeof(struct ossl_gost_imit_ctx));
     return 1;
 }
 /* vim: set expandtab cinoptions=\:0,l1,t0,g0,(0 sw=4 : */
-- 
2.43.0


From 38a6d5e416d0a12755eab94345a19afdc9b55db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:58 +0000
Subject: [PATCH 07/68] fix: OMAC contexts survive failures and re-keying

A key that could not be set and a MAC that could not be finished were
reported as success, setting a key a second time leaked the first CMAC
context, and a context copy that failed before or inside the copy callback
dereferenced NULL or freed the CMAC context of the original.
---
 gost_omac.c       | 40 ++++++++++++++++++++++++-------------
 gost_omac_acpkm.c | 51 +++++++++++++++++++++++++++++++----------------
 2 files changed, 60 insertions(+), 31 deletions(-)

diff --git a/gost_omac.c b/gost_omac.c
index 648cd8f..783bb3f 100644
--- a/gost_omac.c
+++ b/gost_omac.c
@@ -18,6 +18,8 @@
 
 typedef struct omac_ctx {
     CMAC_CTX *cmac_ctx;
+    /* Who owns cmac_ctx: EVP copies this structure before it calls copy() */
+    const struct omac_ctx *owner;
     size_t dgst_size;
     const char *cipher_name;
     int key_set;
@@ -41,7 +43,9 @@ typedef struct omac_ctx {
 static int omac_init(EVP_MD_CTX *ctx, const char *cipher_name)
 {
     OMAC_CTX *c = EVP_MD_CTX_md_data(ctx);
+    CMAC_CTX_free(c->cmac_ctx);
     memset(c, 0, sizeof(OMAC_CTX));
+    c->owner = c;
     c->cipher_name = cipher_name;
     c->key_set = 0;
 
@@ -90,7 +94,8 @@ static int omac_imit_final(EVP_MD_CTX *ctx, unsigned char *md)
         return 0;
     }
 
-    CMAC_Final(c->cmac_ctx, mac, &mac_size);
+    if (!CMAC_Final(c->cmac_ctx, mac, &mac_size))
+        return 0;
 
     memcpy(md, mac, c->dgst_size);
     return 1;
@@ -109,17 +114,25 @@ static int omac_imit_copy(EVP_MD_CTX *to, const EVP_MD_CTX *from)
     } else {
         return 0;
     }
+    if (c_to->owner != c_to) {
+        /* The pointer was copied along with the structure */
+        c_to->cmac_ctx = NULL;
+        c_to->owner = c_to;
+    }
     if (!c_from->cmac_ctx) {
-        if (c_to->cmac_ctx) {
-            CMAC_CTX_free(c_to->cmac_ctx);
-            c_to->cmac_ctx = NULL;
-        }
+        CMAC_CTX_free(c_to->cmac_ctx);
+        c_to->cmac_ctx = NULL;
         return 1;
     }
-    if (c_to->cmac_ctx == c_from->cmac_ctx) {
+    if (c_to->cmac_ctx == NULL) {
         c_to->cmac_ctx = CMAC_CTX_new();
     }
-    return CMAC_CTX_copy(c_to->cmac_ctx, c_from->cmac_ctx);
+    if (c_to->cmac_ctx == NULL
+        || !CMAC_CTX_copy(c_to->cmac_ctx, c_from->cmac_ctx)) {
+        c_to->key_set = 0;
+        return 0;
+    }
+    return 1;
 }
 
 /* Clean up imit ctx */
@@ -128,7 +141,8 @@ static int omac_imit_cleanup(EVP_MD_CTX *ctx)
     OMAC_CTX *c = EVP_MD_CTX_md_data(ctx);
 
     if (c) {
-        CMAC_CTX_free(c->cmac_ctx);
+        if (c->owner == c)
+            CMAC_CTX_free(c->cmac_ctx);
         memset(EVP_MD_CTX_md_data(ctx), 0, sizeof(OMAC_CTX));
     }
     return 1;
@@ -137,8 +151,7 @@ static int omac_imit_cleanup(EVP_MD_CTX *ctx)
 static int omac_key(OMAC_CTX * c, const EVP_CIPHER *cipher,
                     const unsigned char *key, size_t key_size)
 {
-    int ret = 0;
-
+    c->key_set = 0;
     CMAC_CTX_free(c->cmac_ctx);
     c->cmac_ctx = CMAC_CTX_new();
     if (c->cmac_ctx == NULL) {
@@ -146,10 +159,9 @@ static int omac_key(OMAC_CTX * c, const EVP_CIPHER *cipher,
         return 0;
     }
 
-    ret = CMAC_Init(c->cmac_ctx, key, key_size, cipher, NULL);
-    if (ret > 0) {
-        c->key_set = 1;
-    }
+    if (CMAC_Init(c->cmac_ctx, key, key_size, cipher, NULL) <= 0)
+        return 0;
+    c->key_set = 1;
     return 1;
 }
 
diff --git a/gost_omac_acpkm.c b/gost_omac_acpkm.c
index 8a3c841..2456d0f 100644
--- a/gost_omac_acpkm.c
+++ b/gost_omac_acpkm.c
@@ -301,6 +301,8 @@ static int CMAC_ACPKM_Final(CMAC_ACPKM_CTX *ctx, unsigned char *out,
 
 typedef struct omac_acpkm_ctx {
     CMAC_ACPKM_CTX *cmac_ctx;
+    /* Who owns cmac_ctx: EVP copies this structure before it calls copy() */
+    const struct omac_acpkm_ctx *owner;
     size_t dgst_size;
     const char *cipher_name;
     int key_set;
@@ -311,7 +313,9 @@ typedef struct omac_acpkm_ctx {
 static int omac_acpkm_init(EVP_MD_CTX *ctx, const char *cipher_name)
 {
     OMAC_ACPKM_CTX *c = EVP_MD_CTX_md_data(ctx);
+    CMAC_ACPKM_CTX_free(c->cmac_ctx);
     memset(c, 0, sizeof(OMAC_ACPKM_CTX));
+    c->owner = c;
     c->cipher_name = cipher_name;
     c->key_set = 0;
 
@@ -354,8 +358,8 @@ int omac_acpkm_imit_final(EVP_MD_CTX *ctx, unsigned char *md)
     }
 
     ret = CMAC_ACPKM_Final(c->cmac_ctx, mac, &mac_size);
-
-    memcpy(md, mac, c->dgst_size);
+    if (ret > 0)
+        memcpy(md, mac, c->dgst_size);
     return ret;
 }
 
@@ -371,18 +375,26 @@ static int omac_acpkm_imit_copy(EVP_MD_CTX *to, const EVP_MD_CTX *from)
     } else {
         return 0;
     }
+    if (c_to->owner != c_to) {
+        /* The pointer was copied along with the structure */
+        c_to->cmac_ctx = NULL;
+        c_to->owner = c_to;
+    }
     if (!c_from->cmac_ctx) {
-        if (c_to->cmac_ctx) {
-            CMAC_ACPKM_CTX_free(c_to->cmac_ctx);
-            c_to->cmac_ctx = NULL;
-        }
+        CMAC_ACPKM_CTX_free(c_to->cmac_ctx);
+        c_to->cmac_ctx = NULL;
         return 1;
     }
-    if ((c_to->cmac_ctx == c_from->cmac_ctx) || (c_to->cmac_ctx == NULL))  {
+    if (c_to->cmac_ctx == NULL) {
         c_to->cmac_ctx = CMAC_ACPKM_CTX_new();
     }
 
-    return (c_to->cmac_ctx) ? CMAC_ACPKM_CTX_copy(c_to->cmac_ctx, c_from->cmac_ctx) : 0;
+    if (c_to->cmac_ctx == NULL
+        || !CMAC_ACPKM_CTX_copy(c_to->cmac_ctx, c_from->cmac_ctx)) {
+        c_to->key_set = 0;
+        return 0;
+    }
+    return 1;
 }
 
 /* Clean up imit ctx */
@@ -391,7 +403,8 @@ static int omac_acpkm_imit_cleanup(EVP_MD_CTX *ctx)
     OMAC_ACPKM_CTX *c = EVP_MD_CTX_md_data(ctx);
 
     if (c) {
-        CMAC_ACPKM_CTX_free(c->cmac_ctx);
+        if (c->owner == c)
+            CMAC_ACPKM_CTX_free(c->cmac_ctx);
         memset(EVP_MD_CTX_md_data(ctx), 0, sizeof(OMAC_ACPKM_CTX));
     }
     return 1;
@@ -400,18 +413,17 @@ static int omac_acpkm_imit_cleanup(EVP_MD_CTX *ctx)
 static int omac_acpkm_key(OMAC_ACPKM_CTX *c, const EVP_CIPHER *cipher,
                           const unsigned char *key, size_t key_size)
 {
-    int ret = 0;
-
+    c->key_set = 0;
+    CMAC_ACPKM_CTX_free(c->cmac_ctx);
     c->cmac_ctx = CMAC_ACPKM_CTX_new();
     if (c->cmac_ctx == NULL) {
         GOSTerr(GOST_F_OMAC_ACPKM_KEY, ERR_R_MALLOC_FAILURE);
         return 0;
     }
 
-    ret = CMAC_ACPKM_Init(c->cmac_ctx, key, key_size, cipher, NULL);
-    if (ret > 0) {
-        c->key_set = 1;
-    }
+    if (CMAC_ACPKM_Init(c->cmac_ctx, key, key_size, cipher, NULL) <= 0)
+        return 0;
+    c->key_set = 1;
     return 1;
 }
 
@@ -438,6 +450,7 @@ int omac_acpkm_imit_ctrl(EVP_MD_CTX *ctx, int type, int arg, void *ptr)
                 && (cipher =
                     EVP_CIPHER_fetch(NULL, c->cipher_name, NULL)) == NULL) {
                 GOSTerr(GOST_F_OMAC_ACPKM_IMIT_CTRL, GOST_R_CIPHER_NOT_FOUND);
+                goto set_key_end;
             }
             if (EVP_MD_meth_get_init(EVP_MD_CTX_md(ctx)) (ctx) <= 0) {
                 GOSTerr(GOST_F_OMAC_ACPKM_IMIT_CTRL, GOST_R_MAC_KEY_NOT_SET);
@@ -466,13 +479,17 @@ int omac_acpkm_imit_ctrl(EVP_MD_CTX *ctx, int type, int arg, void *ptr)
             OMAC_ACPKM_CTX *c = EVP_MD_CTX_md_data(ctx);
             if (!arg || (arg % EVP_MD_block_size(EVP_MD_CTX_md(ctx))))
                 return -1;
+            if (c->cmac_ctx == NULL) {
+                GOSTerr(GOST_F_OMAC_ACPKM_IMIT_CTRL, GOST_R_MAC_KEY_NOT_SET);
+                return -1;
+            }
             c->cmac_ctx->section_size = arg;
             if (ptr && *(int *)ptr) {
                 /* Set parameter T */
                 if (EVP_CIPHER_get0_provider(EVP_CIPHER_CTX_cipher(c->cmac_ctx->actx))
                     == NULL) {
-                    if (!EVP_CIPHER_CTX_ctrl(c->cmac_ctx->actx, EVP_CTRL_KEY_MESH,
-                                             *(int *)ptr, NULL))
+                    if (EVP_CIPHER_CTX_ctrl(c->cmac_ctx->actx, EVP_CTRL_KEY_MESH,
+                                            *(int *)ptr, NULL) <= 0)
                         return 0;
                 } else {
                     size_t cipher_key_mesh = (size_t)*(int *)ptr;
-- 
2.43.0


From d3fceadfde0ef01a7777d47d5101542176a5de3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:21 +0000
Subject: [PATCH 08/68] fix: MGM tags messages without associated data
 correctly

The first counter block Z_1 was only computed by the first call for associated
data or by the first call to encrypt, so decryption without associated data,
and a tag over neither data nor associated data, used a stale or zero counter.
It depends on the nonce alone: compute it where the nonce is set.  An empty
piece of data no longer closes the associated data.
---
 gost_gost2015.c | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/gost_gost2015.c b/gost_gost2015.c
index 8989ab1..cb8c542 100644
--- a/gost_gost2015.c
+++ b/gost_gost2015.c
@@ -231,6 +231,8 @@ int gost_mgm128_setiv(mgm128_context *ctx, const unsigned char *iv,
     ctx->sum.u[1] = 0;
 
     memcpy(ctx->nonce.c, iv, ctx->blocklen);
+    ctx->nonce.c[0] |= 0x80;
+    (*ctx->block) (ctx->nonce.c, ctx->Zi.c, ctx->key);  // Z_1 = E_K(1 || nonce)
     ctx->nonce.c[0] &= 0x7f;    /* IV - random vector, but 1st bit should be 0 */
     return 1;
 }
@@ -252,11 +254,6 @@ int gost_mgm128_aad(mgm128_context *ctx, const unsigned char *aad,
         return -2;
     }
 
-    if (alen == 0) {
-        ctx->nonce.c[0] |= 0x80;
-        (*block) (ctx->nonce.c, ctx->Zi.c, key);    // Z_1 = E_K(1 || nonce)
-    }
-
     alen += len;
     if (alen > ((ossl_uintmax_t)(1) << (bl * 4 - 3)) ||      // < 2^(n/2)  (len stores in bytes)
         (sizeof(len) == 8 && alen < len)) {
@@ -316,14 +313,11 @@ int gost_mgm128_encrypt(mgm128_context *ctx, const unsigned char *in,
     void *key = ctx->key;
     int bl = ctx->blocklen;
 
-    if (mlen == 0) {
-        if (alen == 0) {
-            ctx->nonce.c[0] |= 0x80;
-            (*block) (ctx->nonce.c, ctx->Zi.c, key);    // Z_1 = E_K(1 || nonce)
-        }
-        ctx->nonce.c[0] &= 0x7f;
+    if (len == 0)
+        return 0;
+
+    if (mlen == 0)
         (*block) (ctx->nonce.c, ctx->Yi.c, key);    // Y_1 = E_K(0 || nonce)
-    }
 
     mlen += len;
 
@@ -384,10 +378,11 @@ int gost_mgm128_decrypt(mgm128_context *ctx, const unsigned char *in,
     void *key = ctx->key;
     int bl = ctx->blocklen;
 
-    if (mlen == 0) {
-        ctx->nonce.c[0] &= 0x7f;
+    if (len == 0)
+        return 0;
+
+    if (mlen == 0)
         (*block) (ctx->nonce.c, ctx->Yi.c, key);  // Y_1 = E_K(0 || nonce)
-    }
 
     mlen += len;
     if (mlen > ((ossl_uintmax_t)(1) << (bl * 4 - 3)) ||     // < 2^(n/2)  (len stores in bytes)
-- 
2.43.0


From 522ab939ba930e17f53ff5d871f6f6c42b468679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:33 +0000
Subject: [PATCH 09/68] fix: MGM contexts can be copied and re-keyed

A copied context kept pointing at the key and the nonce inside the original,
which may be gone by then, and kuznyechik-mgm freed a pointer into the original
on cleanup.  A nonce given together with the key or after it was not kept for a
following key without nonce.  A nonce length other than one block was accepted
although a whole block is read.
---
 gost_crypt.c              | 37 +++++++++++++++++++++----------------
 gost_gost2015.h           |  2 +-
 gost_grasshopper_cipher.c | 39 +++++++++++++++++++++------------------
 3 files changed, 43 insertions(+), 35 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index a765512..d70d9d7 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -259,7 +259,8 @@ GOST_cipher magma_ecb_cipher = {
     .iv_len = 8,
     .flags = EVP_CIPH_NO_PADDING |
         EVP_CIPH_CUSTOM_IV | EVP_CIPH_FLAG_CUSTOM_CIPHER |
-        EVP_CIPH_CTRL_INIT | EVP_CIPH_FLAG_AEAD_CIPHER,
+        EVP_CIPH_CTRL_INIT | EVP_CIPH_CUSTOM_COPY |
+        EVP_CIPH_FLAG_AEAD_CIPHER,
     .init = gost_magma_cipher_init_mgm,
     .do_cipher = gost_magma_cipher_do_mgm,
     .ctrl = gost_magma_mgm_ctrl,
@@ -652,7 +653,9 @@ static int gost_magma_cipher_init_mgm(EVP_CIPHER_CTX *ctx, const unsigned char *
         /*
          * If we have an iv can set it directly, otherwise use saved IV.
          */
-        if (iv == NULL && mctx->iv_set)
+        if (iv != NULL)
+            memcpy(mctx->iv, iv, mctx->ivlen);
+        else if (mctx->iv_set)
             iv = mctx->iv;
         if (iv) {
             if (gost_mgm128_setiv(&mctx->mgm, iv, mctx->ivlen) != 1)
@@ -661,13 +664,12 @@ static int gost_magma_cipher_init_mgm(EVP_CIPHER_CTX *ctx, const unsigned char *
         }
         mctx->key_set = 1;
     } else {
-        /* If key set use IV, otherwise copy */
+        /* The IV is also kept for a key that comes later */
+        memcpy(mctx->iv, iv, mctx->ivlen);
         if (mctx->key_set) {
             if (gost_mgm128_setiv(&mctx->mgm, iv, mctx->ivlen) != 1)
                 return 0;
         }
-        else
-            memcpy(mctx->iv, iv, mctx->ivlen);
         mctx->iv_set = 1;
     }
     return 1;
@@ -1112,33 +1114,36 @@ static int gost_magma_mgm_ctrl(EVP_CIPHER_CTX *c, int type, int arg, void *ptr)
 {
     gost_mgm_ctx *mctx =
         (gost_mgm_ctx *)EVP_CIPHER_CTX_get_cipher_data(c);
-    unsigned char *buf, *iv;
+    unsigned char *buf;
     int ivlen, enc;
 
     switch (type) {
     case EVP_CTRL_INIT:
         ivlen = EVP_CIPHER_iv_length(EVP_CIPHER_CTX_cipher(c));
-        iv = EVP_CIPHER_CTX_iv_noconst(c);
         mctx->key_set = 0;
         mctx->iv_set = 0;
         mctx->ivlen = ivlen;
-        mctx->iv = iv;
         mctx->taglen = -1;
         return 1;
 
+    case EVP_CTRL_COPY:
+        {
+            gost_mgm_ctx *out_mctx =
+                (gost_mgm_ctx *)EVP_CIPHER_CTX_get_cipher_data(ptr);
+
+            /* The copy works with its own key */
+            if (mctx->key_set)
+                out_mctx->mgm.key = &out_mctx->ks;
+            return 1;
+        }
+
     case EVP_CTRL_GET_IVLEN:
         *(int *)ptr = mctx->ivlen;
         return 1;
 
     case EVP_CTRL_AEAD_SET_IVLEN:
-        if (arg <= 0)
-            return 0;
-        if ((arg > EVP_MAX_IV_LENGTH) && (arg > mctx->ivlen)) {
-            // TODO: Allocate memory for IV or set error
-            return 0;
-        }
-        mctx->ivlen = arg;
-        return 1;
+        /* The nonce always takes one block */
+        return arg == mctx->ivlen;
 
     case EVP_CTRL_AEAD_SET_TAG:
         buf = EVP_CIPHER_CTX_buf_noconst(c);
diff --git a/gost_gost2015.h b/gost_gost2015.h
index 37b94d0..ffa111b 100644
--- a/gost_gost2015.h
+++ b/gost_gost2015.h
@@ -53,7 +53,7 @@ typedef struct {
     int key_set;
     int iv_set;
     mgm128_context mgm;
-    unsigned char *iv;
+    unsigned char iv[16];
     int ivlen;
     int taglen;
     int tlstree_mode;
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index 869298f..7ae8c80 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -132,7 +132,8 @@ GOST_cipher grasshopper_mgm_cipher = {
     .iv_len = 16,
     .flags = EVP_CIPH_NO_PADDING |
         EVP_CIPH_CUSTOM_IV | EVP_CIPH_FLAG_CUSTOM_CIPHER |
-        EVP_CIPH_CTRL_INIT | EVP_CIPH_FLAG_AEAD_CIPHER,
+        EVP_CIPH_CTRL_INIT | EVP_CIPH_CUSTOM_COPY |
+        EVP_CIPH_FLAG_AEAD_CIPHER,
     .cleanup = gost_grasshopper_mgm_cleanup,
     .ctrl = gost_grasshopper_mgm_ctrl,
     .init = gost_grasshopper_cipher_init_mgm,
@@ -496,7 +497,9 @@ gost_grasshopper_cipher_init_mgm(EVP_CIPHER_CTX *ctx, const unsigned char *key,
         /*
          * If we have an iv can set it directly, otherwise use saved IV.
          */
-        if (iv == NULL && mctx->iv_set)
+        if (iv != NULL)
+            memcpy(mctx->iv, iv, mctx->ivlen);
+        else if (mctx->iv_set)
             iv = mctx->iv;
         if (iv) {
             if (gost_mgm128_setiv(&mctx->mgm, iv, mctx->ivlen) != 1)
@@ -505,13 +508,12 @@ gost_grasshopper_cipher_init_mgm(EVP_CIPHER_CTX *ctx, const unsigned char *key,
         }
         mctx->key_set = 1;
     } else {
-        /* If key set use IV, otherwise copy */
+        /* The IV is also kept for a key that comes later */
+        memcpy(mctx->iv, iv, mctx->ivlen);
         if (mctx->key_set) {
             if (gost_mgm128_setiv(&mctx->mgm, iv, mctx->ivlen) != 1)
                 return 0;
         }
-        else
-            memcpy(mctx->iv, iv, mctx->ivlen);
         mctx->iv_set = 1;
     }
     return 1;
@@ -1034,8 +1036,6 @@ static int gost_grasshopper_mgm_cleanup(EVP_CIPHER_CTX *c)
         return 0;
     gost_grasshopper_cipher_destroy(&mctx->ks.gh_ks);
     OPENSSL_cleanse(&mctx->mgm, sizeof(mctx->mgm));
-    if (mctx->iv != EVP_CIPHER_CTX_iv_noconst(c))
-        OPENSSL_free(mctx->iv);
     return 1;
 }
 
@@ -1043,33 +1043,36 @@ static int gost_grasshopper_mgm_ctrl(EVP_CIPHER_CTX *c, int type, int arg, void
 {
     gost_mgm_ctx *mctx =
         (gost_mgm_ctx *)EVP_CIPHER_CTX_get_cipher_data(c);
-    unsigned char *buf, *iv;
+    unsigned char *buf;
     int ivlen, enc;
 
     switch (type) {
     case EVP_CTRL_INIT:
         ivlen = EVP_CIPHER_iv_length(EVP_CIPHER_CTX_cipher(c));
-        iv = EVP_CIPHER_CTX_iv_noconst(c);
         mctx->key_set = 0;
         mctx->iv_set = 0;
         mctx->ivlen = ivlen;
-        mctx->iv = iv;
         mctx->taglen = -1;
         return 1;
 
+    case EVP_CTRL_COPY:
+        {
+            gost_mgm_ctx *out_mctx =
+                (gost_mgm_ctx *)EVP_CIPHER_CTX_get_cipher_data(ptr);
+
+            /* The copy works with its own key */
+            if (mctx->key_set)
+                out_mctx->mgm.key = &out_mctx->ks;
+            return 1;
+        }
+
     case EVP_CTRL_GET_IVLEN:
         *(int *)ptr = mctx->ivlen;
         return 1;
 
     case EVP_CTRL_AEAD_SET_IVLEN:
-        if (arg <= 0)
-            return 0;
-        if ((arg > EVP_MAX_IV_LENGTH) && (arg > mctx->ivlen)) {
-            // TODO: Allocate memory for IV or set error
-            return 0;
-        }
-        mctx->ivlen = arg;
-        return 1;
+        /* The nonce always takes one block */
+        return arg == mctx->ivlen;
 
     case EVP_CTRL_AEAD_SET_TAG:
         buf = EVP_CIPHER_CTX_buf_noconst(c);
-- 
2.43.0


From a48d58d135e3065d51fcb381abfadc8942269c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:50 +0000
Subject: [PATCH 10/68] fix: CTR-ACPKM-OMAC contexts survive re-keying, copying
 and failures

Re-keying leaked the MAC context, a new IV left the MAC of the previous message
running, a failed initialisation left a context that crashes, copying a context
without key failed, and a failed copy was reported as success.  Failures of the
MAC were ignored.  magma-ctr-acpkm-omac took unusable parameters for a zero IV.
---
 gost_crypt.c              | 35 ++++++++++++----------
 gost_gost2015.c           | 62 +++++++++++++++++++++++++++++----------
 gost_gost2015.h           |  2 ++
 gost_grasshopper_cipher.c | 33 ++++++++++++---------
 4 files changed, 86 insertions(+), 46 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index d70d9d7..030f906 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -547,9 +547,12 @@ static int magma_cipher_init(EVP_CIPHER_CTX *ctx, const unsigned char *key,
 static int magma_cipher_init_ctr_acpkm_omac(EVP_CIPHER_CTX *ctx, const unsigned char *key,
                       const unsigned char *iv, int enc)
 {
-	if (key) {
     struct ossl_gost_cipher_ctx *c = EVP_CIPHER_CTX_get_cipher_data(ctx);
+
+	if (key) {
 		unsigned char cipher_key[32];
+
+		EVP_MD_CTX_free(c->omac_ctx);
 		c->omac_ctx = EVP_MD_CTX_new();
 
 		if (c->omac_ctx == NULL) {
@@ -567,6 +570,9 @@ static int magma_cipher_init_ctr_acpkm_omac(EVP_CIPHER_CTX *ctx, const unsigned
 		return magma_cipher_init(ctx, cipher_key, iv, enc);
 	}
 
+	if (!gost2015_acpkm_omac_restart(c->omac_ctx))
+		return 0;
+
 	return magma_cipher_init(ctx, key, iv, enc);
 }
 
@@ -901,19 +907,21 @@ static int magma_cipher_do_ctr_acpkm_omac(EVP_CIPHER_CTX *ctx, unsigned char *ou
 	if (in == NULL && inl == 0) /* Final call */
 		return gost2015_final_call(ctx, c->omac_ctx, MAGMA_MAC_MAX_SIZE, c->tag, magma_cipher_do_ctr);
 
-  if (in == NULL)
+  if (in == NULL || c->omac_ctx == NULL)
       return -1;
 
 	/* As in and out can be the same pointer, process unencrypted here */
-	if (EVP_CIPHER_CTX_encrypting(ctx))
-		EVP_DigestSignUpdate(c->omac_ctx, in, inl);
+	if (EVP_CIPHER_CTX_encrypting(ctx)
+	    && EVP_DigestSignUpdate(c->omac_ctx, in, inl) <= 0)
+		return -1;
 
   if (magma_cipher_do_ctr(ctx, out, in, inl) != inl)
       return -1;
 
 	/* As in and out can be the same pointer, process decrypted here */
-	if (!EVP_CIPHER_CTX_encrypting(ctx))
-		EVP_DigestSignUpdate(c->omac_ctx, out, inl);
+	if (!EVP_CIPHER_CTX_encrypting(ctx)
+	    && EVP_DigestSignUpdate(c->omac_ctx, out, inl) <= 0)
+		return -1;
 
 	return inl;
 }
@@ -1374,14 +1382,11 @@ static int magma_cipher_ctl_acpkm_omac(EVP_CIPHER_CTX *ctx, int type, int arg, v
       struct ossl_gost_cipher_ctx *in_cctx  = EVP_CIPHER_CTX_get_cipher_data(ctx);
       struct ossl_gost_cipher_ctx *out_cctx = EVP_CIPHER_CTX_get_cipher_data(out);
 
-			if (in_cctx->omac_ctx == out_cctx->omac_ctx) {
-				out_cctx->omac_ctx = EVP_MD_CTX_new();
-				if (out_cctx->omac_ctx == NULL) {
-					GOSTerr(GOST_F_MAGMA_CIPHER_CTL_ACPKM_OMAC, ERR_R_MALLOC_FAILURE);
-					return -1;
-				}
+			if (!gost2015_acpkm_omac_copy(&out_cctx->omac_ctx, in_cctx->omac_ctx)) {
+				GOSTerr(GOST_F_MAGMA_CIPHER_CTL_ACPKM_OMAC, ERR_R_MALLOC_FAILURE);
+				return 0;
 			}
-			return EVP_MD_CTX_copy(out_cctx->omac_ctx, in_cctx->omac_ctx);
+			return 1;
 		}
 		default:
 			return magma_cipher_ctl(ctx, type, arg, ptr);
@@ -1495,9 +1500,7 @@ static int magma_get_asn1_parameters(EVP_CIPHER_CTX *ctx, ASN1_TYPE *params)
   struct ossl_gost_cipher_ctx *c = EVP_CIPHER_CTX_get_cipher_data(ctx);
 	unsigned char iv[16];
 
-	c->key_meshing = 8192;
-
-	if (gost2015_get_asn1_params(params, MAGMA_UKM_LEN, iv, 4, c->kdf_seed) < 0)
+	if (gost2015_get_asn1_params(params, MAGMA_UKM_LEN, iv, 4, c->kdf_seed) <= 0)
 	    return -1;
 
 	memcpy(EVP_CIPHER_CTX_iv_noconst(ctx), iv, sizeof(iv));
diff --git a/gost_gost2015.c b/gost_gost2015.c
index cb8c542..207016f 100644
--- a/gost_gost2015.c
+++ b/gost_gost2015.c
@@ -22,9 +22,11 @@ int gost2015_final_call(EVP_CIPHER_CTX *ctx, EVP_MD_CTX *omac_ctx, size_t mac_si
     unsigned char calculated_mac[KUZNYECHIK_MAC_MAX_SIZE];
     memset(calculated_mac, 0, KUZNYECHIK_MAC_MAX_SIZE);
 
-    if (EVP_CIPHER_CTX_encrypting(ctx)) {
-        EVP_DigestSignFinal(omac_ctx, calculated_mac, &mac_size);
+    if (omac_ctx == NULL
+        || EVP_DigestSignFinal(omac_ctx, calculated_mac, &mac_size) <= 0)
+        return -1;
 
+    if (EVP_CIPHER_CTX_encrypting(ctx)) {
         if (do_cipher(ctx, encrypted_mac, calculated_mac, mac_size) <= 0) {
             return -1;
         }
@@ -32,7 +34,6 @@ int gost2015_final_call(EVP_CIPHER_CTX *ctx, EVP_MD_CTX *omac_ctx, size_t mac_si
         unsigned char expected_mac[KUZNYECHIK_MAC_MAX_SIZE];
 
         memset(expected_mac, 0, KUZNYECHIK_MAC_MAX_SIZE);
-        EVP_DigestSignFinal(omac_ctx, calculated_mac, &mac_size);
 
         if (do_cipher(ctx, expected_mac, encrypted_mac, mac_size) <= 0) {
             return -1;
@@ -134,23 +135,27 @@ int gost2015_process_unprotected_attributes(
     STACK_OF(X509_ATTRIBUTE) *attrs,
     int encryption, size_t mac_len, unsigned char *final_tag)
 {
+    int ret = -1;
+    ASN1_OBJECT *obj = OBJ_txt2obj(OID_GOST_CMS_MAC, 1);
+
+    if (obj == NULL)
+        return -1;
+
     if (encryption == 0) /*Decrypting*/ {
         ASN1_OCTET_STRING *osExpectedMac = X509at_get0_data_by_OBJ(attrs,
-            OBJ_txt2obj(OID_GOST_CMS_MAC, 1), -3, V_ASN1_OCTET_STRING);
+            obj, -3, V_ASN1_OCTET_STRING);
 
-        if (!osExpectedMac || osExpectedMac->length != (int)mac_len)
-            return -1;
-
-        memcpy(final_tag, osExpectedMac->data, osExpectedMac->length);
-    } else {
-        if (attrs == NULL)
-            return -1;
-        return (X509at_add1_attr_by_OBJ(&attrs,
-               OBJ_txt2obj(OID_GOST_CMS_MAC, 1),
-               V_ASN1_OCTET_STRING, final_tag,
-               mac_len) == NULL) ? -1 : 1;
+        if (osExpectedMac && osExpectedMac->length == (int)mac_len) {
+            memcpy(final_tag, osExpectedMac->data, osExpectedMac->length);
+            ret = 1;
+        }
+    } else if (attrs != NULL
+               && X509at_add1_attr_by_OBJ(&attrs, obj, V_ASN1_OCTET_STRING,
+                                          final_tag, mac_len) != NULL) {
+        ret = 1;
     }
-    return 1;
+    ASN1_OBJECT_free(obj);
+    return ret;
 }
 
 int gost2015_acpkm_omac_init(int nid, int enc, const unsigned char *inkey,
@@ -193,6 +198,31 @@ end:
     return ret;
 }
 
+/* Begins a new message under the key the MAC context already has */
+int gost2015_acpkm_omac_restart(EVP_MD_CTX *omac_ctx)
+{
+    return omac_ctx == NULL
+        || EVP_DigestSignInit(omac_ctx, NULL, EVP_MD_CTX_md(omac_ctx), NULL,
+                              NULL) > 0;
+}
+
+/* Makes the MAC context of a copied cipher context a copy of its own */
+int gost2015_acpkm_omac_copy(EVP_MD_CTX **out, const EVP_MD_CTX *in)
+{
+    *out = NULL;
+    if (in == NULL)
+        return 1;
+    *out = EVP_MD_CTX_new();
+    if (*out == NULL)
+        return 0;
+    if (EVP_MD_CTX_copy_ex(*out, in) <= 0) {
+        EVP_MD_CTX_free(*out);
+        *out = NULL;
+        return 0;
+    }
+    return 1;
+}
+
 int init_zero_kdf_seed(unsigned char *kdf_seed)
 {
     int is_zero_kdfseed = 1, i;
diff --git a/gost_gost2015.h b/gost_gost2015.h
index ffa111b..4ac3eaf 100644
--- a/gost_gost2015.h
+++ b/gost_gost2015.h
@@ -79,6 +79,8 @@ int gost2015_process_unprotected_attributes(STACK_OF(X509_ATTRIBUTE) *attrs,
 int gost2015_acpkm_omac_init(int nid, int enc, const unsigned char *inkey,
                              EVP_MD_CTX *omac_ctx,
                              unsigned char *outkey, unsigned char *kdf_seed);
+int gost2015_acpkm_omac_restart(EVP_MD_CTX *omac_ctx);
+int gost2015_acpkm_omac_copy(EVP_MD_CTX **out, const EVP_MD_CTX *in);
 int init_zero_kdf_seed(unsigned char *kdf_seed);
 
 
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index 7ae8c80..f2e4e08 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -361,6 +361,8 @@ gost_grasshopper_cipher_init_ctracpkm_omac(EVP_CIPHER_CTX
 
     if (key) {
         unsigned char cipher_key[32];
+
+        EVP_MD_CTX_free(c->omac_ctx);
         c->omac_ctx = EVP_MD_CTX_new();
 
         if (c->omac_ctx == NULL) {
@@ -378,6 +380,9 @@ gost_grasshopper_cipher_init_ctracpkm_omac(EVP_CIPHER_CTX
         return gost_grasshopper_cipher_init(ctx, cipher_key, iv, enc);
     }
 
+    if (!gost2015_acpkm_omac_restart(c->omac_ctx))
+        return 0;
+
     return gost_grasshopper_cipher_init(ctx, key, iv, enc);
 }
 
@@ -737,23 +742,26 @@ static int gost_grasshopper_cipher_do_ctracpkm_omac(EVP_CIPHER_CTX *ctx,
 {
     int result;
     gost_grasshopper_cipher_ctx_ctr *c = EVP_CIPHER_CTX_get_cipher_data(ctx);
-    /* As in and out can be the same pointer, process unencrypted here */
-    if (EVP_CIPHER_CTX_encrypting(ctx))
-        EVP_DigestSignUpdate(c->omac_ctx, in, inl);
-
     if (in == NULL && inl == 0) { /* Final call */
         return gost2015_final_call(ctx, c->omac_ctx, KUZNYECHIK_MAC_MAX_SIZE, c->tag, gost_grasshopper_cipher_do_ctracpkm);
     }
 
-    if (in == NULL) {
+    if (in == NULL || c->omac_ctx == NULL) {
         GOSTerr(GOST_F_GOST_GRASSHOPPER_CIPHER_DO_CTRACPKM_OMAC, ERR_R_EVP_LIB);
         return -1;
     }
+
+    /* As in and out can be the same pointer, process unencrypted here */
+    if (EVP_CIPHER_CTX_encrypting(ctx)
+        && EVP_DigestSignUpdate(c->omac_ctx, in, inl) <= 0)
+        return -1;
+
     result = gost_grasshopper_cipher_do_ctracpkm(ctx, out, in, inl);
 
     /* As in and out can be the same pointer, process decrypted here */
-    if (!EVP_CIPHER_CTX_encrypting(ctx))
-        EVP_DigestSignUpdate(c->omac_ctx, out, inl);
+    if (!EVP_CIPHER_CTX_encrypting(ctx)
+        && EVP_DigestSignUpdate(c->omac_ctx, out, inl) <= 0)
+        return -1;
 
     return result;
 }
@@ -1218,14 +1226,11 @@ static int gost_grasshopper_cipher_ctl(EVP_CIPHER_CTX *ctx, int type, int arg, v
         if (in_cctx->c.type != GRASSHOPPER_CIPHER_CTRACPKMOMAC)
             return -1;
 
-        if (in_cctx->omac_ctx == out_cctx->omac_ctx) {
-            out_cctx->omac_ctx = EVP_MD_CTX_new();
-            if (out_cctx->omac_ctx == NULL) {
-                GOSTerr(GOST_F_GOST_GRASSHOPPER_CIPHER_CTL, ERR_R_MALLOC_FAILURE);
-                return -1;
-            }
+        if (!gost2015_acpkm_omac_copy(&out_cctx->omac_ctx, in_cctx->omac_ctx)) {
+            GOSTerr(GOST_F_GOST_GRASSHOPPER_CIPHER_CTL, ERR_R_MALLOC_FAILURE);
+            return 0;
         }
-        return EVP_MD_CTX_copy(out_cctx->omac_ctx, in_cctx->omac_ctx);
+        return 1;
     }
     default:
         GOSTerr(GOST_F_GOST_GRASSHOPPER_CIPHER_CTL,
-- 
2.43.0


From 79112529eaf28a9df7184743d3819555f7e0d42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:40 +0000
Subject: [PATCH 11/68] fix: refuse digests of unsupported size instead of
 aborting the process

---
 gost_ec_sign.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/gost_ec_sign.c b/gost_ec_sign.c
index a825dba..73b51f0 100644
--- a/gost_ec_sign.c
+++ b/gost_ec_sign.c
@@ -196,13 +196,17 @@ ECDSA_SIG *gost_ec_sign(const unsigned char *dgst, int dlen, EC_KEY *eckey)
 
     OPENSSL_assert(dgst != NULL && eckey != NULL);
 
+    if (dlen != 32 && dlen != 64) {
+        GOSTerr(GOST_F_GOST_EC_SIGN, GOST_R_INVALID_DIGEST_TYPE);
+        return NULL;
+    }
+
     if (!(ctx = BN_CTX_secure_new())) {
         GOSTerr(GOST_F_GOST_EC_SIGN, ERR_R_MALLOC_FAILURE);
         return NULL;
     }
 
     BN_CTX_start(ctx);
-    OPENSSL_assert(dlen == 32 || dlen == 64);
     md = BN_lebin2bn(dgst, dlen, NULL);
     newsig = ECDSA_SIG_new();
     if (!newsig || !md) {
@@ -337,6 +341,11 @@ int gost_ec_verify(const unsigned char *dgst, int dgst_len,
 
     OPENSSL_assert(dgst != NULL && sig != NULL && group != NULL);
 
+    if (dgst_len != 32 && dgst_len != 64) {
+        GOSTerr(GOST_F_GOST_EC_VERIFY, GOST_R_INVALID_DIGEST_TYPE);
+        return 0;
+    }
+
     if (!(ctx = BN_CTX_new())) {
         GOSTerr(GOST_F_GOST_EC_VERIFY, ERR_R_MALLOC_FAILURE);
         return 0;
@@ -371,7 +380,6 @@ int gost_ec_verify(const unsigned char *dgst, int dgst_len,
         goto err;
     }
 
-    OPENSSL_assert(dgst_len == 32 || dgst_len == 64);
     md = BN_lebin2bn(dgst, dgst_len, NULL);
     if (!md || !BN_mod(e, md, order, ctx)) {
         GOSTerr(GOST_F_GOST_EC_VERIFY, ERR_R_INTERNAL_ERROR);
-- 
2.43.0


From 50693a4fe2fdefd2ed81fe61256f96191cedc8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:00 +0000
Subject: [PATCH 12/68] fix: accept only signatures of the exact size when
 verifying

---
 gost_pmeth.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gost_pmeth.c b/gost_pmeth.c
index 2bf344a..66db8cc 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -539,7 +539,14 @@ static int pkey_gost_ec_cp_verify(EVP_PKEY_CTX *ctx, const unsigned char *sig,
 {
     int ok = 0;
     EVP_PKEY *pub_key = EVP_PKEY_CTX_get0_pkey(ctx);
-    ECDSA_SIG *s = (sig) ? unpack_cp_signature(sig, siglen) : NULL;
+    ECDSA_SIG *s = NULL;
+
+    /* Both halves have a fixed size, other lengths are not signatures */
+    if (!pub_key
+        || siglen != (EVP_PKEY_base_id(pub_key) == NID_id_GostR3410_2012_512
+                      ? 128 : 64))
+        return 0;
+    s = (sig) ? unpack_cp_signature(sig, siglen) : NULL;
     if (!s)
         return 0;
 #ifdef DEBUG_SIGN
-- 
2.43.0


From 3ccbbedbd7181be1297430125b9ea823698bb1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:00 +0000
Subject: [PATCH 13/68] fix: unpack_cp_signature: report allocation failure
 instead of returning a signature without parts

---
 gost_pmeth.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gost_pmeth.c b/gost_pmeth.c
index 66db8cc..3c99b22 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -529,7 +529,13 @@ ECDSA_SIG *unpack_cp_signature(const unsigned char *sigbuf, size_t siglen)
     }
     s = BN_bin2bn(sigbuf, siglen / 2, NULL);
     r = BN_bin2bn(sigbuf + siglen / 2, siglen / 2, NULL);
-    ECDSA_SIG_set0(sig, r, s);
+    if (!ECDSA_SIG_set0(sig, r, s)) {
+        GOSTerr(GOST_F_UNPACK_CP_SIGNATURE, ERR_R_MALLOC_FAILURE);
+        BN_free(r);
+        BN_free(s);
+        ECDSA_SIG_free(sig);
+        return NULL;
+    }
     return sig;
 }
 
-- 
2.43.0


From 61d44db1e2a44af3558b08542a404138e0b8110a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:16 +0000
Subject: [PATCH 14/68] fix: pkey_gost_ec_derive: fail without a peer key or
 own private key instead of crashing

---
 gost_ec_keyx.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index 8839c4a..2ed5d51 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -203,6 +203,18 @@ int pkey_gost_ec_derive(EVP_PKEY_CTX *ctx, unsigned char *key, size_t *keylen)
         return 0;
     }
 
+    if (key) {
+        if (!peer_key || !EVP_PKEY_get0(peer_key)
+            || !EC_KEY_get0_public_key(EVP_PKEY_get0(peer_key))) {
+            GOSTerr(GOST_F_PKEY_GOST_EC_DERIVE, GOST_R_NO_PEER_KEY);
+            return 0;
+        }
+        if (!my_key || !gost_get0_priv_key(my_key)) {
+            GOSTerr(GOST_F_PKEY_GOST_EC_DERIVE, GOST_R_NO_PRIVATE_PART_OF_NON_EPHEMERAL_KEYPAIR);
+            return 0;
+        }
+    }
+
     /* VKO */
     if (data->vko_dgst_nid) {
         if (!key) {
-- 
2.43.0


From 87d45e0b0831c27f19a0602a22c19994ab9e5f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:16 +0000
Subject: [PATCH 15/68] fix: gost_keg: an all-zero UKM is replaced by 1, not by
 2^120

---
 gost_ec_keyx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index 2ed5d51..39a439a 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -139,7 +139,7 @@ static int gost_keg(const unsigned char *ukm_source, int pkey_nid,
 
     memset(real_ukm, 0, 16);
     if (memcmp(ukm_source, real_ukm, 16) == 0)
-        real_ukm[15] = 1;
+        real_ukm[0] = 1;        /* little-endian, as VKO expects it */
     else {
         memcpy(real_ukm, ukm_source, 16);
         BUF_reverse(real_ukm, NULL, 16);
-- 
2.43.0


From 8b3234a5a852d8bdc7f76603cd0f7fe364727f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:16 +0000
Subject: [PATCH 16/68] fix: gost_kdftree2012_256: do not leak the HMAC context
 on a bad output length

---
 gost_keyexpimp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gost_keyexpimp.c b/gost_keyexpimp.c
index 481d5b5..01ab068 100644
--- a/gost_keyexpimp.c
+++ b/gost_keyexpimp.c
@@ -220,6 +220,7 @@ int gost_kdftree2012_256(unsigned char *keyout, size_t keyout_len,
 
     if ((keyout_len == 0) || (keyout_len % 32 != 0)) {
         GOSTerr(GOST_F_GOST_KDFTREE2012_256, ERR_R_INTERNAL_ERROR);
+        HMAC_CTX_free(ctx);
         return 0;
     }
     iters = keyout_len / 32;
-- 
2.43.0


From 10c8a7ff97a202d920a90b871128dab6f2fb3838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:14 +0000
Subject: [PATCH 17/68] fix: key transport: refuse to wrap keys that are not
 256 bits long

---
 gost_ec_keyx.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index 39a439a..ad6eb25 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -566,6 +566,13 @@ int pkey_gost_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
                       size_t *out_len, const unsigned char *key, size_t key_len)
 {
   struct gost_pmeth_data *gctx = EVP_PKEY_CTX_get_data(pctx);
+
+  /* Both formats carry exactly one 256-bit key */
+  if (out != NULL && key_len != 32) {
+      GOSTerr(GOST_F_PKEY_GOST_ENCRYPT, GOST_R_INVALID_BUFFER_SIZE);
+      return 0;
+  }
+
   switch (gctx->cipher_nid)
   {
     case NID_id_Gost28147_89:
-- 
2.43.0


From 0f9393f090edcd78b0d41666525f61a7b382dca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:14 +0000
Subject: [PATCH 18/68] fix: key transport: do not free the ephemeral key twice
 when encoding fails

---
 gost_ec_keyx.c | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index ad6eb25..41689da 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -281,6 +281,26 @@ int pkey_gost_ec_derive(EVP_PKEY_CTX *ctx, unsigned char *key, size_t *keylen)
  * VKO and returns filled up GOST_KEY_TRANSPORT structure
  */
 
+/* New key pair on the curve of the given public key */
+static EVP_PKEY *gost_ephemeral_key(EVP_PKEY *pubk)
+{
+    EVP_PKEY *sec_key = EVP_PKEY_new();
+    EC_KEY *ec = EC_KEY_new();
+
+    if (sec_key == NULL || ec == NULL
+        || !EVP_PKEY_assign(sec_key, EVP_PKEY_base_id(pubk), ec)) {
+        EC_KEY_free(ec);
+        EVP_PKEY_free(sec_key);
+        return NULL;
+    }
+    if (!EVP_PKEY_copy_parameters(sec_key, pubk)
+        || !gost_ec_keygen(EVP_PKEY_get0(sec_key))) {
+        EVP_PKEY_free(sec_key);
+        return NULL;
+    }
+    return sec_key;
+}
+
 /*
  * EVP_PKEY_METHOD callback encrypt
  * Implementation of GOST2001/12 key transport, cryptopro variation
@@ -327,10 +347,8 @@ static int pkey_GOST_ECcp_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
     } else {
         key_is_ephemeral = 1;
         if (out) {
-            sec_key = EVP_PKEY_new();
-            if (!EVP_PKEY_assign(sec_key, EVP_PKEY_base_id(pubk), EC_KEY_new())
-                || !EVP_PKEY_copy_parameters(sec_key, pubk)
-                || !gost_ec_keygen(EVP_PKEY_get0(sec_key))) {
+            sec_key = gost_ephemeral_key(pubk);
+            if (sec_key == NULL) {
                 GOSTerr(GOST_F_PKEY_GOST_ECCP_ENCRYPT,
                         GOST_R_ERROR_COMPUTING_SHARED_KEY);
                 goto err;
@@ -377,8 +395,6 @@ static int pkey_GOST_ECcp_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
     }
     ASN1_OBJECT_free(gkt->key_agreement_info->cipher);
     gkt->key_agreement_info->cipher = OBJ_nid2obj(param->nid);
-    if (key_is_ephemeral)
-        EVP_PKEY_free(sec_key);
     if (!key_is_ephemeral) {
         /* Set control "public key from client certificate used" */
         if (EVP_PKEY_CTX_ctrl(pctx, -1, -1, EVP_PKEY_CTRL_PEER_KEY, 3, NULL)
@@ -408,6 +424,8 @@ static int pkey_GOST_ECcp_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
     }
 
     OPENSSL_cleanse(shared_key, sizeof(shared_key));
+    if (key_is_ephemeral)
+        EVP_PKEY_free(sec_key);
     GOST_KEY_TRANSPORT_free(gkt);
     return ret;
  err:
@@ -466,15 +484,8 @@ static int pkey_gost2018_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
     sec_key = EVP_PKEY_CTX_get0_peerkey(pctx);
     if (!sec_key)
     {
-      sec_key = EVP_PKEY_new();
+      sec_key = gost_ephemeral_key(pubk);
       if (sec_key == NULL) {
-        GOSTerr(GOST_F_PKEY_GOST2018_ENCRYPT, ERR_R_MALLOC_FAILURE );
-        goto err;
-      }
-
-      if (!EVP_PKEY_assign(sec_key, EVP_PKEY_base_id(pubk), EC_KEY_new())
-          || !EVP_PKEY_copy_parameters(sec_key, pubk)
-          || !gost_ec_keygen(EVP_PKEY_get0(sec_key))) {
         GOSTerr(GOST_F_PKEY_GOST2018_ENCRYPT,
             GOST_R_ERROR_COMPUTING_SHARED_KEY);
         goto err;
-- 
2.43.0


From 7da1b90d669b6cdc4c927d490f3392826c72b04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:14 +0000
Subject: [PATCH 19/68] fix: key transport: reject malformed and foreign blobs
 without aborting, keep the context usable

A blob with fields of unexpected size aborted the process, an ephemeral key of
another algorithm was used as if it were a GOST key, and the UKM or ephemeral
key of one blob was kept in the context and used for the next one.
---
 gost_ec_keyx.c | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index 41689da..86b44c3 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -600,6 +600,13 @@ int pkey_gost_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
   }
 }
 
+/* Received public key is usable with ours: same algorithm and curve */
+static int gost_same_key_params(EVP_PKEY *peer, EVP_PKEY *priv)
+{
+    return EVP_PKEY_base_id(peer) == EVP_PKEY_base_id(priv)
+        && EVP_PKEY_parameters_eq(peer, priv) == 1;
+}
+
 /*
  * EVP_PKEY_METHOD callback decrypt
  * Implementation of GOST2001/12 key transport, cryptopro variation
@@ -629,11 +636,12 @@ static int pkey_GOST_ECcp_decrypt(EVP_PKEY_CTX *pctx, unsigned char *key,
     /* If key transport structure contains public key, use it */
     eph_key = X509_PUBKEY_get(gkt->key_agreement_info->ephem_key);
     if (eph_key) {
-        if (EVP_PKEY_derive_set_peer(pctx, eph_key) <= 0) {
+        if (!gost_same_key_params(eph_key, priv)) {
             GOSTerr(GOST_F_PKEY_GOST_ECCP_DECRYPT,
                     GOST_R_INCOMPATIBLE_PEER_KEY);
             goto err;
         }
+        peerkey = eph_key;
     } else {
         /* Set control "public key from client certificate used" */
         if (EVP_PKEY_CTX_ctrl(pctx, -1, -1, EVP_PKEY_CTRL_PEER_KEY, 3, NULL)
@@ -641,8 +649,8 @@ static int pkey_GOST_ECcp_decrypt(EVP_PKEY_CTX *pctx, unsigned char *key,
             GOSTerr(GOST_F_PKEY_GOST_ECCP_DECRYPT, GOST_R_CTRL_CALL_FAILED);
             goto err;
         }
+        peerkey = EVP_PKEY_CTX_get0_peerkey(pctx);
     }
-    peerkey = EVP_PKEY_CTX_get0_peerkey(pctx);
     if (!peerkey) {
         GOSTerr(GOST_F_PKEY_GOST_ECCP_DECRYPT, GOST_R_NO_PEER_KEY);
         goto err;
@@ -653,12 +661,16 @@ static int pkey_GOST_ECcp_decrypt(EVP_PKEY_CTX *pctx, unsigned char *key,
         goto err;
     }
 
+    if (gkt->key_agreement_info->eph_iv->length != 8
+        || gkt->key_info->encrypted_key->length != 32
+        || gkt->key_info->imit->length != 4) {
+        GOSTerr(GOST_F_PKEY_GOST_ECCP_DECRYPT,
+                GOST_R_ERROR_PARSING_KEY_TRANSPORT_INFO);
+        goto err;
+    }
     gost_init(&ctx, param->sblock);
-    OPENSSL_assert(gkt->key_agreement_info->eph_iv->length == 8);
     memcpy(wrappedKey, gkt->key_agreement_info->eph_iv->data, 8);
-    OPENSSL_assert(gkt->key_info->encrypted_key->length == 32);
     memcpy(wrappedKey + 8, gkt->key_info->encrypted_key->data, 32);
-    OPENSSL_assert(gkt->key_info->imit->length == 4);
     memcpy(wrappedKey + 40, gkt->key_info->imit->data, 4);
 
     EVP_PKEY_get_default_digest_nid(priv, &dgst_nid);
@@ -700,7 +712,7 @@ static int pkey_gost2018_decrypt(EVP_PKEY_CTX *pctx, unsigned char *key,
     EVP_PKEY *priv;
     PSKeyTransport_gost *pst = NULL;
     int ret = 0;
-    unsigned char expkeys[64];
+    unsigned char expkeys[64], ukm[32];
     EVP_PKEY *eph_key = NULL;
     int pkey_nid;
     int mac_nid = NID_undef;
@@ -748,22 +760,24 @@ static int pkey_gost2018_decrypt(EVP_PKEY_CTX *pctx, unsigned char *key,
 
    o  q * Q_eph is not equal to zero point.
 */
-    if (eph_key == NULL) {
+    if (eph_key == NULL || !gost_same_key_params(eph_key, priv)) {
        GOSTerr(GOST_F_PKEY_GOST2018_DECRYPT,
                GOST_R_ERROR_COMPUTING_EXPORT_KEYS);
        ret = 0;
        goto err;
     }
 
+    /* UKM set by the caller is used instead of the transmitted one */
+    memcpy(ukm, data->shared_ukm, sizeof(ukm));
     if (data->shared_ukm_size == 0 && pst->ukm != NULL) {
-        if (EVP_PKEY_CTX_ctrl(pctx, -1, -1, EVP_PKEY_CTRL_SET_IV,
-        ASN1_STRING_length(pst->ukm), (void *)ASN1_STRING_get0_data(pst->ukm)) < 0) {
+        if (ASN1_STRING_length(pst->ukm) != sizeof(ukm)) {
             GOSTerr(GOST_F_PKEY_GOST2018_DECRYPT, GOST_R_UKM_NOT_SET);
             goto err;
         }
+        memcpy(ukm, ASN1_STRING_get0_data(pst->ukm), sizeof(ukm));
     }
 
-    if (gost_keg(data->shared_ukm, pkey_nid,
+    if (gost_keg(ukm, pkey_nid,
                  EC_KEY_get0_public_key(EVP_PKEY_get0(eph_key)),
                  EVP_PKEY_get0(priv), expkeys) <= 0) {
         GOSTerr(GOST_F_PKEY_GOST2018_DECRYPT,
@@ -773,7 +787,7 @@ static int pkey_gost2018_decrypt(EVP_PKEY_CTX *pctx, unsigned char *key,
 
     if (gost_kimp15(ASN1_STRING_get0_data(pst->psexp),
                     ASN1_STRING_length(pst->psexp), data->cipher_nid,
-                    expkeys + 32, mac_nid, expkeys + 0, data->shared_ukm + 24,
+                    expkeys + 32, mac_nid, expkeys + 0, ukm + 24,
                     iv_len, key) <= 0) {
         GOSTerr(GOST_F_PKEY_GOST2018_DECRYPT, GOST_R_CANNOT_UNPACK_EPHEMERAL_KEY);
         goto err;
-- 
2.43.0


From 1df9e96757b8a8c74b67dc1a3cd238ad949d6ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:14 +0000
Subject: [PATCH 20/68] fix: kexp15 ciphers: report a wrong, truncated or
 over-long blob, output the key once

A blob whose MAC did not match, or that had the wrong length, was reported as
success without output, and EVP_DecryptFinal repeated the key already output.
---
 gost_keyexpimp.c | 42 ++++++++++++++++++++----------------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/gost_keyexpimp.c b/gost_keyexpimp.c
index 01ab068..f3dbdff 100644
--- a/gost_keyexpimp.c
+++ b/gost_keyexpimp.c
@@ -311,8 +311,8 @@ int gost_tlstree(int cipher_nid, const unsigned char *in, unsigned char *out,
 #define KUZNYECHIK_MAC_WRAP_LEN 16
 #define MAX_MAC_WRAP_LEN KUZNYECHIK_MAC_WRAP_LEN
 #define GOSTKEYLEN 32
-#define MAGMA_WRAPPED_KEY_LEN GOSTKEYLEN + MAGMA_MAC_WRAP_LEN
-#define KUZNYECHIK_WRAPPED_KEY_LEN GOSTKEYLEN + KUZNYECHIK_MAC_WRAP_LEN
+#define MAGMA_WRAPPED_KEY_LEN (GOSTKEYLEN + MAGMA_MAC_WRAP_LEN)
+#define KUZNYECHIK_WRAPPED_KEY_LEN (GOSTKEYLEN + KUZNYECHIK_MAC_WRAP_LEN)
 #define MAX_WRAPPED_KEY_LEN KUZNYECHIK_WRAPPED_KEY_LEN
 
 typedef struct {
@@ -349,16 +349,15 @@ static int magma_wrap_do(EVP_CIPHER_CTX *ctx, unsigned char *out,
 	if (out == NULL)
 		return GOSTKEYLEN;
 
-	if (inl <= MAGMA_WRAPPED_KEY_LEN) {
-		if (cctx->wrap_count + inl > MAGMA_WRAPPED_KEY_LEN)
-			return -1;
+	/* Final: the key was output by the update that completed the blob */
+	if (in == NULL)
+		return cctx->wrap_count == MAGMA_WRAPPED_KEY_LEN ? 0 : -1;
 
-		if (cctx->wrap_count + inl <= MAGMA_WRAPPED_KEY_LEN)
-		{
-			memcpy(cctx->wrapped+cctx->wrap_count, in, inl);
-			cctx->wrap_count += inl;
-		}
-	}
+	if (inl > MAGMA_WRAPPED_KEY_LEN - cctx->wrap_count)
+		return -1;
+
+	memcpy(cctx->wrapped+cctx->wrap_count, in, inl);
+	cctx->wrap_count += inl;
 
 	if (cctx->wrap_count < MAGMA_WRAPPED_KEY_LEN)
 		return 0;
@@ -371,7 +370,7 @@ static int magma_wrap_do(EVP_CIPHER_CTX *ctx, unsigned char *out,
 		return -1;
 	} else {
 		return gost_kimp15(cctx->wrapped, cctx->wrap_count, NID_magma_ctr,
-		cctx->key+GOSTKEYLEN, NID_magma_mac, cctx->key, cctx->iv, 4, out) > 0 ? GOSTKEYLEN : 0;
+		cctx->key+GOSTKEYLEN, NID_magma_mac, cctx->key, cctx->iv, 4, out) > 0 ? GOSTKEYLEN : -1;
 	}
 }
 
@@ -402,16 +401,15 @@ static int kuznyechik_wrap_do(EVP_CIPHER_CTX *ctx, unsigned char *out,
 	if (out == NULL)
 		return GOSTKEYLEN;
 
-	if (inl <= KUZNYECHIK_WRAPPED_KEY_LEN) {
-		if (cctx->wrap_count + inl > KUZNYECHIK_WRAPPED_KEY_LEN)
-			return -1;
+	/* Final: the key was output by the update that completed the blob */
+	if (in == NULL)
+		return cctx->wrap_count == KUZNYECHIK_WRAPPED_KEY_LEN ? 0 : -1;
 
-		if (cctx->wrap_count + inl <= KUZNYECHIK_WRAPPED_KEY_LEN)
-		{
-			memcpy(cctx->wrapped+cctx->wrap_count, in, inl);
-			cctx->wrap_count += inl;
-		}
-	}
+	if (inl > KUZNYECHIK_WRAPPED_KEY_LEN - cctx->wrap_count)
+		return -1;
+
+	memcpy(cctx->wrapped+cctx->wrap_count, in, inl);
+	cctx->wrap_count += inl;
 
 	if (cctx->wrap_count < KUZNYECHIK_WRAPPED_KEY_LEN)
 		return 0;
@@ -424,7 +422,7 @@ static int kuznyechik_wrap_do(EVP_CIPHER_CTX *ctx, unsigned char *out,
 		return -1;
 	} else {
 		return gost_kimp15(cctx->wrapped, cctx->wrap_count, NID_kuznyechik_ctr,
-		cctx->key+GOSTKEYLEN, NID_kuznyechik_mac, cctx->key, cctx->iv, 8, out) > 0 ? GOSTKEYLEN : 0;
+		cctx->key+GOSTKEYLEN, NID_kuznyechik_mac, cctx->key, cctx->iv, 8, out) > 0 ? GOSTKEYLEN : -1;
 	}
 }
 
-- 
2.43.0


From a80157d3a5f1730b7b47f0b2eedd9e85c29b3950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:21 +0000
Subject: [PATCH 21/68] fix: gost_ameth: check allocations when encoding and
 decoding keys

Failed allocations were dereferenced or ignored, and the private key handed to
PKCS8_pkey_set0() came from the secure heap although it is released with
OPENSSL_clear_free().
---
 gost_ameth.c | 55 ++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 38 insertions(+), 17 deletions(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index 8e02a15..1ae5189 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -132,7 +132,7 @@ static int gost_decode_nid_params(EVP_PKEY *pkey, int pkey_nid, int param_nid)
     case NID_id_GostR3410_2001DH:
         if (!key_ptr) {
             key_ptr = EC_KEY_new();
-            if (!EVP_PKEY_assign(pkey, pkey_nid, key_ptr)) {
+            if (!key_ptr || !EVP_PKEY_assign(pkey, pkey_nid, key_ptr)) {
                 EC_KEY_free(key_ptr);
                 break;
             }
@@ -194,7 +194,10 @@ static int gost_set_priv_key(EVP_PKEY *pkey, BIGNUM *priv)
             EC_KEY *ec = EVP_PKEY_get0(pkey);
             if (!ec) {
                 ec = EC_KEY_new();
-                EVP_PKEY_assign(pkey, EVP_PKEY_base_id(pkey), ec);
+                if (!ec || !EVP_PKEY_assign(pkey, EVP_PKEY_base_id(pkey), ec)) {
+                    EC_KEY_free(ec);
+                    return 0;
+                }
             }
             if (!EC_KEY_set_private_key(ec, priv))
                 return 0;
@@ -571,11 +574,16 @@ static BIGNUM *unmask_priv_key(EVP_PKEY *pk,
         for (; p != buf; p -= len) {
             BIGNUM *mask = BN_lebin2bn(p, len, BN_secure_new());
             BN_CTX *ctx = BN_CTX_secure_new();
-
-            BN_mod_mul(pknum_masked, pknum_masked, mask, q, ctx);
+            int ok = mask && ctx
+                && BN_mod_mul(pknum_masked, pknum_masked, mask, q, ctx);
 
             BN_CTX_free(ctx);
             BN_free(mask);
+            if (!ok) {
+                BN_free(pknum_masked);
+                pknum_masked = NULL;
+                goto end;
+            }
         }
     }
 
@@ -677,18 +685,18 @@ static int priv_encode_gost(PKCS8_PRIV_KEY_INFO *p8, const EVP_PKEY *pk)
     const char *pk_format = get_gost_engine_param(GOST_PARAM_PK_FORMAT);
 
     key_len = (key_len < 0) ? 0 : key_len / 8;
-    if (key_len == 0 || !(buf = OPENSSL_secure_malloc(key_len))) {
+    if (key_len == 0 || !(buf = OPENSSL_malloc(key_len))) {
         return 0;
     }
 
     if (!store_bignum(gost_get0_priv_key(pk), buf, key_len)) {
-        OPENSSL_secure_free(buf);
+        OPENSSL_clear_free(buf, key_len);
         return 0;
     }
 
     params = encode_gost_algor_params(pk);
     if (!params) {
-        OPENSSL_secure_free(buf);
+        OPENSSL_clear_free(buf, key_len);
         return 0;
     }
 
@@ -706,19 +714,27 @@ static int priv_encode_gost(PKCS8_PRIV_KEY_INFO *p8, const EVP_PKEY *pk)
         if (!octet || !ASN1_OCTET_STRING_set(octet, buf, key_len)) {
             ASN1_STRING_free(octet);
             ASN1_STRING_free(params);
-            OPENSSL_secure_free(buf);
+            OPENSSL_clear_free(buf, key_len);
             return 0;
         }
         priv_len = i2d_ASN1_OCTET_STRING(octet, &priv_buf);
         ASN1_STRING_free(octet);
-        OPENSSL_secure_free(buf);
-
-        return PKCS8_pkey_set0(p8, algobj, 0, V_ASN1_SEQUENCE, params,
-                               priv_buf, priv_len);
+        OPENSSL_clear_free(buf, key_len);
+        if (priv_len <= 0) {
+            ASN1_STRING_free(params);
+            return 0;
+        }
+        buf = priv_buf;
+        key_len = priv_len;
     }
 
-    return PKCS8_pkey_set0(p8, algobj, 0, V_ASN1_SEQUENCE, params,
-                           buf, key_len);
+    if (!PKCS8_pkey_set0(p8, algobj, 0, V_ASN1_SEQUENCE, params,
+                         buf, key_len)) {
+        ASN1_STRING_free(params);
+        OPENSSL_clear_free(buf, key_len);
+        return 0;
+    }
+    return 1;
 }
 
 /* --------- printing keys --------------------------------*/
@@ -943,7 +959,7 @@ static int pub_decode_gost_ec(EVP_PKEY *pk, const X509_PUBKEY *pub)
         goto ret;
     }
     pub_key = EC_POINT_new(group);
-    if (!EC_POINT_set_affine_coordinates(group, pub_key, X, Y, NULL)) {
+    if (!pub_key || !EC_POINT_set_affine_coordinates(group, pub_key, X, Y, NULL)) {
         GOSTerr(GOST_F_PUB_DECODE_GOST_EC, ERR_R_EC_LIB);
         goto ret;
     }
@@ -977,6 +993,8 @@ static int pub_encode_gost_ec(X509_PUBKEY *pub, const EVP_PKEY *pk)
     algobj = OBJ_nid2obj(EVP_PKEY_base_id(pk));
 
     params = encode_gost_algor_params(pk);
+    if (!params)
+        return 0;
     pval = params;
 
     order = BN_new();
@@ -1039,9 +1057,12 @@ static int pub_encode_gost_ec(X509_PUBKEY *pub, const EVP_PKEY *pk)
     if (databuf)
         OPENSSL_free(databuf);
 
-    if (ret < 0)
+    if (ret < 0 || !X509_PUBKEY_set0_param(pub, algobj, ptype, pval, buf, ret)) {
+        ASN1_STRING_free(params);
+        OPENSSL_free(buf);
         return 0;
-    return X509_PUBKEY_set0_param(pub, algobj, ptype, pval, buf, ret);
+    }
+    return 1;
 }
 
 static int pub_cmp_gost_ec(const EVP_PKEY *a, const EVP_PKEY *b)
-- 
2.43.0


From 827f6c9dddbf8b4489fa39c649a03b98c1376889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:21 +0000
Subject: [PATCH 22/68] fix: key transport: a failed encoding is not a blob of
 (size_t)-1 bytes

---
 gost_ec_keyx.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index 86b44c3..1a03883 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -417,9 +417,11 @@ static int pkey_GOST_ECcp_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
             GOSTerr(GOST_F_PKEY_GOST_ECCP_ENCRYPT, GOST_R_INVALID_BUFFER_SIZE);
             goto err;
         }
-        if ((*out_len = i2d_GOST_KEY_TRANSPORT(gkt, &out)) > 0)
+        res_len = i2d_GOST_KEY_TRANSPORT(gkt, &out);
+        if (res_len > 0) {
+            *out_len = res_len;
             ret = 1;
-        else
+        } else
             GOSTerr(GOST_F_PKEY_GOST_ECCP_ENCRYPT, ERR_R_ASN1_LIB);
     }
 
@@ -557,9 +559,11 @@ static int pkey_gost2018_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
             GOSTerr(GOST_F_PKEY_GOST2018_ENCRYPT, GOST_R_INVALID_BUFFER_SIZE);
             goto err;
         }
-        if ((*out_len = i2d_PSKeyTransport_gost(pst, &out)) > 0)
+        res_len = i2d_PSKeyTransport_gost(pst, &out);
+        if (res_len > 0) {
+            *out_len = res_len;
             ret = 1;
-        else
+        } else
             GOSTerr(GOST_F_PKEY_GOST2018_ENCRYPT, ERR_R_ASN1_LIB);
     }
 
-- 
2.43.0


From 562fc16a902e48a4ce3ea12b2b3ee5549b21840e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:58 +0000
Subject: [PATCH 23/68] fix: key generation: report a failure instead of
 returning a key without a private part

---
 gost_pmeth.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/gost_pmeth.c b/gost_pmeth.c
index 3c99b22..2318c61 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -447,8 +447,7 @@ static int pkey_gost2001cp_keygen(EVP_PKEY_CTX *ctx, EVP_PKEY *pkey)
     if (!pkey_gost2001_paramgen(ctx, pkey))
         return 0;
     ec = EVP_PKEY_get0(pkey);
-    gost_ec_keygen(ec);
-    return 1;
+    return gost_ec_keygen(ec);
 }
 
 /* Generates GOST_R3410 2012 key and assigns it using specified type */
@@ -457,8 +456,7 @@ static int pkey_gost2012cp_keygen(EVP_PKEY_CTX *ctx, EVP_PKEY *pkey)
     if (!pkey_gost2012_paramgen(ctx, pkey))
         return 0;
 
-    gost_ec_keygen(EVP_PKEY_get0(pkey));
-    return 1;
+    return gost_ec_keygen(EVP_PKEY_get0(pkey));
 }
 
 /* ----------- sign callbacks --------------------------------------*/
-- 
2.43.0


From 88eba573478537a4fe22b4385bca21904bc8de31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:01 +0000
Subject: [PATCH 24/68] fix: MAC key generation: report a failed assignment and
 release the key data

---
 gost_pmeth.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gost_pmeth.c b/gost_pmeth.c
index 2318c61..05e02bb 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -946,7 +946,10 @@ static int pkey_gost_mac_keygen_base(EVP_PKEY_CTX *ctx,
     memcpy(keydata->key, data->key, 32);
     keydata->mac_param_nid = data->mac_param_nid;
     keydata->mac_size = data->mac_size;
-    EVP_PKEY_assign(pkey, mac_nid, keydata);
+    if (!EVP_PKEY_assign(pkey, mac_nid, keydata)) {
+        OPENSSL_clear_free(keydata, sizeof(*keydata));
+        return 0;
+    }
     return 1;
 }
 
-- 
2.43.0


From 37bdfe82fe2defde4963c928cf67d6f5e0346e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:01 +0000
Subject: [PATCH 25/68] fix: KDF seed: an unsupported random source is a
 failure too

---
 gost_gost2015.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gost_gost2015.c b/gost_gost2015.c
index 207016f..1331e57 100644
--- a/gost_gost2015.c
+++ b/gost_gost2015.c
@@ -231,7 +231,7 @@ int init_zero_kdf_seed(unsigned char *kdf_seed)
             is_zero_kdfseed = 0;
     }
 
-    return is_zero_kdfseed ? RAND_bytes(kdf_seed, 8) : 1;
+    return is_zero_kdfseed ? RAND_bytes(kdf_seed, 8) == 1 : 1;
 }
 
 void gost_mgm128_init(mgm128_context *ctx, void *key, block128_f block, mul128_f mul_gf, int blen)
-- 
2.43.0


From e742d00d6a17c300097961354e2b9dec8de2c26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:01 +0000
Subject: [PATCH 26/68] fix: signing: release both numbers when one cannot be
 duplicated

---
 gost_ec_sign.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gost_ec_sign.c b/gost_ec_sign.c
index 73b51f0..a4d6a3d 100644
--- a/gost_ec_sign.c
+++ b/gost_ec_sign.c
@@ -304,6 +304,8 @@ ECDSA_SIG *gost_ec_sign(const unsigned char *dgst, int dlen, EC_KEY *eckey)
     new_r = BN_dup(r);
     if (!new_s || !new_r) {
         GOSTerr(GOST_F_GOST_EC_SIGN, ERR_R_MALLOC_FAILURE);
+        BN_free(new_s);
+        BN_free(new_r);
         goto err;
     }
     ECDSA_SIG_set0(newsig, new_r, new_s);
-- 
2.43.0


From 3f49eb87e9cccff9f5e538cbdf80395232593a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:37 +0000
Subject: [PATCH 27/68] fix: private key decoding: do not leak the number when
 it cannot be filled

---
 gost_ameth.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index 1ae5189..16190d7 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -547,6 +547,18 @@ static void pkey_free_gost_ec(EVP_PKEY *key)
 
 /* ------------------ private key functions  -----------------------------*/
 
+/* BN_lebin2bn() into a secure number; nothing is left behind on failure */
+static BIGNUM *secure_lebin2bn(const unsigned char *buf, int len)
+{
+    BIGNUM *num = BN_secure_new();
+
+    if (num && !BN_lebin2bn(buf, len, num)) {
+        BN_free(num);
+        num = NULL;
+    }
+    return num;
+}
+
 static BIGNUM *unmask_priv_key(EVP_PKEY *pk,
                                const unsigned char *buf, int len, int num_masks)
 {
@@ -554,7 +566,7 @@ static BIGNUM *unmask_priv_key(EVP_PKEY *pk,
     const EC_KEY *key_ptr = (pk) ? EVP_PKEY_get0(pk) : NULL;
     const EC_GROUP *group = (key_ptr) ? EC_KEY_get0_group(key_ptr) : NULL;
 
-    pknum_masked = BN_lebin2bn(buf, len, BN_secure_new());
+    pknum_masked = secure_lebin2bn(buf, len);
     if (!pknum_masked)
         return NULL;
 
@@ -572,7 +584,7 @@ static BIGNUM *unmask_priv_key(EVP_PKEY *pk,
         }
 
         for (; p != buf; p -= len) {
-            BIGNUM *mask = BN_lebin2bn(p, len, BN_secure_new());
+            BIGNUM *mask = secure_lebin2bn(p, len);
             BN_CTX *ctx = BN_CTX_secure_new();
             int ok = mask && ctx
                 && BN_mod_mul(pknum_masked, pknum_masked, mask, q, ctx);
@@ -630,7 +642,7 @@ static int priv_decode_gost(EVP_PKEY *pk,
             GOSTerr(GOST_F_PRIV_DECODE_GOST, EVP_R_DECODE_ERROR);
             return 0;
         }
-        pk_num = BN_lebin2bn(s->data, s->length, BN_secure_new());
+        pk_num = secure_lebin2bn(s->data, s->length);
         ASN1_STRING_free(s);
     } else if (V_ASN1_INTEGER == *p) {
         priv_key = d2i_ASN1_INTEGER(NULL, &p, priv_len);
@@ -638,7 +650,11 @@ static int priv_decode_gost(EVP_PKEY *pk,
             GOSTerr(GOST_F_PRIV_DECODE_GOST, EVP_R_DECODE_ERROR);
             return 0;
         }
-        pk_num = ASN1_INTEGER_to_BN(priv_key, BN_secure_new());
+        pk_num = BN_secure_new();
+        if (pk_num && !ASN1_INTEGER_to_BN(priv_key, pk_num)) {
+            BN_free(pk_num);
+            pk_num = NULL;
+        }
         ASN1_INTEGER_free(priv_key);
     } else if ((V_ASN1_SEQUENCE | V_ASN1_CONSTRUCTED) == *p) {
         MASKED_GOST_KEY *mgk = d2i_MASKED_GOST_KEY(NULL, &p, priv_len);
-- 
2.43.0


From 69dc886b28475f30af3d6370d4e4b96c443ae68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:16 +0000
Subject: [PATCH 28/68] fix: GOST 28147-89 parameters: check the decoded
 structure and release the octet string

---
 gost_crypt.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 030f906..4f0fcc2 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -1417,7 +1417,7 @@ static int gost89_set_asn1_parameters(EVP_CIPHER_CTX *ctx, ASN1_TYPE *params)
     gcp->enc_param_set = OBJ_nid2obj(c->paramNID);
 
     len = i2d_GOST_CIPHER_PARAMS(gcp, NULL);
-    p = buf = OPENSSL_malloc(len);
+    p = buf = len > 0 ? OPENSSL_malloc(len) : NULL;
     if (!buf) {
         GOST_CIPHER_PARAMS_free(gcp);
         GOSTerr(GOST_F_GOST89_SET_ASN1_PARAMETERS, ERR_R_MALLOC_FAILURE);
@@ -1429,6 +1429,7 @@ static int gost89_set_asn1_parameters(EVP_CIPHER_CTX *ctx, ASN1_TYPE *params)
     os = ASN1_OCTET_STRING_new();
 
     if (!os || !ASN1_OCTET_STRING_set(os, buf, len)) {
+        ASN1_OCTET_STRING_free(os);
         OPENSSL_free(buf);
         GOSTerr(GOST_F_GOST89_SET_ASN1_PARAMETERS, ERR_R_MALLOC_FAILURE);
         return 0;
@@ -1457,6 +1458,12 @@ static int gost89_get_asn1_parameters(EVP_CIPHER_CTX *ctx, ASN1_TYPE *params)
     gcp = d2i_GOST_CIPHER_PARAMS(NULL, (const unsigned char **)&p,
                                  params->value.sequence->length);
 
+    if (!gcp) {
+        GOSTerr(GOST_F_GOST89_GET_ASN1_PARAMETERS,
+                GOST_R_INVALID_CIPHER_PARAMS);
+        return -1;
+    }
+
     len = gcp->iv->length;
     if (len != EVP_CIPHER_CTX_iv_length(ctx)) {
         GOST_CIPHER_PARAMS_free(gcp);
-- 
2.43.0


From e4a6130b5180253deec46d0d15b3acf3f93a3786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:33 +0000
Subject: [PATCH 29/68] fix: printing a public key: check that the coordinates
 could be allocated

---
 gost_ameth.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gost_ameth.c b/gost_ameth.c
index 16190d7..5b5bb9f 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -793,6 +793,10 @@ static int print_gost_ec_pub(BIO *out, const EVP_PKEY *pkey, int indent)
     group = (key) ? EC_KEY_get0_group(key) : NULL;
     if (!pubkey || !group)
         goto err;
+    if (!X || !Y) {
+        GOSTerr(GOST_F_PRINT_GOST_EC_PUB, ERR_R_MALLOC_FAILURE);
+        goto err;
+    }
 
     if (!EC_POINT_get_affine_coordinates(group, pubkey, X, Y, ctx)) {
         GOSTerr(GOST_F_PRINT_GOST_EC_PUB, ERR_R_EC_LIB);
-- 
2.43.0


From 84395e876b7ac949fd4297bde870c13694f455a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:25 +0000
Subject: [PATCH 30/68] fix: gostsum -c: a malformed, truncated or unreadable
 list is a failure, not the end of the list

---
 gostsum.c | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/gostsum.c b/gostsum.c
index b61215c..f4f4cd3 100644
--- a/gostsum.c
+++ b/gostsum.c
@@ -95,7 +95,7 @@ int main(int argc, char **argv)
                 exit(2);
             }
         }
-        while (get_line(check_file, inhash, filename)) {
+        while ((c = get_line(check_file, inhash, filename)) > 0) {
             count++;
             if (!hash_file(&ctx, filename, calcsum, open_mode)) {
                 errors++;
@@ -127,7 +127,7 @@ int main(int argc, char **argv)
                     "%s: %d of %d file(f) failed GOST hash sum check\n",
                     argv[0], failcount, count);
         }
-        exit((failcount || errors) ? 1 : 0);
+        exit((failcount || errors || c < 0) ? 1 : 0);
     }
     if (optind == argc) {
         char sum[65];
@@ -189,25 +189,37 @@ int hash_stream(gost_hash_ctx * ctx, int fd, char *sum)
     return 1;
 }
 
+/* Returns 1 for an entry, 0 at the end of the list and -1 on error */
 int get_line(FILE *f, char *hash, char *filename)
 {
-    int i;
-    if (fread(hash, 1, 64, f) < 64)
-        return 0;
+    size_t i = fread(hash, 1, 64, f);
+    if (ferror(f)) {
+        perror("Cannot read list of hash values");
+        return -1;
+    }
+    if (i < 64) {
+        while (i > 0 && (hash[i - 1] == '\n' || hash[i - 1] == '\r'))
+            i--;
+        if (i == 0)
+            return 0;
+        fprintf(stderr, "Malformed input line\n");
+        return -1;
+    }
     hash[64] = 0;
     for (i = 0; i < 64; i++) {
         if (hash[i] < '0' || (hash[i] > '9' && hash[i] < 'A')
             || (hash[i] > 'F' && hash[i] < 'a') || hash[i] > 'f') {
             fprintf(stderr, "Not a hash value '%s'\n", hash);
-            return 0;
+            return -1;
         }
     }
-    if (fgetc(f) != ' ') {
+    if (fgetc(f) != ' ' || fgets(filename, PATH_MAX, f) == NULL
+        || ferror(f)) {
         fprintf(stderr, "Malformed input line\n");
-        return 0;
+        return -1;
     }
-    i = strlen(fgets(filename, PATH_MAX, f));
-    while (filename[--i] == '\n' || filename[i] == '\r')
-        filename[i] = 0;
+    i = strlen(filename);
+    while (i > 0 && (filename[i - 1] == '\n' || filename[i - 1] == '\r'))
+        filename[--i] = 0;
     return 1;
 }
-- 
2.43.0


From df95cf71ed42d5822853ca6f4edb8265515c4ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:48 +0000
Subject: [PATCH 31/68] fix: gost12sum: report a list or name input that cannot
 be read, do not run off blank lines

---
 gost12sum.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/gost12sum.c b/gost12sum.c
index e644a61..d8e27f5 100644
--- a/gost12sum.c
+++ b/gost12sum.c
@@ -167,6 +167,10 @@ int main(int argc, char **argv)
                     argv[0], errors, count);
 
         }
+        if (ferror(check_file)) {
+            fprintf(stderr, "%s: cannot read list of hash values\n", argv[0]);
+            errors++;
+        }
         if (failcount) {
             fprintf(stderr,
                     "%s: WARNING %d of %d processed file(s) failed GOST hash sum check\n",
@@ -179,17 +183,19 @@ int main(int argc, char **argv)
         while (!feof(stdin)) {
             if (!fgets(filename, PATH_MAX, stdin))
                 break;
-            for (end = filename; *end; end++) ;
-            end--;
-            for (; *end == '\n' || *end == '\r'; end--)
-                *end = 0;
+            end = filename + strlen(filename);
+            while (end > filename && (end[-1] == '\n' || end[-1] == '\r'))
+                *--end = 0;
             if (!hash_file(&ctx, filename, sum, open_mode, hashsize)) {
                 errors++;
             } else {
                 printf("%s %s\n", sum, filename);
             }
         }
-
+        if (ferror(stdin)) {
+            perror("stdin");
+            errors++;
+        }
     } else if (optind == argc) {
         char sum[MAX_HASH_TXT_BYTES + 1];
         if (!hash_stream(&ctx, fileno(stdin), sum, hashsize)) {
@@ -261,8 +267,8 @@ int get_line(FILE *f, char *hash, char *filename, int verbose, int *size)
             ptr++;
 
         len = strlen(ptr);
-        while (ptr[--len] == '\n' || ptr[len] == '\r')
-            ptr[len] = 0;
+        while (len > 0 && (ptr[len - 1] == '\n' || ptr[len - 1] == '\r'))
+            ptr[--len] = 0;
 
         if (len == 0)
             goto nextline;
-- 
2.43.0


From 590a564d646cce67f9d3dccd538751d848230f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:02 +0000
Subject: [PATCH 32/68] fix: gostsum, gost12sum: read back lists with file
 names close to PATH_MAX

---
 gost12sum.c | 8 +++++---
 gostsum.c   | 4 ++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/gost12sum.c b/gost12sum.c
index d8e27f5..fe3ff3f 100644
--- a/gost12sum.c
+++ b/gost12sum.c
@@ -29,6 +29,8 @@ typedef SSIZE_T ssize_t;
 #include "gosthash2012.h"
 #define BUF_SIZE 262144
 #define MAX_HASH_TXT_BYTES 128
+/* Room for a hash, a space, the longest file name, a newline and a zero byte */
+#define LINE_SIZE (MAX_HASH_TXT_BYTES + 1 + PATH_MAX + 1)
 #define gost_hash_ctx gost2012_hash_ctx
 
 typedef unsigned char byte;
@@ -118,7 +120,7 @@ int main(int argc, char **argv)
 
     if (check_file) {
         char inhash[MAX_HASH_TXT_BYTES + 1], calcsum[MAX_HASH_TXT_BYTES + 1],
-            filename[PATH_MAX];
+            filename[LINE_SIZE];
         int failcount = 0, count = 0;
         int expected_hash_size = 0;
         if (check_file == stdin && optind < argc) {
@@ -181,7 +183,7 @@ int main(int argc, char **argv)
         char sum[MAX_HASH_TXT_BYTES + 1];
         char filename[PATH_MAX + 1], *end;
         while (!feof(stdin)) {
-            if (!fgets(filename, PATH_MAX, stdin))
+            if (!fgets(filename, sizeof(filename), stdin))
                 break;
             end = filename + strlen(filename);
             while (end > filename && (end[-1] == '\n' || end[-1] == '\r'))
@@ -260,7 +262,7 @@ int get_line(FILE *f, char *hash, char *filename, int verbose, int *size)
     char *spacepos = NULL;
 
     while (!feof(f)) {
-        if (!fgets(filename, PATH_MAX, f))
+        if (!fgets(filename, LINE_SIZE, f))
             return 0;
         ptr = filename;
         while (*ptr == ' ')
diff --git a/gostsum.c b/gostsum.c
index f4f4cd3..d13d796 100644
--- a/gostsum.c
+++ b/gostsum.c
@@ -85,7 +85,7 @@ int main(int argc, char **argv)
     }
     init_gost_hash_ctx(&ctx, b);
     if (check_file) {
-        char inhash[65], calcsum[65], filename[PATH_MAX];
+        char inhash[65], calcsum[65], filename[PATH_MAX + 1];
         int failcount = 0, count = 0;
         errors = 0;
         if (check_file == stdin && optind < argc) {
@@ -213,7 +213,7 @@ int get_line(FILE *f, char *hash, char *filename)
             return -1;
         }
     }
-    if (fgetc(f) != ' ' || fgets(filename, PATH_MAX, f) == NULL
+    if (fgetc(f) != ' ' || fgets(filename, PATH_MAX + 1, f) == NULL
         || ferror(f)) {
         fprintf(stderr, "Malformed input line\n");
         return -1;
-- 
2.43.0


From 5a0d3c5b34f0ca60cabb2f4dad4c4537d90aad49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:02 +0000
Subject: [PATCH 33/68] fix: gostsum, gost12sum: exit with an error when the
 digests could not be written

---
 gost12sum.c | 14 +++++++++++++-
 gostsum.c   | 14 +++++++++++++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/gost12sum.c b/gost12sum.c
index fe3ff3f..94a7dad 100644
--- a/gost12sum.c
+++ b/gost12sum.c
@@ -75,6 +75,16 @@ int finish_hash(gost_hash_ctx * ctx, byte * hashval)
     return 1;
 }
 
+/* Digests that could not be written have not been reported */
+static int output_failed(void)
+{
+    if (fflush(stdout) != 0 || ferror(stdout)) {
+        perror("stdout");
+        return 1;
+    }
+    return 0;
+}
+
 int main(int argc, char **argv)
 {
     int c, i;
@@ -205,7 +215,7 @@ int main(int argc, char **argv)
             exit(1);
         }
         printf("%s -\n", sum);
-        exit(0);
+        exit(output_failed() ? 1 : 0);
     } else {
         for (i = optind; i < argc; i++) {
             char sum[MAX_HASH_TXT_BYTES + 1];
@@ -216,6 +226,8 @@ int main(int argc, char **argv)
             }
         }
     }
+    if (output_failed())
+        errors++;
     exit(errors ? 1 : 0);
 }
 
diff --git a/gostsum.c b/gostsum.c
index d13d796..b71ec13 100644
--- a/gostsum.c
+++ b/gostsum.c
@@ -46,6 +46,16 @@ void help()
 # define O_BINARY 0
 #endif
 
+/* Digests that could not be written have not been reported */
+static int output_failed(void)
+{
+    if (fflush(stdout) != 0 || ferror(stdout)) {
+        perror("stdout");
+        return 1;
+    }
+    return 0;
+}
+
 int main(int argc, char **argv)
 {
     int c, i;
@@ -141,7 +151,7 @@ int main(int argc, char **argv)
             exit(1);
         }
         printf("%s -\n", sum);
-        exit(0);
+        exit(output_failed() ? 1 : 0);
     }
     for (i = optind; i < argc; i++) {
         char sum[65];
@@ -151,6 +161,8 @@ int main(int argc, char **argv)
             printf("%s %s\n", sum, argv[i]);
         }
     }
+    if (output_failed())
+        errors++;
     exit(errors ? 1 : 0);
 }
 
-- 
2.43.0


From 6b1f81b170b1841ec6dca44e5f93923916122b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:31 +0000
Subject: [PATCH 34/68] fix: gost_ctl: a setting is never lost when memory runs
 out

gost_set_default_param() freed the old value and reported success even
when the copy of the new one failed, and get_gost_engine_param() then (or
when its own copy of the environment value failed) answered NULL, so the
engine silently used its built-in defaults.
---
 gost_ctl.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/gost_ctl.c b/gost_ctl.c
index 60280b1..1ce8d2f 100644
--- a/gost_ctl.c
+++ b/gost_ctl.c
@@ -52,6 +52,9 @@ const char *get_gost_engine_param(int param)
     if (tmp) {
         OPENSSL_free(gost_params[param]);
         gost_params[param] = BUF_strdup(tmp);
+        /* Out of memory: the value still holds, try to keep it next time */
+        if (gost_params[param] == NULL)
+            return tmp;
         return gost_params[param];
     }
     return NULL;
@@ -60,6 +63,7 @@ const char *get_gost_engine_param(int param)
 int gost_set_default_param(int param, const char *value)
 {
     const char *tmp;
+    char *copy = NULL;
     if (param < 0 || param >= GOST_PARAM_MAX)
         return 0;
     tmp = getenv(gost_envnames[param]);
@@ -70,8 +74,13 @@ int gost_set_default_param(int param, const char *value)
     if (!tmp) {
         tmp = value;
     }
+    if (tmp != NULL) {
+        copy = BUF_strdup(tmp);
+        if (copy == NULL)
+            return 0;
+    }
     OPENSSL_free(gost_params[param]);
-    gost_params[param] = BUF_strdup(tmp);
+    gost_params[param] = copy;
 
     return 1;
 }
-- 
2.43.0


From 4df324385d400439f9da1df010c52ea8d966595e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:03 +0000
Subject: [PATCH 35/68] fix: gost_eng: reuse the NIDs of an earlier load

Every load registered two more objects in libcrypto's table, so a NID
obtained before an unload was unknown to the reloaded engine; on failure
the object was not freed as one, and its stale pointer stayed behind to be
freed a second time by the next unload.
---
 gost_eng.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/gost_eng.c b/gost_eng.c
index 7ca5523..8f3f215 100644
--- a/gost_eng.c
+++ b/gost_eng.c
@@ -337,17 +337,21 @@ static GOST_NID_JOB *missing_NIDs[] = {
 
 static int create_NIDs() {
     int i;
-    int new_nid = OBJ_new_nid(OSSL_NELEM(missing_NIDs));
     for (i = 0; i < OSSL_NELEM(missing_NIDs); i++) {
         GOST_NID_JOB *job = missing_NIDs[i];
-        ASN1_OBJECT *obj =
-            ASN1_OBJECT_create(new_nid + i, NULL, 0, job->sn, job->ln);
-        job->asn1 = obj;
-        if (!obj || OBJ_add_object(obj) == NID_undef) {
-            OPENSSL_free(obj);
-            return 0;
+        /* libcrypto keeps the objects of an earlier load: use them again */
+        int nid = OBJ_sn2nid(job->sn);
+        if (nid == NID_undef) {
+            ASN1_OBJECT *obj;
+            nid = OBJ_new_nid(1);
+            obj = ASN1_OBJECT_create(nid, NULL, 0, job->sn, job->ln);
+            if (!obj || OBJ_add_object(obj) == NID_undef) {
+                ASN1_OBJECT_free(obj);
+                return 0;
+            }
+            job->asn1 = obj;
         }
-        (*missing_NIDs[i]->callback)(new_nid + i);
+        (*job->callback)(nid);
     }
     return 1;
 }
@@ -356,6 +360,7 @@ static void free_NIDs() {
     int i;
     for (i = 0; i < OSSL_NELEM(missing_NIDs); i++) {
         ASN1_OBJECT_free(missing_NIDs[i]->asn1);
+        missing_NIDs[i]->asn1 = NULL;
     }
 }
 
-- 
2.43.0


From 27c37c4c5b048f888264dd7affbb4f37ceb98a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:38 +0000
Subject: [PATCH 36/68] fix: omac: choose the block cipher by the digest, not
 by its registered name

---
 gost_omac.c | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/gost_omac.c b/gost_omac.c
index 783bb3f..716bffc 100644
--- a/gost_omac.c
+++ b/gost_omac.c
@@ -175,16 +175,16 @@ int omac_imit_ctrl(EVP_MD_CTX *ctx, int type, int arg, void *ptr)
     case EVP_MD_CTRL_SET_KEY:
         {
             OMAC_CTX *c = EVP_MD_CTX_md_data(ctx);
-            const EVP_MD *md = EVP_MD_CTX_md(ctx);
             EVP_CIPHER *cipher = NULL;
             int ret = 0;
 
-            if (c->cipher_name == NULL) {
-                if (EVP_MD_is_a(md, SN_magma_mac))
-                    c->cipher_name = SN_magma_cbc;
-                else if (EVP_MD_is_a(md, SN_grasshopper_mac))
-                    c->cipher_name = SN_grasshopper_cbc;
+            /* This sets the cipher name, too */
+            if (EVP_MD_meth_get_init(EVP_MD_CTX_md(ctx)) (ctx) <= 0) {
+                GOSTerr(GOST_F_OMAC_IMIT_CTRL, GOST_R_MAC_KEY_NOT_SET);
+                goto set_key_end;
             }
+            EVP_MD_CTX_set_flags(ctx, EVP_MD_CTX_FLAG_NO_INIT);
+
             if ((cipher =
                  (EVP_CIPHER *)EVP_get_cipherbyname(c->cipher_name)) == NULL
                 && (cipher =
@@ -193,12 +193,6 @@ int omac_imit_ctrl(EVP_MD_CTX *ctx, int type, int arg, void *ptr)
                 goto set_key_end;
             }
 
-            if (EVP_MD_meth_get_init(EVP_MD_CTX_md(ctx)) (ctx) <= 0) {
-                GOSTerr(GOST_F_OMAC_IMIT_CTRL, GOST_R_MAC_KEY_NOT_SET);
-                goto set_key_end;
-            }
-            EVP_MD_CTX_set_flags(ctx, EVP_MD_CTX_FLAG_NO_INIT);
-
             if (c->key_set) {
                 GOSTerr(GOST_F_OMAC_IMIT_CTRL, GOST_R_BAD_ORDER);
                 goto set_key_end;
-- 
2.43.0


From 903b87dad929c8772a55fcc3b8940ea9cfe62249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:49 +0000
Subject: [PATCH 37/68] fix: gost_eng: unregister the digest and cipher names
 when the engine is destroyed

---
 gost_eng.c | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/gost_eng.c b/gost_eng.c
index 8f3f215..26483a3 100644
--- a/gost_eng.c
+++ b/gost_eng.c
@@ -299,9 +299,40 @@ static int gost_engine_finish(ENGINE* e) {
 
 static void free_NIDs();
 
+# ifndef BUILDING_GOST_PROVIDER
+/* Take back what EVP_add_cipher() and EVP_add_digest() registered */
+static void remove_evp_name(const char *name, int type, const void *meth)
+{
+    if (name != NULL && meth != NULL
+        && (const void *)OBJ_NAME_get(name, type) == meth)
+        OBJ_NAME_remove(name, type);
+}
+
+static void remove_evp_names(void)
+{
+    int i;
+
+    for (i = 0; i < OSSL_NELEM(gost_digest_array); i++) {
+        GOST_digest *d = gost_digest_array[i];
+        remove_evp_name(OBJ_nid2sn(d->nid), OBJ_NAME_TYPE_MD_METH, d->digest);
+        remove_evp_name(OBJ_nid2ln(d->nid), OBJ_NAME_TYPE_MD_METH, d->digest);
+    }
+    for (i = 0; i < OSSL_NELEM(gost_cipher_array); i++) {
+        GOST_cipher *c = gost_cipher_array[i];
+        remove_evp_name(OBJ_nid2sn(c->nid), OBJ_NAME_TYPE_CIPHER_METH,
+                        c->cipher);
+        remove_evp_name(OBJ_nid2ln(c->nid), OBJ_NAME_TYPE_CIPHER_METH,
+                        c->cipher);
+    }
+}
+# endif
+
 static int gost_engine_destroy(ENGINE* e) {
     int i;
 
+# ifndef BUILDING_GOST_PROVIDER
+    remove_evp_names();
+# endif
     for (i = 0; i < OSSL_NELEM(gost_digest_array); i++)
         GOST_deinit_digest(gost_digest_array[i]);
     for (i = 0; i < OSSL_NELEM(gost_cipher_array); i++)
-- 
2.43.0


From 498af6dd5faee21000c6b41d16c45590d90ec97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:49 +0000
Subject: [PATCH 38/68] fix: gost_eng: undo a load that failed half-way

---
 gost_eng.c | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/gost_eng.c b/gost_eng.c
index 26483a3..a326141 100644
--- a/gost_eng.c
+++ b/gost_eng.c
@@ -510,11 +510,34 @@ static int check_gost_engine(ENGINE* e, const char* id)
     return 1;
 }
 
+/* Undo a load that did not succeed: nothing may refer to the engine */
+static void unmake_gost_engine(ENGINE* e)
+{
+    struct gost_meth_minfo *minfo = gost_meth_array;
+
+    ENGINE_unregister_ciphers(e);
+    ENGINE_unregister_digests(e);
+    ENGINE_unregister_pkey_meths(e);
+    ENGINE_unregister_pkey_asn1_meths(e);
+    for (; minfo->nid; minfo++) {
+        EVP_PKEY_meth_free(*minfo->pmeth);
+        *minfo->pmeth = NULL;
+        EVP_PKEY_asn1_free(*minfo->ameth);
+        *minfo->ameth = NULL;
+    }
+    gost_engine_destroy(e);
+    ENGINE_set_destroy_function(e, NULL);
+}
+
 static int make_gost_engine(ENGINE* e, const char* id)
 {
-    return check_gost_engine(e, id)
-        && populate_gost_engine(e)
-        && bind_gost_engine(e);
+    if (!check_gost_engine(e, id))
+        return 0;
+    if (!populate_gost_engine(e) || !bind_gost_engine(e)) {
+        unmake_gost_engine(e);
+        return 0;
+    }
+    return 1;
 }
 
 #ifndef BUILDING_ENGINE_AS_LIBRARY
@@ -540,8 +563,9 @@ void ENGINE_load_gost(void) {
     int ret = 0;
 
     if ((toadd = ENGINE_new()) != NULL
-        && (ret = make_gost_engine(toadd, engine_gost_id)) > 0)
-        ENGINE_add(toadd);
+        && (ret = make_gost_engine(toadd, engine_gost_id)) > 0
+        && (ret = ENGINE_add(toadd)) <= 0)
+        unmake_gost_engine(toadd);
     ENGINE_free(toadd);
     if (ret > 0)
         ERR_clear_error();
-- 
2.43.0


From 9e3fa754d003cb54a1cda8a3b6542b44b878db26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:49 +0000
Subject: [PATCH 39/68] fix: gost_eng: no crash when a digest or cipher cannot
 be made at load

---
 gost_eng.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gost_eng.c b/gost_eng.c
index a326141..db7d5d8 100644
--- a/gost_eng.c
+++ b/gost_eng.c
@@ -482,12 +482,14 @@ static int bind_gost_engine(ENGINE* e) {
 
     int i;
     for (i = 0; i < OSSL_NELEM(gost_cipher_array); i++) {
-        if (!EVP_add_cipher(GOST_init_cipher(gost_cipher_array[i])))
+        const EVP_CIPHER *cipher = GOST_init_cipher(gost_cipher_array[i]);
+        if (cipher == NULL || !EVP_add_cipher(cipher))
             goto end;
     }
 
     for (i = 0; i < OSSL_NELEM(gost_digest_array); i++) {
-        if (!EVP_add_digest(GOST_init_digest(gost_digest_array[i])))
+        const EVP_MD *digest = GOST_init_digest(gost_digest_array[i]);
+        if (digest == NULL || !EVP_add_digest(digest))
             goto end;
     }
 
-- 
2.43.0


From 388fd93949a1599424cb87880f1c287e6765018d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:34 +0000
Subject: [PATCH 40/68] fix: ameth: refuse to encode a private key that is not
 there

---
 gost_ameth.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index 5b5bb9f..a216056 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -705,7 +705,8 @@ static int priv_encode_gost(PKCS8_PRIV_KEY_INFO *p8, const EVP_PKEY *pk)
         return 0;
     }
 
-    if (!store_bignum(gost_get0_priv_key(pk), buf, key_len)) {
+    if (gost_get0_priv_key(pk) == NULL
+        || !store_bignum(gost_get0_priv_key(pk), buf, key_len)) {
         OPENSSL_clear_free(buf, key_len);
         return 0;
     }
-- 
2.43.0


From d1fea820a46548c5f501d8e47e6fa6d20084c180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:18 +0000
Subject: [PATCH 41/68] fix: ameth: decoding GOST2001 DH parameters must not
 make a GOST2001 key

---
 gost_ameth.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index a216056..af446fc 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -1191,7 +1191,7 @@ static int gost2001_param_decode(EVP_PKEY *pkey, const unsigned char **pder,
     nid = OBJ_obj2nid(obj);
     ASN1_OBJECT_free(obj);
 
-    return gost_decode_nid_params(pkey, NID_id_GostR3410_2001, nid);
+    return gost_decode_nid_params(pkey, EVP_PKEY_base_id(pkey), nid);
 }
 
 /* ----------------------------------------------------------------------*/
-- 
2.43.0


From 34be33889b98eab05a4b4a54355cfeb6bcc37357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:18 +0000
Subject: [PATCH 42/68] fix: ameth: refuse keys on a curve of the wrong size

---
 gost_ameth.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index af446fc..72585f0 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -137,7 +137,15 @@ static int gost_decode_nid_params(EVP_PKEY *pkey, int pkey_nid, int param_nid)
                 break;
             }
         }
-        return fill_GOST_EC_params(key_ptr, param_nid);
+        if (!fill_GOST_EC_params(key_ptr, param_nid))
+            break;
+        /* 512-bit keys need a 512-bit curve, all the others a 256-bit one */
+        if ((EC_GROUP_get_degree(EC_KEY_get0_group(key_ptr)) > 256)
+            != (pkey_nid == NID_id_GostR3410_2012_512)) {
+            GOSTerr(GOST_F_DECODE_GOST_ALGOR_PARAMS, GOST_R_INVALID_PARAMSET);
+            break;
+        }
+        return 1;
     }
 
     return 0;
-- 
2.43.0


From 11820444af33f030333af5513b7333b11476d36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:14 +0000
Subject: [PATCH 43/68] fix: ameth: check the length of a stored private key

---
 gost_ameth.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index 72585f0..4b49ada 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -638,6 +638,11 @@ static int priv_decode_gost(EVP_PKEY *pk,
         return 0;
     }
 
+    if (priv_len <= 0) {
+        GOSTerr(GOST_F_PRIV_DECODE_GOST, EVP_R_DECODE_ERROR);
+        return 0;
+    }
+
     if (priv_len % expected_key_len == 0) {
         /* Key is not wrapped but masked */
         pk_num = unmask_priv_key(pk, pkey_buf, expected_key_len,
@@ -645,7 +650,7 @@ static int priv_decode_gost(EVP_PKEY *pk,
     } else if (V_ASN1_OCTET_STRING == *p) {
         /* New format - Little endian octet string */
         ASN1_OCTET_STRING *s = d2i_ASN1_OCTET_STRING(NULL, &p, priv_len);
-        if (!s || ((s->length != 32) && (s->length != 64))) {
+        if (!s || s->length != expected_key_len) {
             ASN1_STRING_free(s);
             GOSTerr(GOST_F_PRIV_DECODE_GOST, EVP_R_DECODE_ERROR);
             return 0;
@@ -673,7 +678,7 @@ static int priv_decode_gost(EVP_PKEY *pk,
         }
 
         priv_len = mgk->masked_priv_key->length;
-        if (priv_len % expected_key_len) {
+        if (priv_len <= 0 || priv_len % expected_key_len) {
             MASKED_GOST_KEY_free(mgk);
             GOSTerr(GOST_F_PRIV_DECODE_GOST, EVP_R_DECODE_ERROR);
             return 0;
-- 
2.43.0


From ad396055c27fc151b568ffacbd2fe5526f48548a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:34 +0000
Subject: [PATCH 44/68] fix: ameth: refuse a stored private key that is not in
 1..q-1

---
 gost_ameth.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/gost_ameth.c b/gost_ameth.c
index 4b49ada..b4232f7 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -200,6 +200,8 @@ static int gost_set_priv_key(EVP_PKEY *pkey, BIGNUM *priv)
     case NID_id_GostR3410_2001DH:
         {
             EC_KEY *ec = EVP_PKEY_get0(pkey);
+            const BIGNUM *order = NULL;
+
             if (!ec) {
                 ec = EC_KEY_new();
                 if (!ec || !EVP_PKEY_assign(pkey, EVP_PKEY_base_id(pkey), ec)) {
@@ -207,6 +209,13 @@ static int gost_set_priv_key(EVP_PKEY *pkey, BIGNUM *priv)
                     return 0;
                 }
             }
+            if (EC_KEY_get0_group(ec))
+                order = EC_GROUP_get0_order(EC_KEY_get0_group(ec));
+            if (BN_is_zero(priv) || BN_is_negative(priv)
+                || (order && BN_cmp(priv, order) >= 0)) {
+                GOSTerr(GOST_F_PRIV_DECODE_GOST, EVP_R_DECODE_ERROR);
+                return 0;
+            }
             if (!EC_KEY_set_private_key(ec, priv))
                 return 0;
             if (!EVP_PKEY_missing_parameters(pkey))
-- 
2.43.0


From 955270527931944be077711a644b3260b12181c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:05 +0000
Subject: [PATCH 45/68] fix: gost89-cnt: write and honour the S-box in ASN.1
 parameters

---
 gost_crypt.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 4f0fcc2..7e02cd2 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -453,11 +453,15 @@ static int gost_cipher_init_param(EVP_CIPHER_CTX *ctx,
 static int gost_cipher_init_cnt(EVP_CIPHER_CTX *ctx,
                                 const unsigned char *key,
                                 const unsigned char *iv,
-                                gost_subst_block * block)
+                                int paramNID)
 {
     struct ossl_gost_cipher_ctx *c = EVP_CIPHER_CTX_get_cipher_data(ctx);
-    gost_init(&(c->cctx), block);
-    c->key_meshing = 1;
+    /* Parameters may have been set from ASN.1 before the key */
+    if (EVP_CIPHER_CTX_get_app_data(ctx) == NULL) {
+        if (!gost_cipher_set_param(c, paramNID))
+            return 0;
+        EVP_CIPHER_CTX_set_app_data(ctx, EVP_CIPHER_CTX_get_cipher_data(ctx));
+    }
     c->count = 0;
     gost_cipher_start(ctx, &(c->cctx), key);
     if (iv) {
@@ -472,14 +476,15 @@ static int gost_cipher_init_cnt(EVP_CIPHER_CTX *ctx,
 static int gost_cipher_init_cpa(EVP_CIPHER_CTX *ctx, const unsigned char *key,
                                 const unsigned char *iv, int enc)
 {
-    return gost_cipher_init_cnt(ctx, key, iv, &Gost28147_CryptoProParamSetA);
+    return gost_cipher_init_cnt(ctx, key, iv,
+                                NID_id_Gost28147_89_CryptoPro_A_ParamSet);
 }
 
 static int gost_cipher_init_cp_12(EVP_CIPHER_CTX *ctx,
                                   const unsigned char *key,
                                   const unsigned char *iv, int enc)
 {
-    return gost_cipher_init_cnt(ctx, key, iv, &Gost28147_TC26ParamSetZ);
+    return gost_cipher_init_cnt(ctx, key, iv, NID_id_tc26_gost_28147_param_Z);
 }
 
 /* Initializes EVP_CIPHER_CTX with default values */
-- 
2.43.0


From 540aa663f1b259186246becd6e1c75227e7d6f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:38 +0000
Subject: [PATCH 46/68] fix: gost89: check that the ASN.1 parameters could be
 encoded

---
 gost_crypt.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 7e02cd2..3aa8679 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -1404,7 +1404,6 @@ static int gost89_set_asn1_parameters(EVP_CIPHER_CTX *ctx, ASN1_TYPE *params)
 {
     int len = 0;
     unsigned char *buf = NULL;
-    unsigned char *p = NULL;
     struct ossl_gost_cipher_ctx *c = EVP_CIPHER_CTX_get_cipher_data(ctx);
     GOST_CIPHER_PARAMS *gcp = GOST_CIPHER_PARAMS_new();
     ASN1_OCTET_STRING *os = NULL;
@@ -1421,15 +1420,12 @@ static int gost89_set_asn1_parameters(EVP_CIPHER_CTX *ctx, ASN1_TYPE *params)
     ASN1_OBJECT_free(gcp->enc_param_set);
     gcp->enc_param_set = OBJ_nid2obj(c->paramNID);
 
-    len = i2d_GOST_CIPHER_PARAMS(gcp, NULL);
-    p = buf = len > 0 ? OPENSSL_malloc(len) : NULL;
-    if (!buf) {
-        GOST_CIPHER_PARAMS_free(gcp);
+    len = i2d_GOST_CIPHER_PARAMS(gcp, &buf);
+    GOST_CIPHER_PARAMS_free(gcp);
+    if (len <= 0) {
         GOSTerr(GOST_F_GOST89_SET_ASN1_PARAMETERS, ERR_R_MALLOC_FAILURE);
         return 0;
     }
-    i2d_GOST_CIPHER_PARAMS(gcp, &p);
-    GOST_CIPHER_PARAMS_free(gcp);
 
     os = ASN1_OCTET_STRING_new();
 
-- 
2.43.0


From ed512a048717a928feba17445c2561ef29219820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:18 +0000
Subject: [PATCH 47/68] fix: provider: terminate the digest and MAC dispatch
 tables

---
 gost_prov_digest.c | 1 +
 gost_prov_mac.c    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/gost_prov_digest.c b/gost_prov_digest.c
index 79eb5a3..bd2228b 100644
--- a/gost_prov_digest.c
+++ b/gost_prov_digest.c
@@ -160,6 +160,7 @@ typedef void (*fptr_t)(void);
         { OSSL_FUNC_DIGEST_INIT, (fptr_t)digest_init },                 \
         { OSSL_FUNC_DIGEST_UPDATE, (fptr_t)digest_update },             \
         { OSSL_FUNC_DIGEST_FINAL, (fptr_t)digest_final },               \
+        { 0, NULL },                                                    \
     }
 
 MAKE_FUNCTIONS(GostR3411_94_digest);
diff --git a/gost_prov_mac.c b/gost_prov_mac.c
index ab04a9c..b66d0d3 100644
--- a/gost_prov_mac.c
+++ b/gost_prov_mac.c
@@ -320,6 +320,7 @@ typedef void (*fptr_t)(void);
         { OSSL_FUNC_MAC_SETTABLE_CTX_PARAMS,                            \
           (fptr_t)mac_settable_ctx_params },                            \
         { OSSL_FUNC_MAC_SET_CTX_PARAMS, (fptr_t)mac_set_ctx_params },   \
+        { 0, NULL },                                                    \
     }
 
 /*
-- 
2.43.0


From 09d52061e914ce6b0518399f76d20bd38096348a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:18 +0000
Subject: [PATCH 48/68] fix: provider: hand out the encoded parameters, not the
 pointer to them

---
 gost_prov_cipher.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gost_prov_cipher.c b/gost_prov_cipher.c
index ce9665e..04f75ca 100644
--- a/gost_prov_cipher.c
+++ b/gost_prov_cipher.c
@@ -127,7 +127,7 @@ static int cipher_get_ctx_params(void *vgctx, OSSL_PARAM params[])
         ret = (algidparam = ASN1_TYPE_new()) != NULL
             && EVP_CIPHER_param_to_asn1(gctx->cctx, algidparam) > 0
             && (derlen = i2d_ASN1_TYPE(algidparam, &der)) >= 0
-            && OSSL_PARAM_set_octet_string(p, &der, (size_t)derlen);
+            && OSSL_PARAM_set_octet_string(p, der, (size_t)derlen);
 
         OPENSSL_free(der);
         ASN1_TYPE_free(algidparam);
-- 
2.43.0


From e71b90fed88f4f213655c410d37a7b3eb72d2e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:18 +0000
Subject: [PATCH 49/68] fix: provider: a cipher copy or initialisation that
 fails must not succeed

---
 gost_prov_cipher.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/gost_prov_cipher.c b/gost_prov_cipher.c
index 04f75ca..2bd876b 100644
--- a/gost_prov_cipher.c
+++ b/gost_prov_cipher.c
@@ -90,8 +90,12 @@ static void *cipher_dupctx(void *vsrc)
     GOST_CTX *dst =
         cipher_newctx(src->provctx, src->descriptor, src->known_params);
 
-    if (dst != NULL)
-        EVP_CIPHER_CTX_copy(dst->cctx, src->cctx);
+    if (dst != NULL
+        && EVP_CIPHER_CTX_cipher(src->cctx) != NULL
+        && EVP_CIPHER_CTX_copy(dst->cctx, src->cctx) <= 0) {
+        cipher_freectx(dst);
+        dst = NULL;
+    }
     return dst;
 }
 
@@ -220,7 +224,7 @@ static int cipher_encrypt_init(void *vgctx,
         return 0;
 
     return EVP_CipherInit_ex(gctx->cctx, gctx->cipher, gctx->provctx->e,
-                             key, iv, 1);
+                             key, iv, 1) > 0;
 }
 
 static int cipher_decrypt_init(void *vgctx,
-- 
2.43.0


From 503f08b325499b77639f018b83f5fd93618ec649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:18 +0000
Subject: [PATCH 50/68] fix: provider: a digest copy that fails must not
 succeed

---
 gost_prov_digest.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gost_prov_digest.c b/gost_prov_digest.c
index bd2228b..4fc8202 100644
--- a/gost_prov_digest.c
+++ b/gost_prov_digest.c
@@ -86,8 +86,12 @@ static void *digest_dupctx(void *vsrc)
     GOST_CTX *dst =
         digest_newctx(src->provctx, src->descriptor, src->known_params);
 
-    if (dst != NULL)
-        EVP_MD_CTX_copy(dst->dctx, src->dctx);
+    if (dst != NULL
+        && EVP_MD_CTX_md(src->dctx) != NULL
+        && EVP_MD_CTX_copy(dst->dctx, src->dctx) <= 0) {
+        digest_freectx(dst);
+        dst = NULL;
+    }
     return dst;
 }
 
-- 
2.43.0


From 24dd8c7c372b8d3f88966355412e4bddaf815cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:06 +0000
Subject: [PATCH 51/68] fix: provider: MAC initialisation starts over, copies
 keep their settings

---
 gost_prov_mac.c | 89 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 64 insertions(+), 25 deletions(-)

diff --git a/gost_prov_mac.c b/gost_prov_mac.c
index b66d0d3..0b093dd 100644
--- a/gost_prov_mac.c
+++ b/gost_prov_mac.c
@@ -9,9 +9,11 @@
  **********************************************************************/
 
 #include <openssl/core.h>
+#include <string.h>
 #include <openssl/core_dispatch.h>
 #include "gost_prov.h"
 #include "gost_lcl.h"
+#include "e_gost_err.h"
 
 /*
  * Forward declarations of all generic OSSL_DISPATCH functions, to make sure
@@ -47,6 +49,11 @@ struct gost_prov_mac_ctx_st {
     /* XOF mode, where applicable */
     int xof_mode;
 
+    /* What is needed to start over: the key and the key meshing */
+    unsigned char key[32];
+    int key_set;
+    int key_mesh, cipher_key_mesh;
+
     /*
      * Since existing functionality is mainly designed as EVP_MDs for
      * ENGINEs, the functions in this file are accomodated and are simply
@@ -72,7 +79,7 @@ static void mac_freectx(void *vgctx)
      * GOST_prov_deinit_digests() (defined at the bottom of this file).
      */
     EVP_MD_CTX_free(gctx->dctx);
-    OPENSSL_free(gctx);
+    OPENSSL_clear_free(gctx, sizeof(*gctx));
 }
 
 static GOST_CTX *mac_newctx(void *provctx, const GOST_DESC *descriptor)
@@ -103,20 +110,60 @@ static void *mac_dupctx(void *vsrc)
     GOST_CTX *dst =
         mac_newctx(src->provctx, src->descriptor);
 
-    if (dst != NULL)
-        EVP_MD_CTX_copy(dst->dctx, src->dctx);
+    if (dst != NULL) {
+        if (EVP_MD_CTX_copy(dst->dctx, src->dctx) <= 0) {
+            mac_freectx(dst);
+            return NULL;
+        }
+        dst->mac_size = src->mac_size;
+        dst->xof_mode = src->xof_mode;
+        memcpy(dst->key, src->key, sizeof(dst->key));
+        dst->key_set = src->key_set;
+        dst->key_mesh = src->key_mesh;
+        dst->cipher_key_mesh = src->cipher_key_mesh;
+    }
     return dst;
 }
 
+static int mac_set_key(GOST_CTX *gctx, const unsigned char *key, size_t keylen)
+{
+    if (keylen != sizeof(gctx->key)) {
+        GOSTerr(GOST_F_GOST_IMIT_CTRL, GOST_R_INVALID_MAC_KEY_SIZE);
+        return 0;
+    }
+    if (EVP_MD_CTX_ctrl(gctx->dctx, EVP_MD_CTRL_SET_KEY,
+                        (int)keylen, (void *)key) <= 0)
+        return 0;
+    memmove(gctx->key, key, keylen);
+    gctx->key_set = 1;
+    return 1;
+}
+
+static int mac_set_key_mesh(GOST_CTX *gctx)
+{
+    return EVP_MD_CTX_ctrl(gctx->dctx, EVP_CTRL_KEY_MESH, gctx->key_mesh,
+                           gctx->cipher_key_mesh != 0 ?
+                           &gctx->cipher_key_mesh : NULL) > 0;
+}
+
 static int mac_init(void *mctx, const unsigned char *key,
                     size_t keylen, const OSSL_PARAM params[])
 {
     GOST_CTX *gctx = mctx;
 
-    return mac_set_ctx_params(gctx, params)
-        && (key == NULL
-            || EVP_MD_CTX_ctrl(gctx->dctx, EVP_MD_CTRL_SET_KEY,
-                               (int)keylen, (void *)key) > 0);
+    /* Start over; without a new key, the one set before is used again */
+    if (EVP_MD_CTX_reset(gctx->dctx) <= 0
+        || EVP_DigestInit_ex(gctx->dctx, gctx->digest, gctx->provctx->e) <= 0)
+        return 0;
+    if (key == NULL
+        && OSSL_PARAM_locate_const(params, "key") == NULL
+        && gctx->key_set) {
+        key = gctx->key;
+        keylen = sizeof(gctx->key);
+    }
+    return (key == NULL || mac_set_key(gctx, key, keylen))
+        && mac_set_ctx_params(gctx, params)
+        && (gctx->key_mesh == 0 || mac_set_key_mesh(gctx));
 }
 
 static int mac_update(void *mctx, const unsigned char *in, size_t inl)
@@ -234,14 +281,11 @@ static int mac_set_ctx_params(void *mctx, const OSSL_PARAM params[])
     if ((p = OSSL_PARAM_locate_const(params, "key")) != NULL) {
         const unsigned char *key = NULL;
         size_t keylen = 0;
-        int ret;
 
         if (!OSSL_PARAM_get_octet_string_ptr(p, (const void **)&key, &keylen))
             return 0;
 
-        ret = EVP_MD_CTX_ctrl(gctx->dctx, EVP_MD_CTRL_SET_KEY,
-                              (int)keylen, (void *)key);
-        if (ret <= 0 && ret != -2)
+        if (!mac_set_key(gctx, key, keylen))
             return 0;
     }
     if ((p = OSSL_PARAM_locate_const(params, "xof")) != NULL
@@ -249,26 +293,21 @@ static int mac_set_ctx_params(void *mctx, const OSSL_PARAM params[])
             || !OSSL_PARAM_get_int(p, &gctx->xof_mode)))
         return 0;
     if ((p = OSSL_PARAM_locate_const(params, "key-mesh")) != NULL) {
-        size_t key_mesh = 0;
-        int i_cipher_key_mesh = 0, *p_cipher_key_mesh = NULL;
+        size_t key_mesh = 0, cipher_key_mesh = 0;
 
         if (!OSSL_PARAM_get_size_t(p, &key_mesh))
             return 0;
 
-        if ((p = OSSL_PARAM_locate_const(params, "cipher-key-mesh")) != NULL) {
-            size_t cipher_key_mesh = 0;
-
-            if (!OSSL_PARAM_get_size_t(p, &cipher_key_mesh)) {
-                return 0;
-            } else {
-                i_cipher_key_mesh = (int)cipher_key_mesh;
-                p_cipher_key_mesh = &i_cipher_key_mesh;
-            }
-        }
+        if ((p = OSSL_PARAM_locate_const(params, "cipher-key-mesh")) != NULL
+            && !OSSL_PARAM_get_size_t(p, &cipher_key_mesh))
+            return 0;
 
-        if (EVP_MD_CTX_ctrl(gctx->dctx, EVP_CTRL_KEY_MESH,
-                            key_mesh, p_cipher_key_mesh) <= 0)
+        gctx->key_mesh = (int)key_mesh;
+        gctx->cipher_key_mesh = (int)cipher_key_mesh;
+        if (!mac_set_key_mesh(gctx)) {
+            gctx->key_mesh = gctx->cipher_key_mesh = 0;
             return 0;
+        }
     }
     return 1;
 }
-- 
2.43.0


From a4b3d3a22b8d85e73e3b4eaf603a4e926b82a90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:06 +0000
Subject: [PATCH 52/68] fix: provider: refuse MAC sizes that cannot be produced

---
 gost_prov_mac.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gost_prov_mac.c b/gost_prov_mac.c
index 0b093dd..b8815e6 100644
--- a/gost_prov_mac.c
+++ b/gost_prov_mac.c
@@ -190,8 +190,12 @@ static int mac_final(void *mctx, unsigned char *out, size_t *outl,
 
     if (out != NULL) {
         /* We ignore the error for GOST MDs that don't support setting
-           the size */
-        EVP_MD_CTX_ctrl(gctx->dctx, EVP_MD_CTRL_XOF_LEN, gctx->mac_size, NULL);
+           the size, as long as they produce what is asked for */
+        if (gctx->mac_size > outsize
+            || (EVP_MD_CTX_ctrl(gctx->dctx, EVP_MD_CTRL_XOF_LEN,
+                                gctx->mac_size, NULL) <= 0
+                && gctx->mac_size != (size_t)EVP_MD_size(gctx->digest)))
+            return 0;
         ret = EVP_DigestFinal_ex(gctx->dctx, out, &tmpoutl);
     }
     if (outl != NULL)
-- 
2.43.0


From 01721c5fa529b66440b5e9b001b83885b3f072f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:27 +0000
Subject: [PATCH 53/68] fix: provider: answer the request for the original IV

---
 gost_prov_cipher.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gost_prov_cipher.c b/gost_prov_cipher.c
index 2bd876b..24c73cd 100644
--- a/gost_prov_cipher.c
+++ b/gost_prov_cipher.c
@@ -145,6 +145,14 @@ static int cipher_get_ctx_params(void *vgctx, OSSL_PARAM params[])
             && !OSSL_PARAM_set_octet_string(p, iv, ivlen))
             return 0;
     }
+    if ((p = OSSL_PARAM_locate(params, OSSL_CIPHER_PARAM_IV)) != NULL) {
+        const void *iv = EVP_CIPHER_CTX_original_iv(gctx->cctx);
+        size_t ivlen = EVP_CIPHER_CTX_iv_length(gctx->cctx);
+
+        if (!OSSL_PARAM_set_octet_ptr(p, iv, ivlen)
+            && !OSSL_PARAM_set_octet_string(p, iv, ivlen))
+            return 0;
+    }
     if ((p = OSSL_PARAM_locate(params, OSSL_CIPHER_PARAM_AEAD_TAG)) != NULL) {
         void *tag = NULL;
         size_t taglen = 0;
-- 
2.43.0


From f090b216154bb4e305c0e5c9e95d7d0796dceb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:42 +0000
Subject: [PATCH 54/68] fix: provider: freeing no context is no crash

---
 gost_prov_cipher.c | 2 ++
 gost_prov_digest.c | 2 ++
 gost_prov_mac.c    | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/gost_prov_cipher.c b/gost_prov_cipher.c
index 24c73cd..bde7b45 100644
--- a/gost_prov_cipher.c
+++ b/gost_prov_cipher.c
@@ -55,6 +55,8 @@ static void cipher_freectx(void *vgctx)
 {
     GOST_CTX *gctx = vgctx;
 
+    if (gctx == NULL)
+        return;
     /*
      * We don't free gctx->cipher here.
      * That will be done by the provider teardown, via
diff --git a/gost_prov_digest.c b/gost_prov_digest.c
index 4fc8202..4df9e85 100644
--- a/gost_prov_digest.c
+++ b/gost_prov_digest.c
@@ -51,6 +51,8 @@ static void digest_freectx(void *vgctx)
 {
     GOST_CTX *gctx = vgctx;
 
+    if (gctx == NULL)
+        return;
     /*
      * We don't free gctx->digest here.
      * That will be done by the provider teardown, via
diff --git a/gost_prov_mac.c b/gost_prov_mac.c
index b8815e6..ff8551e 100644
--- a/gost_prov_mac.c
+++ b/gost_prov_mac.c
@@ -73,6 +73,8 @@ static void mac_freectx(void *vgctx)
 {
     GOST_CTX *gctx = vgctx;
 
+    if (gctx == NULL)
+        return;
     /*
      * We don't free gctx->digest here.
      * That will be done by the provider teardown, via
-- 
2.43.0


From d76d4a186a12ef26a6548e1a35952c63592b005e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:31 +0000
Subject: [PATCH 55/68] fix: provider: padding may be set before the first
 initialisation

---
 gost_prov_cipher.c | 45 ++++++++++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/gost_prov_cipher.c b/gost_prov_cipher.c
index bde7b45..d7cf864 100644
--- a/gost_prov_cipher.c
+++ b/gost_prov_cipher.c
@@ -48,6 +48,10 @@ struct gost_prov_crypt_ctx_st {
     EVP_CIPHER *cipher;
     /* The context for the EVP_CIPHER functions */
     EVP_CIPHER_CTX *cctx;
+
+    /* Padding set before |cctx| had a cipher to apply it to */
+    int padding_set;
+    unsigned int padding;
 };
 typedef struct gost_prov_crypt_ctx_st GOST_CTX;
 
@@ -98,6 +102,10 @@ static void *cipher_dupctx(void *vsrc)
         cipher_freectx(dst);
         dst = NULL;
     }
+    if (dst != NULL) {
+        dst->padding_set = src->padding_set;
+        dst->padding = src->padding;
+    }
     return dst;
 }
 
@@ -188,8 +196,12 @@ static int cipher_set_ctx_params(void *vgctx, const OSSL_PARAM params[])
     if ((p = OSSL_PARAM_locate_const(params, "padding")) != NULL) {
         unsigned int pad = 0;
 
-        if (!OSSL_PARAM_get_uint(p, &pad)
-            || EVP_CIPHER_CTX_set_padding(gctx->cctx, pad) <= 0)
+        if (!OSSL_PARAM_get_uint(p, &pad))
+            return 0;
+        gctx->padding_set = 1;
+        gctx->padding = pad;
+        if (EVP_CIPHER_CTX_cipher(gctx->cctx) != NULL
+            && EVP_CIPHER_CTX_set_padding(gctx->cctx, pad) <= 0)
             return 0;
     }
     if ((p = OSSL_PARAM_locate_const(params, "key-mesh")) != NULL) {
@@ -221,10 +233,10 @@ static int cipher_set_ctx_params(void *vgctx, const OSSL_PARAM params[])
     return 1;
 }
 
-static int cipher_encrypt_init(void *vgctx,
-                               const unsigned char *key, size_t keylen,
-                               const unsigned char *iv, size_t ivlen,
-                               const OSSL_PARAM params[])
+static int cipher_init(void *vgctx,
+                       const unsigned char *key, size_t keylen,
+                       const unsigned char *iv, size_t ivlen,
+                       const OSSL_PARAM params[], int enc)
 {
     GOST_CTX *gctx = vgctx;
 
@@ -234,22 +246,25 @@ static int cipher_encrypt_init(void *vgctx,
         return 0;
 
     return EVP_CipherInit_ex(gctx->cctx, gctx->cipher, gctx->provctx->e,
-                             key, iv, 1) > 0;
+                             key, iv, enc) > 0
+        && (!gctx->padding_set
+            || EVP_CIPHER_CTX_set_padding(gctx->cctx, gctx->padding) > 0);
 }
 
-static int cipher_decrypt_init(void *vgctx,
+static int cipher_encrypt_init(void *vgctx,
                                const unsigned char *key, size_t keylen,
                                const unsigned char *iv, size_t ivlen,
                                const OSSL_PARAM params[])
 {
-    GOST_CTX *gctx = vgctx;
+    return cipher_init(vgctx, key, keylen, iv, ivlen, params, 1);
+}
 
-    if (!cipher_set_ctx_params(vgctx, params)
-        || keylen > EVP_CIPHER_key_length(gctx->cipher)
-        || ivlen > EVP_CIPHER_iv_length(gctx->cipher))
-        return 0;
-    return EVP_CipherInit_ex(gctx->cctx, gctx->cipher, gctx->provctx->e,
-                             key, iv, 0) > 0;
+static int cipher_decrypt_init(void *vgctx,
+                               const unsigned char *key, size_t keylen,
+                               const unsigned char *iv, size_t ivlen,
+                               const OSSL_PARAM params[])
+{
+    return cipher_init(vgctx, key, keylen, iv, ivlen, params, 0);
 }
 
 static int cipher_update(void *vgctx,
-- 
2.43.0


From 196bfeb572c736add0f8301968d460591d454669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:59 +0000
Subject: [PATCH 56/68] fix: provider: one library context going away must not
 take the others' methods

---
 gost_prov.c | 94 +++++++++++++++++++++++++++++++++++++++++------------
 gost_prov.h |  3 ++
 2 files changed, 77 insertions(+), 20 deletions(-)

diff --git a/gost_prov.c b/gost_prov.c
index eab5918..1389533 100644
--- a/gost_prov.c
+++ b/gost_prov.c
@@ -19,6 +19,21 @@
  *
  *****/
 
+/*
+ * The provider may be loaded in several library contexts at once.  The
+ * methods, and with them the engine that wraps them, exist once in the
+ * process; they are made with the first provider context and go away with
+ * the last.
+ */
+static CRYPTO_ONCE live_once = CRYPTO_ONCE_STATIC_INIT;
+static CRYPTO_RWLOCK *live_lock;
+static PROV_CTX *live;
+
+static void live_init(void)
+{
+    live_lock = CRYPTO_THREAD_lock_new();
+}
+
 /*
  * Ugly hack, to get the errors generated by mkerr.pl.  This should ideally
  * be replaced with a local OSSL_ITEM list of < number, string > pairs as
@@ -26,14 +41,18 @@
  * Fortunately, the ERR_STRING_DATA structure is compatible with OSSL_ITEM,
  * so we can return it directly.
  */
-static struct proverr_functions_st *err_handle;
 #define GOST_PROV
 #include "e_gost_err.c"
 void ERR_GOST_error(int function, int reason, char *file, int line)
 {
-    proverr_new_error(err_handle);
-    proverr_set_error_debug(err_handle, file, line, NULL);
-    proverr_set_error(err_handle, reason, NULL);
+    if (live_lock == NULL || !CRYPTO_THREAD_read_lock(live_lock))
+        return;
+    if (live != NULL) {
+        proverr_new_error(live->proverr_handle);
+        proverr_set_error_debug(live->proverr_handle, file, line, NULL);
+        proverr_set_error(live->proverr_handle, reason, NULL);
+    }
+    CRYPTO_THREAD_unlock(live_lock);
 }
 
 /*********************************************************************
@@ -45,7 +64,6 @@ void ERR_GOST_error(int function, int reason, char *file, int line)
 static void provider_ctx_free(PROV_CTX *ctx)
 {
     if (ctx != NULL) {
-        ENGINE_free(ctx->e);
         proverr_free_handle(ctx->proverr_handle);
         OSSL_LIB_CTX_free(ctx->libctx);
     }
@@ -53,25 +71,63 @@ static void provider_ctx_free(PROV_CTX *ctx)
 }
 
 extern int populate_gost_engine(ENGINE *e);
+
+/* Called with the lock held */
+static int provider_ctx_enlist(PROV_CTX *ctx)
+{
+    if (live != NULL) {
+        ctx->e = live->e;
+    } else if ((ctx->e = ENGINE_new()) == NULL) {
+        return 0;
+    } else if (!populate_gost_engine(ctx->e)) {
+        ENGINE_free(ctx->e);
+        return 0;
+    }
+    ctx->next = live;
+    live = ctx;
+    return 1;
+}
+
+static void provider_ctx_delist(PROV_CTX *ctx)
+{
+    PROV_CTX **p;
+
+    CRYPTO_THREAD_write_lock(live_lock);
+    for (p = &live; *p != ctx; p = &(*p)->next)
+        continue;
+    *p = ctx->next;
+    if (live == NULL) {
+        GOST_prov_deinit_ciphers();
+        GOST_prov_deinit_digests();
+        GOST_prov_deinit_mac_digests();
+        ENGINE_free(ctx->e);
+    }
+    CRYPTO_THREAD_unlock(live_lock);
+}
+
 static PROV_CTX *provider_ctx_new(const OSSL_CORE_HANDLE *core,
                                   const OSSL_DISPATCH *in)
 {
     PROV_CTX *ctx;
+    int ok = 0;
 
-    if ((ctx = OPENSSL_zalloc(sizeof(*ctx))) != NULL
-        && (ctx->proverr_handle = proverr_new_handle(core, in)) != NULL
-        && (ctx->libctx = OSSL_LIB_CTX_new()) != NULL
-        && (ctx->e = ENGINE_new()) != NULL
-        && populate_gost_engine(ctx->e)) {
+    if (CRYPTO_THREAD_run_once(&live_once, live_init)
+        && live_lock != NULL
+        && (ctx = OPENSSL_zalloc(sizeof(*ctx))) != NULL) {
         ctx->core_handle = core;
-
-        /* Ugly hack */
-        err_handle = ctx->proverr_handle;
-    } else {
-        provider_ctx_free(ctx);
-        ctx = NULL;
+        if ((ctx->proverr_handle = proverr_new_handle(core, in)) != NULL
+            && (ctx->libctx = OSSL_LIB_CTX_new()) != NULL
+            && CRYPTO_THREAD_write_lock(live_lock)) {
+            ok = provider_ctx_enlist(ctx);
+            CRYPTO_THREAD_unlock(live_lock);
+        }
+        if (!ok) {
+            provider_ctx_free(ctx);
+            ctx = NULL;
+        }
+        return ctx;
     }
-    return ctx;
+    return NULL;
 }
 
 /*********************************************************************
@@ -123,9 +179,7 @@ static const OSSL_ITEM *gost_get_reason_strings(void *provctx)
 /* The function that tears down this provider */
 static void gost_teardown(void *vprovctx)
 {
-    GOST_prov_deinit_ciphers();
-    GOST_prov_deinit_digests();
-    GOST_prov_deinit_mac_digests();
+    provider_ctx_delist(vprovctx);
     provider_ctx_free(vprovctx);
 }
 
diff --git a/gost_prov.h b/gost_prov.h
index c7f6e66..d32991b 100644
--- a/gost_prov.h
+++ b/gost_prov.h
@@ -23,5 +23,8 @@ struct provider_ctx_st {
      * to do this.
      */
     ENGINE *e;
+
+    /* The next context the provider is loaded in */
+    struct provider_ctx_st *next;
 };
 typedef struct provider_ctx_st PROV_CTX;
-- 
2.43.0


From 64ddc59c4507ad4a79fa31d5eaf732fba3cf2a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:35 +0000
Subject: [PATCH 57/68] fix: reading engine settings from several threads must
 not race

The first reader of a setting stores the value of the environment
variable; two threads doing so at once freed what the other was using.
---
 gost_ctl.c | 60 +++++++++++++++++++++++++++++++++++++++++++-----------
 gost_eng.c |  3 +++
 gost_lcl.h |  5 +++++
 3 files changed, 56 insertions(+), 12 deletions(-)

diff --git a/gost_ctl.c b/gost_ctl.c
index 1ce8d2f..04d3841 100644
--- a/gost_ctl.c
+++ b/gost_ctl.c
@@ -18,6 +18,34 @@ static char *gost_params[GOST_PARAM_MAX + 1] = { NULL };
 static const char *gost_envnames[] =
     { "CRYPT_PARAMS", "GOST_PBE_HMAC", "GOST_PK_FORMAT" };
 
+static CRYPTO_RWLOCK *gost_shared_lock = NULL;
+
+/* The engine makes the lock when it is bound; before there is but one thread */
+int gost_lock_init(void)
+{
+    if (gost_shared_lock == NULL)
+        gost_shared_lock = CRYPTO_THREAD_lock_new();
+    return gost_shared_lock != NULL;
+}
+
+void gost_lock_free(void)
+{
+    CRYPTO_THREAD_lock_free(gost_shared_lock);
+    gost_shared_lock = NULL;
+}
+
+int gost_lock(void)
+{
+    return gost_shared_lock == NULL
+        || CRYPTO_THREAD_write_lock(gost_shared_lock);
+}
+
+void gost_unlock(void)
+{
+    if (gost_shared_lock != NULL)
+        CRYPTO_THREAD_unlock(gost_shared_lock);
+}
+
 void gost_param_free()
 {
     int i;
@@ -42,22 +70,25 @@ int gost_control_func(ENGINE *e, int cmd, long i, void *p, void (*f) (void))
 
 const char *get_gost_engine_param(int param)
 {
+    const char *ret;
     char *tmp;
     if (param < 0 || param >= GOST_PARAM_MAX)
         return NULL;
-    if (gost_params[param] != NULL) {
-        return gost_params[param];
-    }
-    tmp = getenv(gost_envnames[param]);
-    if (tmp) {
-        OPENSSL_free(gost_params[param]);
-        gost_params[param] = BUF_strdup(tmp);
-        /* Out of memory: the value still holds, try to keep it next time */
-        if (gost_params[param] == NULL)
-            return tmp;
-        return gost_params[param];
+    if (!gost_lock())
+        return NULL;
+    ret = gost_params[param];
+    if (ret == NULL) {
+        tmp = getenv(gost_envnames[param]);
+        if (tmp) {
+            gost_params[param] = BUF_strdup(tmp);
+            ret = gost_params[param];
+            /* Out of memory: the value still holds, try to keep it next time */
+            if (ret == NULL)
+                ret = tmp;
+        }
     }
-    return NULL;
+    gost_unlock();
+    return ret;
 }
 
 int gost_set_default_param(int param, const char *value)
@@ -79,8 +110,13 @@ int gost_set_default_param(int param, const char *value)
         if (copy == NULL)
             return 0;
     }
+    if (!gost_lock()) {
+        OPENSSL_free(copy);
+        return 0;
+    }
     OPENSSL_free(gost_params[param]);
     gost_params[param] = copy;
+    gost_unlock();
 
     return 1;
 }
diff --git a/gost_eng.c b/gost_eng.c
index db7d5d8..c7bdbb3 100644
--- a/gost_eng.c
+++ b/gost_eng.c
@@ -347,6 +347,7 @@ static int gost_engine_destroy(ENGINE* e) {
     }
 
     free_cached_groups();
+    gost_lock_free();
     free_NIDs();
 
 # ifndef BUILDING_GOST_PROVIDER
@@ -403,6 +404,8 @@ int populate_gost_engine(ENGINE* e) {
 
     if (e == NULL)
         goto end;
+    if (!gost_lock_init())
+        goto end;
     if (!ENGINE_set_id(e, engine_gost_id)) {
         fprintf(stderr, "ENGINE_set_id failed\n");
         goto end;
diff --git a/gost_lcl.h b/gost_lcl.h
index ffa8c76..524434a 100644
--- a/gost_lcl.h
+++ b/gost_lcl.h
@@ -51,6 +51,11 @@ int gost_control_func(ENGINE *e, int cmd, long i, void *p, void (*f) (void));
 const char *get_gost_engine_param(int param);
 int gost_set_default_param(int param, const char *value);
 void gost_param_free(void);
+/* Guards what the threads of a process share: settings and curve groups */
+int gost_lock_init(void);
+void gost_lock_free(void);
+int gost_lock(void);
+void gost_unlock(void);
 
 /* method registration */
 
-- 
2.43.0


From 09d76146252de0429c24c5ddccd535599fc2cd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:35 +0000
Subject: [PATCH 58/68] fix: threads making keys on the same curve must not
 race

The group of a curve is made on first use and kept for later keys; two
threads doing so at once freed or leaked each other's group and renamed
a group others were reading. A failure halfway leaked the group.
---
 gost_ec_sign.c | 44 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/gost_ec_sign.c b/gost_ec_sign.c
index a4d6a3d..3b3ebec 100644
--- a/gost_ec_sign.c
+++ b/gost_ec_sign.c
@@ -79,6 +79,18 @@ void free_cached_groups()
     }
 }
 
+/* The group of a key names the curve the key was made for */
+static int set_key_group(EC_KEY *eckey, const EC_GROUP *group, int nid)
+{
+    if (!EC_KEY_set_group(eckey, group)) {
+        GOSTerr(GOST_F_FILL_GOST_EC_PARAMS, ERR_R_INTERNAL_ERROR);
+        return 0;
+    }
+    /* EC_KEY_set_group made a copy, which belongs to the key */
+    EC_GROUP_set_curve_name((EC_GROUP *)EC_KEY_get0_group(eckey), nid);
+    return 1;
+}
+
 /*
  * Fills EC_KEY structure hidden in the app_data field of DSA structure
  * with parameter information, extracted from parameter array in
@@ -95,21 +107,21 @@ int fill_GOST_EC_params(EC_KEY *eckey, int nid)
     BIGNUM *p = NULL, *q = NULL, *a = NULL, *b = NULL, *x = NULL, *y =
         NULL, *cofactor = NULL;
     BN_CTX *ctx = NULL;
-    int ok = 0;
+    int ok = 0, cached = 0;
 
     if (!eckey || !params) {
         GOSTerr(GOST_F_FILL_GOST_EC_PARAMS, GOST_R_UNSUPPORTED_PARAMETER_SET);
         return 0;
     }
 
-    if (params->group) {
-        EC_GROUP_set_curve_name(params->group, nid);
-        if (!EC_KEY_set_group(eckey, params->group)) {
-            GOSTerr(GOST_F_FILL_GOST_EC_PARAMS, ERR_R_INTERNAL_ERROR);
-            goto end;
-        }
-        return 1;
+    if (!gost_lock()) {
+        GOSTerr(GOST_F_FILL_GOST_EC_PARAMS, ERR_R_INTERNAL_ERROR);
+        return 0;
     }
+    grp = params->group;
+    gost_unlock();
+    if (grp)
+        return set_key_group(eckey, grp, nid);
 
     if (!(ctx = BN_CTX_new())) {
         GOSTerr(GOST_F_FILL_GOST_EC_PARAMS, ERR_R_MALLOC_FAILURE);
@@ -162,13 +174,23 @@ int fill_GOST_EC_params(EC_KEY *eckey, int nid)
         goto end;
     }
     EC_GROUP_set_curve_name(grp, nid);
-    params->group = grp;
-    if (!EC_KEY_set_group(eckey, grp)) {
+    if (!gost_lock()) {
         GOSTerr(GOST_F_FILL_GOST_EC_PARAMS, ERR_R_INTERNAL_ERROR);
         goto end;
     }
-    ok = 1;
+    if (params->group == NULL) {
+        params->group = grp;
+    } else {
+        /* Another thread was faster */
+        EC_GROUP_free(grp);
+        grp = params->group;
+    }
+    cached = 1;
+    gost_unlock();
+    ok = set_key_group(eckey, grp, nid);
  end:
+    if (!cached)
+        EC_GROUP_free(grp);
     EC_POINT_free(P);
     BN_CTX_end(ctx);
     BN_CTX_free(ctx);
-- 
2.43.0


From 45074a5ef58472febe769a1a4ca1417cea12f2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:29 +0000
Subject: [PATCH 59/68] fix: CMS key agreement with missing or malformed
 message fields must not crash

A key agreement recipient without user keying material, with a short one or
with no parameters on its key encryption algorithm was dereferenced; the
originator's key was shared with a temporary X509_PUBKEY and freed twice when
the key was refused and leaked when it was accepted.
---
 gost_ameth.c | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index b4232f7..8b63b42 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -258,8 +258,9 @@ static int gost_cms_set_kari_shared_info(EVP_PKEY_CTX *pctx, CMS_RecipientInfo *
 	ASN1_OCTET_STRING *ukm;
 
 	/* Deal with originator */
-	X509_ALGOR *pubalg = NULL;
+	X509_ALGOR *pubalg = NULL, *palg = NULL;
 	ASN1_BIT_STRING *pubkey = NULL;
+	unsigned char *penc = NULL;
 
 	EVP_PKEY *peer_key = NULL;
 	X509_PUBKEY *tmp   = NULL;
@@ -276,9 +277,14 @@ static int gost_cms_set_kari_shared_info(EVP_PKEY_CTX *pctx, CMS_RecipientInfo *
 		  goto err;
 
 	nid = OBJ_obj2nid(alg->algorithm);
-	if (alg->parameter->type != V_ASN1_SEQUENCE)
+	if (alg->parameter == NULL || alg->parameter->type != V_ASN1_SEQUENCE)
 		  goto err;
 
+	if (ukm == NULL || ASN1_STRING_length(ukm) != 32) {
+			GOSTerr(GOST_F_GOST_CMS_SET_KARI_SHARED_INFO, GOST_R_UKM_NOT_SET);
+			goto err;
+	}
+
 	switch (nid) {
 		case NID_kuznyechik_kexp15:
 		case NID_magma_kexp15:
@@ -296,24 +302,26 @@ static int gost_cms_set_kari_shared_info(EVP_PKEY_CTX *pctx, CMS_RecipientInfo *
 			goto err;
 
 	if (pubkey != NULL && pubalg != NULL) {
-		const ASN1_OBJECT *paobj = NULL;
-		int ptype = 0;
-		const void *param = NULL;
-
 		peer_key = EVP_PKEY_new();
 		tmp = X509_PUBKEY_new();
+		penc = OPENSSL_memdup(ASN1_STRING_get0_data(pubkey),
+			ASN1_STRING_length(pubkey));
 
-		if ((peer_key == NULL) || (tmp == NULL)) {
+		if ((peer_key == NULL) || (tmp == NULL) || (penc == NULL)) {
 			GOSTerr(GOST_F_GOST_CMS_SET_KARI_SHARED_INFO, ERR_R_MALLOC_FAILURE);
 			goto err;
 		}
 
-		X509_ALGOR_get0(&paobj, &ptype, &param, pubalg);
+		/* The message keeps its algorithm and key, tmp gets copies */
+		if (X509_PUBKEY_set0_param(tmp, OBJ_nid2obj(NID_undef), V_ASN1_UNDEF,
+			NULL, penc, ASN1_STRING_length(pubkey)) == 0) {
+				GOSTerr(GOST_F_GOST_CMS_SET_KARI_SHARED_INFO, GOST_R_PUBLIC_KEY_UNDEFINED);
+				goto err;
+		}
+		penc = NULL;
 
-		if (X509_PUBKEY_set0_param(tmp, (ASN1_OBJECT *)paobj,
-			ptype, (void *)param,
-			(unsigned char *)ASN1_STRING_get0_data(pubkey),
-			ASN1_STRING_length(pubkey) ) == 0) {
+		if (X509_PUBKEY_get0_param(NULL, NULL, NULL, &palg, tmp) == 0
+			|| X509_ALGOR_copy(palg, pubalg) == 0) {
 				GOSTerr(GOST_F_GOST_CMS_SET_KARI_SHARED_INFO, GOST_R_PUBLIC_KEY_UNDEFINED);
 				goto err;
 		}
@@ -341,10 +349,10 @@ static int gost_cms_set_kari_shared_info(EVP_PKEY_CTX *pctx, CMS_RecipientInfo *
 
 	ret = 1;
 err:
+	OPENSSL_cleanse(shared_key, sizeof(shared_key));
 	EVP_PKEY_free(peer_key);
-	if (ret == 0) {
-		X509_PUBKEY_free(tmp);
-	}
+	X509_PUBKEY_free(tmp);
+	OPENSSL_free(penc);
 
 	return ret;
 }
-- 
2.43.0


From f7c35e154721111ccc50e8cd84fcc28016bd2686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:29 +0000
Subject: [PATCH 60/68] fix: CMS_encrypt to a GOST recipient does not need
 CMS_KEY_PARAM

Without a key context there is no key transport cipher chosen, so the default
transport is used, as PKCS7_encrypt does.
---
 gost_ameth.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index 8b63b42..924c848 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -501,13 +501,12 @@ static int pkey_ctrl_gost(EVP_PKEY *pkey, int op, long arg1, void *arg2)
           struct gost_pmeth_data *gctx = NULL;
           ASN1_STRING *params = NULL;
 
+          /* Without a context the key transport has no parameters */
           pctx = CMS_RecipientInfo_get0_pkey_ctx(ri);
-          if (!pctx)
-            return 0;
-
-          gctx = EVP_PKEY_CTX_get_data(pctx);
+          if (pctx)
+            gctx = EVP_PKEY_CTX_get_data(pctx);
 
-          switch (gctx->cipher_nid) {
+          switch (gctx ? gctx->cipher_nid : NID_undef) {
             case NID_magma_ctr:
             case NID_kuznyechik_ctr:
               {
-- 
2.43.0


From 38eb1022b38f616ffa23f94b5da9d55eb1c380a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:29 +0000
Subject: [PATCH 61/68] fix: check that CMS and PKCS7 algorithm identifiers
 were stored

When X509_ALGOR_set0() failed the parameters leaked and the message was made
with an empty algorithm identifier.
---
 gost_ameth.c | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index 924c848..d1594df 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -467,8 +467,9 @@ static int pkey_ctrl_gost(EVP_PKEY *pkey, int op, long arg1, void *arg2)
         if (arg1 == 0) {
             PKCS7_SIGNER_INFO_get0_algs((PKCS7_SIGNER_INFO *)arg2, NULL,
                                         &alg1, &alg2);
-            X509_ALGOR_set0(alg1, OBJ_nid2obj(md_nid), V_ASN1_NULL, 0);
-            X509_ALGOR_set0(alg2, OBJ_nid2obj(nid), V_ASN1_NULL, 0);
+            if (!X509_ALGOR_set0(alg1, OBJ_nid2obj(md_nid), V_ASN1_NULL, 0)
+                || !X509_ALGOR_set0(alg2, OBJ_nid2obj(nid), V_ASN1_NULL, 0))
+                return -1;
         }
         return 1;
 #ifndef OPENSSL_NO_CMS
@@ -476,8 +477,9 @@ static int pkey_ctrl_gost(EVP_PKEY *pkey, int op, long arg1, void *arg2)
         if (arg1 == 0) {
             CMS_SignerInfo_get0_algs((CMS_SignerInfo *)arg2, NULL, NULL,
                                      &alg1, &alg2);
-            X509_ALGOR_set0(alg1, OBJ_nid2obj(md_nid), V_ASN1_NULL, 0);
-            X509_ALGOR_set0(alg2, OBJ_nid2obj(nid), V_ASN1_NULL, 0);
+            if (!X509_ALGOR_set0(alg1, OBJ_nid2obj(md_nid), V_ASN1_NULL, 0)
+                || !X509_ALGOR_set0(alg2, OBJ_nid2obj(nid), V_ASN1_NULL, 0))
+                return -1;
         }
         return 1;
 #endif
@@ -488,8 +490,11 @@ static int pkey_ctrl_gost(EVP_PKEY *pkey, int op, long arg1, void *arg2)
                 return -1;
             }
             PKCS7_RECIP_INFO_get0_alg((PKCS7_RECIP_INFO *)arg2, &alg1);
-            X509_ALGOR_set0(alg1, OBJ_nid2obj(EVP_PKEY_id(pkey)),
-                            V_ASN1_SEQUENCE, params);
+            if (!X509_ALGOR_set0(alg1, OBJ_nid2obj(EVP_PKEY_id(pkey)),
+                                 V_ASN1_SEQUENCE, params)) {
+                ASN1_STRING_free(params);
+                return -1;
+            }
 				}
         return 1;
 #ifndef OPENSSL_NO_CMS
@@ -529,9 +534,13 @@ static int pkey_ctrl_gost(EVP_PKEY *pkey, int op, long arg1, void *arg2)
           if (params == NULL)
               return -1;
 
-          CMS_RecipientInfo_ktri_get0_algs((CMS_RecipientInfo *)arg2, NULL,
-              NULL, &alg1);
-          X509_ALGOR_set0(alg1, OBJ_nid2obj(nid), V_ASN1_SEQUENCE, params);
+          if (!CMS_RecipientInfo_ktri_get0_algs((CMS_RecipientInfo *)arg2, NULL,
+                  NULL, &alg1)
+              || !X509_ALGOR_set0(alg1, OBJ_nid2obj(nid), V_ASN1_SEQUENCE,
+                                  params)) {
+              ASN1_STRING_free(params);
+              return -1;
+          }
         } else {
           EVP_PKEY_CTX *pctx;
           CMS_RecipientInfo *ri = arg2;
-- 
2.43.0


From 033432dde7494e7cea7dec3df0dff5f002499ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:29 +0000
Subject: [PATCH 62/68] fix: cipher parameters missing from a message must not
 crash

libcrypto passes no parameters at all when the content encryption algorithm
carries none.
---
 gost_crypt.c    | 2 +-
 gost_gost2015.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 3aa8679..8b9dbcb 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -1450,7 +1450,7 @@ static int gost89_get_asn1_parameters(EVP_CIPHER_CTX *ctx, ASN1_TYPE *params)
     struct ossl_gost_cipher_ctx *c = EVP_CIPHER_CTX_get_cipher_data(ctx);
     int nid;
 
-    if (ASN1_TYPE_get(params) != V_ASN1_SEQUENCE) {
+    if (params == NULL || ASN1_TYPE_get(params) != V_ASN1_SEQUENCE) {
         return -1;
     }
 
diff --git a/gost_gost2015.c b/gost_gost2015.c
index 1331e57..457487e 100644
--- a/gost_gost2015.c
+++ b/gost_gost2015.c
@@ -61,7 +61,7 @@ int gost2015_get_asn1_params(const ASN1_TYPE *params, size_t ukm_size,
     memset(iv, 0, iv_len);
 
     /* Проверяем тип params */
-    if (ASN1_TYPE_get(params) != V_ASN1_SEQUENCE) {
+    if (params == NULL || ASN1_TYPE_get(params) != V_ASN1_SEQUENCE) {
         GOSTerr(GOST_F_GOST2015_GET_ASN1_PARAMS, GOST_R_INVALID_CIPHER_PARAMS);
         return 0;
     }
-- 
2.43.0


From 13a6fdcdfcf5bed8a2c1852ad5509978c88e73f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:25 +0000
Subject: [PATCH 63/68] fix: erase the point both parties agree on before
 releasing it

The agreed key is a hash of it.
---
 gost_ec_keyx.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index 1a03883..4ec2152 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -36,7 +36,7 @@ int VKO_compute_key(unsigned char *shared_key,
     BN_CTX *ctx = NULL;
     EVP_MD_CTX *mdctx = NULL;
     const EVP_MD *md = NULL;
-    int buf_len, half_len;
+    int buf_len = 0, half_len;
     int ret = 0;
 
     if ((ctx = BN_CTX_secure_new()) == NULL) {
@@ -120,7 +120,7 @@ int VKO_compute_key(unsigned char *shared_key,
     BN_CTX_free(ctx);
     EC_POINT_free(pnt);
     EVP_MD_CTX_free(mdctx);
-    OPENSSL_free(databuf);
+    OPENSSL_clear_free(databuf, buf_len);
 
     return ret;
 }
-- 
2.43.0


From 978025e85bd00179c6d9a00a9b11d1b67ee650f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:25 +0000
Subject: [PATCH 64/68] fix: erase MAC keys before releasing them

---
 gost_ameth.c |  2 +-
 gost_pmeth.c | 11 +++++------
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index d1594df..201be0d 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -1159,7 +1159,7 @@ static int pkey_size_gost(const EVP_PKEY *pk)
 /* ---------------------- ASN1 METHOD for GOST MAC  -------------------*/
 static void mackey_free_gost(EVP_PKEY *pk)
 {
-    OPENSSL_free(EVP_PKEY_get0(pk));
+    OPENSSL_clear_free(EVP_PKEY_get0(pk), sizeof(struct gost_mac_key));
 }
 
 static int mac_ctrl_gost(EVP_PKEY *pkey, int op, long arg1, void *arg2)
diff --git a/gost_pmeth.c b/gost_pmeth.c
index 05e02bb..6146035 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -639,8 +639,7 @@ static int pkey_gost_grasshopper_mac_init(EVP_PKEY_CTX *ctx)
 static void pkey_gost_mac_cleanup(EVP_PKEY_CTX *ctx)
 {
     struct gost_mac_pmeth_data *data = EVP_PKEY_CTX_get_data(ctx);
-    if (data)
-        OPENSSL_free(data);
+    OPENSSL_clear_free(data, sizeof(*data));
 }
 
 static int pkey_gost_mac_copy(EVP_PKEY_CTX *dst, ossl3_const EVP_PKEY_CTX *src)
@@ -756,11 +755,11 @@ static int pkey_gost_mac_ctrl_str(EVP_PKEY_CTX *ctx,
         if (!keybuf || keylen != 32) {
             GOSTerr(GOST_F_PKEY_GOST_MAC_CTRL_STR,
                     GOST_R_INVALID_MAC_KEY_LENGTH);
-            OPENSSL_free(keybuf);
+            OPENSSL_clear_free(keybuf, keybuf ? keylen : 0);
             return 0;
         }
         ret = pkey_gost_mac_ctrl(ctx, EVP_PKEY_CTRL_SET_MAC_KEY, 32, keybuf);
-        OPENSSL_free(keybuf);
+        OPENSSL_clear_free(keybuf, keylen);
         return ret;
 
     }
@@ -899,11 +898,11 @@ static int pkey_gost_omac_ctrl_str(EVP_PKEY_CTX *ctx,
         if (!keybuf || keylen != 32) {
             GOSTerr(GOST_F_PKEY_GOST_OMAC_CTRL_STR,
                     GOST_R_INVALID_MAC_KEY_LENGTH);
-            OPENSSL_free(keybuf);
+            OPENSSL_clear_free(keybuf, keybuf ? keylen : 0);
             return 0;
         }
         ret = pkey_gost_mac_ctrl(ctx, EVP_PKEY_CTRL_SET_MAC_KEY, 32, keybuf);
-        OPENSSL_free(keybuf);
+        OPENSSL_clear_free(keybuf, keylen);
         return ret;
 
     }
-- 
2.43.0


From ef976f8356bf3bd8d9951b449584beeda4e6fbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:25 +0000
Subject: [PATCH 65/68] fix: erase stored private keys before releasing the
 buffers they were read or written through

---
 gost_ameth.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index 201be0d..ceacad2 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -676,12 +676,12 @@ static int priv_decode_gost(EVP_PKEY *pk,
         /* New format - Little endian octet string */
         ASN1_OCTET_STRING *s = d2i_ASN1_OCTET_STRING(NULL, &p, priv_len);
         if (!s || s->length != expected_key_len) {
-            ASN1_STRING_free(s);
+            ASN1_STRING_clear_free(s);
             GOSTerr(GOST_F_PRIV_DECODE_GOST, EVP_R_DECODE_ERROR);
             return 0;
         }
         pk_num = secure_lebin2bn(s->data, s->length);
-        ASN1_STRING_free(s);
+        ASN1_STRING_clear_free(s);
     } else if (V_ASN1_INTEGER == *p) {
         priv_key = d2i_ASN1_INTEGER(NULL, &p, priv_len);
         if (!priv_key) {
@@ -693,7 +693,7 @@ static int priv_decode_gost(EVP_PKEY *pk,
             BN_free(pk_num);
             pk_num = NULL;
         }
-        ASN1_INTEGER_free(priv_key);
+        ASN1_STRING_clear_free(priv_key);
     } else if ((V_ASN1_SEQUENCE | V_ASN1_CONSTRUCTED) == *p) {
         MASKED_GOST_KEY *mgk = d2i_MASKED_GOST_KEY(NULL, &p, priv_len);
 
@@ -704,6 +704,8 @@ static int priv_decode_gost(EVP_PKEY *pk,
 
         priv_len = mgk->masked_priv_key->length;
         if (priv_len <= 0 || priv_len % expected_key_len) {
+            OPENSSL_cleanse(mgk->masked_priv_key->data,
+                            mgk->masked_priv_key->length);
             MASKED_GOST_KEY_free(mgk);
             GOSTerr(GOST_F_PRIV_DECODE_GOST, EVP_R_DECODE_ERROR);
             return 0;
@@ -712,6 +714,7 @@ static int priv_decode_gost(EVP_PKEY *pk,
         pk_num = unmask_priv_key(pk, mgk->masked_priv_key->data,
                                  expected_key_len,
                                  priv_len / expected_key_len - 1);
+        OPENSSL_cleanse(mgk->masked_priv_key->data, priv_len);
         MASKED_GOST_KEY_free(mgk);
     } else {
         GOSTerr(GOST_F_PRIV_DECODE_GOST, EVP_R_DECODE_ERROR);
@@ -773,7 +776,7 @@ static int priv_encode_gost(PKCS8_PRIV_KEY_INFO *p8, const EVP_PKEY *pk)
             return 0;
         }
         priv_len = i2d_ASN1_OCTET_STRING(octet, &priv_buf);
-        ASN1_STRING_free(octet);
+        ASN1_STRING_clear_free(octet);
         OPENSSL_clear_free(buf, key_len);
         if (priv_len <= 0) {
             ASN1_STRING_free(params);
-- 
2.43.0


From 0c3b13de6af3724f251ce1327925d25e4b9ee3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:24 +0000
Subject: [PATCH 66/68] fix: MGM refuses messages whose length in bits does not
 fit its length block

2^29 bytes under Magma were accepted: their 2^32 bits overflow the 32-bit
field (RFC 9058 requires |A| + |P| < 2^(n/2)).
---
 gost_gost2015.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gost_gost2015.c b/gost_gost2015.c
index 457487e..a8d71e8 100644
--- a/gost_gost2015.c
+++ b/gost_gost2015.c
@@ -285,7 +285,7 @@ int gost_mgm128_aad(mgm128_context *ctx, const unsigned char *aad,
     }
 
     alen += len;
-    if (alen > ((ossl_uintmax_t)(1) << (bl * 4 - 3)) ||      // < 2^(n/2)  (len stores in bytes)
+    if (alen >= ((ossl_uintmax_t)(1) << (bl * 4 - 3)) ||      // < 2^(n/2)  (len stores in bytes)
         (sizeof(len) == 8 && alen < len)) {
             GOSTerr(GOST_F_GOST_MGM128_AAD,
                     GOST_R_DATA_TOO_LARGE);
@@ -351,9 +351,9 @@ int gost_mgm128_encrypt(mgm128_context *ctx, const unsigned char *in,
 
     mlen += len;
 
-    if (mlen > ((ossl_uintmax_t)(1) << (bl * 4 - 3)) ||     // < 2^(n/2)  (len stores in bytes)
+    if (mlen >= ((ossl_uintmax_t)(1) << (bl * 4 - 3)) ||     // < 2^(n/2)  (len stores in bytes)
         (sizeof(len) == 8 && mlen < len) ||
-        (mlen + alen) > ((ossl_uintmax_t)(1) << (bl * 4 - 3))) {
+        (mlen + alen) >= ((ossl_uintmax_t)(1) << (bl * 4 - 3))) {
             GOSTerr(GOST_F_GOST_MGM128_ENCRYPT,
                     GOST_R_DATA_TOO_LARGE);
             return -1;
@@ -415,9 +415,9 @@ int gost_mgm128_decrypt(mgm128_context *ctx, const unsigned char *in,
         (*block) (ctx->nonce.c, ctx->Yi.c, key);  // Y_1 = E_K(0 || nonce)
 
     mlen += len;
-    if (mlen > ((ossl_uintmax_t)(1) << (bl * 4 - 3)) ||     // < 2^(n/2)  (len stores in bytes)
+    if (mlen >= ((ossl_uintmax_t)(1) << (bl * 4 - 3)) ||     // < 2^(n/2)  (len stores in bytes)
         (sizeof(len) == 8 && mlen < len) ||
-        (mlen + alen) > ((ossl_uintmax_t)(1) << (bl * 4 - 3))) {
+        (mlen + alen) >= ((ossl_uintmax_t)(1) << (bl * 4 - 3))) {
             GOSTerr(GOST_F_GOST_MGM128_DECRYPT,
                     GOST_R_DATA_TOO_LARGE);
             return -1;
-- 
2.43.0


From 97ac1d00e7e01e3be0b3605811138ba9ceb8c3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:47 +0000
Subject: [PATCH 67/68] fix: key import refuses exported keys of any other
 length than the algorithm's

---
 gost_keyexpimp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gost_keyexpimp.c b/gost_keyexpimp.c
index f3dbdff..df72e41 100644
--- a/gost_keyexpimp.c
+++ b/gost_keyexpimp.c
@@ -136,7 +136,7 @@ int gost_kimp15(const unsigned char *expkey, const size_t expkeylen,
         goto err;
     }
 
-    if (expkeylen > sizeof(out)) {
+    if (expkeylen != shared_len + mac_len) {
         GOSTerr(GOST_F_GOST_KIMP15, ERR_R_INTERNAL_ERROR);
         goto err;
     }
-- 
2.43.0


From 49da30a2e149dce81b41d0c83892eea94fe8ce90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:53 +0000
Subject: [PATCH 68/68] fix: a MAC size is not taken modulo the range of int

---
 gost_pmeth.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gost_pmeth.c b/gost_pmeth.c
index 6146035..d2f3dcd 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -766,7 +766,7 @@ static int pkey_gost_mac_ctrl_str(EVP_PKEY_CTX *ctx,
     if (!strcmp(type, maclen_ctrl_string)) {
         char *endptr;
         long size = strtol(value, &endptr, 10);
-        if (*endptr != '\0') {
+        if (*endptr != '\0' || size != (int)size) {
             GOSTerr(GOST_F_PKEY_GOST_MAC_CTRL_STR, GOST_R_INVALID_MAC_SIZE);
             return 0;
         }
@@ -909,7 +909,7 @@ static int pkey_gost_omac_ctrl_str(EVP_PKEY_CTX *ctx,
     if (!strcmp(type, maclen_ctrl_string)) {
         char *endptr;
         long size = strtol(value, &endptr, 10);
-        if (*endptr != '\0') {
+        if (*endptr != '\0' || size != (int)size) {
             GOSTerr(GOST_F_PKEY_GOST_OMAC_CTRL_STR, GOST_R_INVALID_MAC_SIZE);
             return 0;
         }
-- 
2.43.0

