From b96c3f5bc4da4babb96a025d1d25c8e1c970a930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:08 +0000
Subject: [PATCH 1/7] fix: compare attributes in both directions and by their
 own names in object equality

---
 src/equal.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/equal.c b/src/equal.c
index 359bbb4..ecbef81 100644
--- a/src/equal.c
+++ b/src/equal.c
@@ -396,7 +396,7 @@ static inline bool vec_equal_attrib(SEXP x, SEXP y) {
     }
 
     SEXP x_tag = TAG(x_attrs);
-    SEXP y_tag = TAG(x_attrs);
+    SEXP y_tag = TAG(y_attrs);
 
     if (x_tag != y_tag) {
       return false;
@@ -410,7 +410,7 @@ static inline bool vec_equal_attrib(SEXP x, SEXP y) {
     y_attrs = CDR(y_attrs);
   }
 
-  return true;
+  return y_attrs == R_NilValue;
 }
 
 
-- 
2.43.0


From d5a55511125e2de06bb04496375c2cbed98b6688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:08 +0000
Subject: [PATCH 2/7] fix: compare argument names of calls in object equality

---
 src/equal.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/equal.c b/src/equal.c
index ecbef81..b903b1e 100644
--- a/src/equal.c
+++ b/src/equal.c
@@ -312,6 +312,10 @@ bool equal_object_normalized(SEXP x, SEXP y) {
       return false;
     }
 
+    if (TAG(x) != TAG(y)) {
+      return false;
+    }
+
     if (!equal_object_normalized(CAR(x), CAR(y))) {
       return false;
     }
-- 
2.43.0


From c3c0a3c68c4ce1d731ba29517f41780b4b82f3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:08 +0000
Subject: [PATCH 3/7] fix: hash complex and raw vectors stored in lists

---
 src/hash.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/hash.c b/src/hash.c
index 154c9fb..da226f8 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -107,6 +107,8 @@ static inline uint32_t list_hash_scalar_na_propagate(SEXP x, R_len_t i) {
 static uint32_t lgl_hash(SEXP x);
 static uint32_t int_hash(SEXP x);
 static uint32_t dbl_hash(SEXP x);
+static uint32_t cpl_hash(SEXP x);
+static uint32_t raw_hash(SEXP x);
 static uint32_t chr_hash(SEXP x);
 static uint32_t list_hash(SEXP x);
 static uint32_t node_hash(SEXP x);
@@ -141,6 +143,8 @@ static uint32_t sexp_hash(SEXP x) {
   case LGLSXP: return lgl_hash(x);
   case INTSXP: return int_hash(x);
   case REALSXP: return dbl_hash(x);
+  case CPLXSXP: return cpl_hash(x);
+  case RAWSXP: return raw_hash(x);
   case STRSXP: return chr_hash(x);
   case EXPRSXP:
   case VECSXP: return list_hash(x);
@@ -178,6 +182,12 @@ static uint32_t int_hash(SEXP x) {
 static uint32_t dbl_hash(SEXP x) {
   HASH(double, REAL_RO, dbl_hash_scalar);
 }
+static uint32_t cpl_hash(SEXP x) {
+  HASH(Rcomplex, COMPLEX_RO, cpl_hash_scalar);
+}
+static uint32_t raw_hash(SEXP x) {
+  HASH(Rbyte, RAW_RO, raw_hash_scalar);
+}
 static uint32_t chr_hash(SEXP x) {
   HASH(SEXP, STRING_PTR_RO, chr_hash_scalar);
 }
-- 
2.43.0


From 4b2c8693c227f21a3fc85d6aa124d5b649989d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:08 +0000
Subject: [PATCH 4/7] fix: leave missing values without anything to fill from
 unchanged in vec_fill_missing()

---
 src/fill.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/fill.c b/src/fill.c
index 7bc37ca..b16a1e7 100644
--- a/src/fill.c
+++ b/src/fill.c
@@ -78,7 +78,8 @@ void vec_fill_missing_down(const int* p_na, r_ssize size, bool leading, int* p_l
       loc = i;
     }
 
-    p_loc[i] = loc + 1;
+    // Until a non-missing value is seen there is nothing to fill from
+    p_loc[i] = (p_na[loc] ? i : loc) + 1;
   }
 }
 
@@ -118,7 +119,8 @@ void vec_fill_missing_down_with_max_fill(const int* p_na, r_ssize size, bool lea
       continue;
     }
 
-    if (n_fill == max_fill) {
+    // Until a non-missing value is seen there is nothing to fill from
+    if (n_fill == max_fill || p_na[loc]) {
       p_loc[i] = i + 1;
     } else {
       p_loc[i] = loc + 1;
@@ -151,7 +153,8 @@ void vec_fill_missing_up(const int* p_na, r_ssize size, bool leading, int* p_loc
       loc = i;
     }
 
-    p_loc[i] = loc + 1;
+    // Until a non-missing value is seen there is nothing to fill from
+    p_loc[i] = (p_na[loc] ? i : loc) + 1;
   }
 }
 
@@ -191,7 +194,8 @@ void vec_fill_missing_up_with_max_fill(const int* p_na, r_ssize size, bool leadi
       continue;
     }
 
-    if (n_fill == max_fill) {
+    // Until a non-missing value is seen there is nothing to fill from
+    if (n_fill == max_fill || p_na[loc]) {
       p_loc[i] = i + 1;
     } else {
       p_loc[i] = loc + 1;
-- 
2.43.0


From fbe62fa7f8016e18e5798a10a165e97fe6a58942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:34 +0000
Subject: [PATCH 5/7] fix: reject invalid sizes in vec_recycle() instead of
 reading out of bounds

---
 src/size.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/size.c b/src/size.c
index cc6668b..ea298a8 100644
--- a/src/size.c
+++ b/src/size.c
@@ -242,14 +242,16 @@ r_obj* ffi_recycle(r_obj* x,
                            vec_args.empty,
                            vec_args.empty,
                            recycle_call));
-  R_len_t size = r_int_get(size_obj, 0);
-  FREE(1);
 
   struct r_lazy x_arg_ = { .x = syms.x_arg, .env = frame };
   struct vctrs_arg x_arg = new_lazy_arg(&x_arg_);
 
   struct r_lazy call = { .x = syms_call, .env = frame };
 
+  struct vctrs_arg size_arg = new_wrapper_arg(NULL, "size");
+  R_len_t size = (R_len_t) vec_as_short_length(size_obj, &size_arg, call);
+  FREE(1);
+
   return vec_check_recycle(x, size, &x_arg, call);
 }
 
-- 
2.43.0


From b76531893b68c3a0f66387fc3f6c27cb58aee574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:31 +0000
Subject: [PATCH 6/7] fix: vec_locate_run_bounds() writes outside of its result
 after the last bound

---
 src/runs.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/runs.c b/src/runs.c
index 5328406..8337c4e 100644
--- a/src/runs.c
+++ b/src/runs.c
@@ -63,11 +63,13 @@ r_obj* vec_locate_run_bounds(r_obj* x, enum vctrs_run_bound which, struct r_lazy
   r_ssize loc = compute_iter_loc(size, which);
   const r_ssize step = compute_iter_step(which);
 
-  // First/last value are always the final bound locations
-  // (depending on `which`), so `j` won't ever write to OOB locations
+  // Only write at bounds. Once all `n` bounds have been located, the remaining
+  // elements continue the final run and `j` is out of bounds.
   for (r_ssize i = 0; i < size; ++i) {
-    v_out[j] = loc + 1;
-    j += step * v_where[loc];
+    if (v_where[loc]) {
+      v_out[j] = loc + 1;
+      j += step;
+    }
     loc += step;
   }
 
-- 
2.43.0


From 12c541316633ea5dda71c5de77a24afcdfaf6e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:39 +0000
Subject: [PATCH 7/7] fix: vec_assign() modifies its input when the proxy
 shares columns with it

---
 src/slice-assign.c | 7 ++++---
 src/slice-assign.h | 4 ++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/slice-assign.c b/src/slice-assign.c
index 9508f0a..1345dca 100644
--- a/src/slice-assign.c
+++ b/src/slice-assign.c
@@ -33,7 +33,10 @@ r_obj* vec_assign_opts(r_obj* x,
 
   r_obj* proxy = KEEP(vec_proxy(x));
   const enum vctrs_owned owned = vec_owned(proxy);
-  proxy = KEEP(vec_proxy_assign_opts(proxy, index, value, owned, &opts));
+
+  // Ownership must be recursive, but a fresh proxy may still share its columns
+  // with `x`, e.g. the data frame proxy of a record
+  proxy = KEEP(vec_proxy_assign_opts(proxy, index, value, VCTRS_OWNED_false, &opts));
 
   r_obj* out = vec_restore(proxy, x, owned);
 
@@ -107,8 +110,6 @@ r_obj* vec_assign_switch(r_obj* proxy,
 //   duplicated if it is referenced, i.e. `MAYBE_REFERENCED()` returns `true`.
 //
 // In `vec_proxy_assign()`, which is part of the experimental public API,
-// ownership is determined with a call to `NO_REFERENCES()`. If there are no
-// references, then `VCTRS_OWNED_true` is used, else
 // `VCTRS_OWNED_false` is used.
 //
 // Ownership of the `proxy` must be recursive. For data frames, the `owned`
diff --git a/src/slice-assign.h b/src/slice-assign.h
index ccadf73..219eaf9 100644
--- a/src/slice-assign.h
+++ b/src/slice-assign.h
@@ -69,7 +69,7 @@ r_obj* vec_proxy_assign(r_obj* proxy,
                         r_obj* index,
                         r_obj* value) {
   struct vec_assign_opts args = { 0 };
-  return vec_proxy_assign_opts(proxy, index, value, vec_owned(proxy), &args);
+  return vec_proxy_assign_opts(proxy, index, value, VCTRS_OWNED_false, &args);
 }
 
 static inline
@@ -84,7 +84,7 @@ r_obj* vec_proxy_check_assign(r_obj* proxy,
     .value_arg = value_arg,
     .call = call
   };
-  return vec_proxy_assign_opts(proxy, index, value, vec_owned(proxy), &opts);
+  return vec_proxy_assign_opts(proxy, index, value, VCTRS_OWNED_false, &opts);
 }
 
 r_obj* chr_assign(r_obj* out,
-- 
2.43.0

