From 8f865bbb9aa49d62a7050dc90fae514a4b39218a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:24 +0000
Subject: [PATCH 01/18] fix: vec_as_index() reports out-of-bounds subscripts in
 the caller's context

The C routine looks up `call` in the frame of its caller. vec_as_index()
did not define it, so base::call() was found instead and every error was
replaced by an rlang complaint about an invalid error call.
---
 R/vctrs-deprecated.R | 1 +
 1 file changed, 1 insertion(+)

diff --git a/R/vctrs-deprecated.R b/R/vctrs-deprecated.R
index d4490a5..1dcb990 100644
--- a/R/vctrs-deprecated.R
+++ b/R/vctrs-deprecated.R
@@ -96,6 +96,7 @@ vec_as_index <- function(i, n, names = NULL) {
 
   # Picked up from the environment at the C level
   arg <- NULL
+  call <- caller_env()
 
   .Call(
     ffi_as_location,
-- 
2.43.0


From b2dfa5dac5e1ae1139ab252f221509a1ad572714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:52 +0000
Subject: [PATCH 02/18] fix: ffi_vec_rep_each() looks up x_arg under its own
 name

The lazy `x_arg` was bound to the `times_arg` variable of the frame, so the
documented `x_arg` argument of vec_rep_each() was never read.
---
 src/rep.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rep.c b/src/rep.c
index 268511b..dc183a9 100644
--- a/src/rep.c
+++ b/src/rep.c
@@ -109,7 +109,7 @@ r_obj* vec_rep_each(r_obj* x,
 r_obj* ffi_vec_rep_each(r_obj* x, r_obj* times, r_obj* frame) {
   struct r_lazy error_call = { .x = r_syms.error_call, .env = frame };
 
-  struct r_lazy x_arg_lazy = { .x = syms.times_arg, .env = frame };
+  struct r_lazy x_arg_lazy = { .x = syms.x_arg, .env = frame };
   struct vctrs_arg x_arg = new_lazy_arg(&x_arg_lazy);
 
   struct r_lazy times_arg_lazy = { .x = syms.times_arg, .env = frame };
-- 
2.43.0


From fc02d7e5eab3c5a7a188cda9d33f98215238c79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:48 +0000
Subject: [PATCH 03/18] fix: new_error_subscript_type() protects the error call

---
 src/subscript.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/subscript.c b/src/subscript.c
index ceb66c7..7da8e05 100644
--- a/src/subscript.c
+++ b/src/subscript.c
@@ -294,7 +294,7 @@ r_obj* new_error_subscript_type(r_obj* subscript,
 
   subscript = KEEP(expr_protect(subscript));
   r_obj* subscript_arg = KEEP(vctrs_arg(opts->subscript_arg));
-  r_obj* ffi_call = r_lazy_eval_protect(opts->call);
+  r_obj* ffi_call = KEEP(r_lazy_eval_protect(opts->call));
 
   r_obj* syms[] = {
     syms_i,
@@ -322,7 +322,7 @@ r_obj* new_error_subscript_type(r_obj* subscript,
   r_obj* call = KEEP(r_call_n(syms_new_error_subscript_type, syms, args));
   r_obj* out = r_eval(call, vctrs_ns_env);
 
-  FREE(3);
+  FREE(4);
   return out;
 }
 
-- 
2.43.0


From 3f906c41bf7f0e6b49fbb61fb25c9d006dc21261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:48 +0000
Subject: [PATCH 04/18] fix: ffi_proxy_info() keeps the proxy info alive

---
 src/type-info.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/type-info.c b/src/type-info.c
index 4922163..fe4b446 100644
--- a/src/type-info.c
+++ b/src/type-info.c
@@ -52,13 +52,14 @@ r_obj* ffi_type_info(r_obj* x) {
 // [[ register() ]]
 r_obj* ffi_proxy_info(r_obj* x) {
   struct vctrs_proxy_info info = vec_proxy_info(x);
+  KEEP(info.shelter);
 
   r_obj* out = KEEP(Rf_mkNamed(R_TYPE_list, (const char*[]) { "type", "proxy_method", "proxy", "" }));
   r_list_poke(out, 0, r_chr(vec_type_as_str(info.type)));
   r_list_poke(out, 1, info.proxy_method);
   r_list_poke(out, 2, info.proxy);
 
-  FREE(1);
+  FREE(2);
   return out;
 }
 
-- 
2.43.0


From b19e96a39ac86c1b965fc182fa6973aba283fa10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:31 +0000
Subject: [PATCH 05/18] fix: report the calling function when vec_cbind() can't
 recycle to .size

---
 src/bind.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bind.c b/src/bind.c
index e13cb4b..dcfcd23 100644
--- a/src/bind.c
+++ b/src/bind.c
@@ -425,7 +425,7 @@ r_obj* vec_cbind(r_obj* xs,
       continue;
     }
 
-    x = KEEP(vec_check_recycle(x, nrow, vec_args.empty, r_lazy_null));
+    x = KEEP(vec_check_recycle(x, nrow, vec_args.empty, error_call));
 
     r_obj* outer_name = has_names ? xs_names_p[i] : strings_empty;
     bool allow_packing;
-- 
2.43.0


From ab87ebbadd95100916f9d2db00cfcd6999fa22ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:31 +0000
Subject: [PATCH 06/18] fix: keep the error call when the common type with an
 unspecified input falls back

---
 src/ptype2.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ptype2.c b/src/ptype2.c
index 406d417..0dfda4b 100644
--- a/src/ptype2.c
+++ b/src/ptype2.c
@@ -169,6 +169,7 @@ r_obj* vec_ptype2_from_unspecified(const struct ptype2_opts* opts,
       .y = other,
       .p_x_arg = other_arg,
       .p_y_arg = other_arg,
+      .call = opts->call,
       .fallback = opts->fallback
     };
     int _left = 0;
-- 
2.43.0


From 988f1dd06ee388ab9aee1b7b82c09504bf8fe3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:48 +0000
Subject: [PATCH 07/18] fix: the strict mode error of vec_ptype_common()
 reports its caller

---
 src/ptype-common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ptype-common.c b/src/ptype-common.c
index 24ac0ab..3b64b57 100644
--- a/src/ptype-common.c
+++ b/src/ptype-common.c
@@ -48,7 +48,7 @@ r_obj* vec_ptype_common_opts(r_obj* dots,
   }
 
   if (r_is_true(r_peek_option("vctrs.no_guessing"))) {
-    r_abort_lazy_call(r_lazy_null, "strict mode is activated; you must supply complete `.ptype`.");
+    r_abort_lazy_call(opts->call, "strict mode is activated; you must supply complete `.ptype`.");
   }
 
   // Remove constness
-- 
2.43.0


From c245d63c9fb11e45f1609b3405d0d458b9785444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:45 +0000
Subject: [PATCH 08/18] fix: report the caller's error call for incompatible
 ordered factors

---
 src/type-factor.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/type-factor.c b/src/type-factor.c
index 18a23ba..fdac51e 100644
--- a/src/type-factor.c
+++ b/src/type-factor.c
@@ -57,7 +57,7 @@ r_obj* ord_ptype2(const struct ptype2_opts* p_opts) {
                               p_opts->y,
                               p_opts->p_x_arg,
                               p_opts->p_y_arg,
-                              r_lazy_null,
+                              p_opts->call,
                               &p_opts->fallback);
   }
 }
-- 
2.43.0


From d1577852645cef9cc2c056abfd7fbd76d7656159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:21 +0000
Subject: [PATCH 09/18] fix: report the caller's error call when casting an
 object subscript

---
 src/subscript.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/subscript.c b/src/subscript.c
index 7da8e05..db180ec 100644
--- a/src/subscript.c
+++ b/src/subscript.c
@@ -103,12 +103,14 @@ r_obj* obj_cast_subscript(r_obj* subscript,
   struct ptype2_opts ptype2_opts = {
     .x = subscript,
     .y = r_null,
-    .p_x_arg = opts->subscript_arg
+    .p_x_arg = opts->subscript_arg,
+    .call = opts->call
   };
   struct cast_opts cast_opts = {
     .x = subscript,
     .to = r_null,
-    .p_x_arg = opts->subscript_arg
+    .p_x_arg = opts->subscript_arg,
+    .call = opts->call
   };
 
   ptype2_opts.y = cast_opts.to = r_globals.empty_lgl;
-- 
2.43.0


From 6a8b9da7ce75852f6cc768dfbd8d8a3268e99bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:45 +0000
Subject: [PATCH 10/18] fix: clear the counts of the counting sort on entry, an
 earlier call may have failed midway

---
 src/order.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/order.c b/src/order.c
index 51d0615..d569ead 100644
--- a/src/order.c
+++ b/src/order.c
@@ -1308,7 +1308,7 @@ void int_order_counting(const int* p_x,
                         int* p_o,
                         int* p_o_aux,
                         struct group_infos* p_group_infos) {
-  // - Only allocate this once (counts are reset to 0 at end)
+  // - Only allocate this once (counts are reset to 0 at start)
   // - Allocating as static allows us to allocate an array this large
   // - `+ 1` to ensure there is room for the extra `NA` bucket
   static r_ssize p_counts[INT_ORDER_COUNTING_RANGE_BOUNDARY + 1] = { 0 };
@@ -1322,6 +1322,12 @@ void int_order_counting(const int* p_x,
     Rf_errorcall(R_NilValue, "Internal error: `range > INT_ORDER_COUNTING_RANGE_BOUNDARY`.");
   }
 
+  // Reset counts. Done on entry because a previous call might have failed
+  // while pushing group sizes, after having touched the counts.
+  // Only reset what we might touch.
+  // `+ 1` to reset the NA bucket too.
+  memset(p_counts, 0, (range + 1) * sizeof(r_ssize));
+
   // Histogram pass
   for (r_ssize i = 0; i < size; ++i) {
     const int elt = p_x[i];
@@ -1396,11 +1402,6 @@ void int_order_counting(const int* p_x,
       p_o[loc] = i + 1;
     }
   }
-
-  // Reset counts for next column.
-  // Only reset what we might have touched.
-  // `+ 1` to reset the NA bucket too.
-  memset(p_counts, 0, (range + 1) * sizeof(r_ssize));
 }
 
 // -----------------------------------------------------------------------------
-- 
2.43.0


From 402cf0bf42dfb7a579809f59e8fe2b8cb60dd206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:22 +0000
Subject: [PATCH 11/18] fix: match `.names_to` against column names
 independently of their encoding

The column named by `.names_to` was looked up by pointer, so that a column
with the same name in another encoding was not found. A second column of
that name was then added, and the cast to the common type failed.
---
 src/bind.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/bind.c b/src/bind.c
index dcfcd23..dd99237 100644
--- a/src/bind.c
+++ b/src/bind.c
@@ -100,9 +100,15 @@ r_obj* vec_rbind(r_obj* xs,
                         r_c_str_format_error_arg(".names_to"));
     }
 
+    // Strings are matched by pointer, so both sides need the same encoding
     r_obj* ptype_nms = KEEP(r_names(ptype));
-    names_to_loc = r_chr_find(ptype_nms, names_to);
-    FREE(1);
+    ptype_nms = KEEP(vec_normalize_encoding(ptype_nms));
+
+    r_obj* names_to_chr = KEEP(r_str_as_character(names_to));
+    names_to_chr = KEEP(vec_normalize_encoding(names_to_chr));
+
+    names_to_loc = r_chr_find(ptype_nms, r_chr_get(names_to_chr, 0));
+    FREE(4);
 
     if (names_to_loc < 0) {
       ptype = cbind_names_to(r_names(xs) != r_null,
-- 
2.43.0


From c59228d0bfd6fbaf9aff06c43bcf6afc926b4f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:10 +0000
Subject: [PATCH 12/18] fix: reject NaN as a field index

`R_IsNA()` is false for NaN, which also passes both bounds tests, so
`field(x, NaN)` read out of bounds and crashed.
---
 src/fields.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fields.c b/src/fields.c
index 5ab2547..2161185 100644
--- a/src/fields.c
+++ b/src/fields.c
@@ -38,7 +38,7 @@ int find_offset(SEXP x, SEXP index) {
   } else if (TYPEOF(index) == REALSXP) {
     double val = REAL(index)[0];
 
-    if (R_IsNA(val))
+    if (isnan(val))
       Rf_errorcall(R_NilValue, "Invalid index: NA_real_");
 
     val--;
-- 
2.43.0


From c2bbbcbaa1461521561397986172c6e8a938a6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:10 +0000
Subject: [PATCH 13/18] fix: allow adding a missing duration to a date

The missing comparison made `maybe_lossy_cast()` fail with 'missing
value where TRUE/FALSE needed' instead of giving a missing date.
---
 R/type-date-time.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/R/type-date-time.R b/R/type-date-time.R
index 1369b67..1423125 100644
--- a/R/type-date-time.R
+++ b/R/type-date-time.R
@@ -578,7 +578,7 @@ chr_date_as_posixct <- function(x, tzone) {
 
 lossy_floor <- function(x, to, x_arg = "", to_arg = "") {
   x_floor <- floor(x)
-  lossy <- x != x_floor
+  lossy <- x != x_floor & !is.na(x)
   maybe_lossy_cast(x_floor, x, to, lossy, x_arg = x_arg, to_arg = to_arg)
 }
 
-- 
2.43.0


From 519237e33bb195a681c0b8911a2b8209538cdbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:10 +0000
Subject: [PATCH 14/18] fix: report lossy casts of infinite or distant
 date-times

A date without a standard text form made the cast fail to parse it
instead of signalling a lossy cast.
---
 R/type-date-time.R | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/R/type-date-time.R b/R/type-date-time.R
index 1423125..f90a0f8 100644
--- a/R/type-date-time.R
+++ b/R/type-date-time.R
@@ -242,8 +242,8 @@ date_cast <- function(x, to, ..., x_arg = "", to_arg = "") {
   out <- as.Date(x, tz = tzone(x))
 
   x_ct <- as.POSIXct(x)
-  out_ct <- as.POSIXct(as.character(out), tz = tzone(x))
-  lossy <- abs(x_ct - out_ct) > 1e-9 & !is.na(x)
+  out_ct <- chr_date_as_posixct(date_as_character(out), tzone = tzone(x))
+  lossy <- (is.na(out_ct) | abs(x_ct - out_ct) > 1e-9) & !is.na(x)
 
   maybe_lossy_cast(out, x, to, lossy, x_arg = x_arg, to_arg = to_arg)
 }
-- 
2.43.0


From e90611a2da1d1ba5f2865a1811337a59590b56e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:40 +0000
Subject: [PATCH 15/18] fix: detect lossy casts between integer64 and base
 numbers

Casting `1.5` to integer64, or a large integer64 to integer or double,
silently changed the value instead of signalling a lossy cast.
---
 R/type-integer64.R | 60 +++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 54 insertions(+), 6 deletions(-)

diff --git a/R/type-integer64.R b/R/type-integer64.R
index 765c856..14b8c50 100644
--- a/R/type-integer64.R
+++ b/R/type-integer64.R
@@ -88,8 +88,23 @@ vec_cast.integer64.integer <- function(x, to, ...) {
 
 #' @export
 #' @method vec_cast.integer integer64
-vec_cast.integer.integer64 <- function(x, to, ...) {
-  as.integer(x)
+vec_cast.integer.integer64 <- function(x,
+                                       to,
+                                       ...,
+                                       x_arg = "",
+                                       to_arg = "",
+                                       call = caller_env()) {
+  out <- suppressWarnings(as.integer(x))
+  lossy <- xor(is.na(x), is.na(out))
+  maybe_lossy_cast(
+    out,
+    x,
+    to,
+    lossy,
+    x_arg = x_arg,
+    to_arg = to_arg,
+    call = call
+  )
 }
 
 #' @export
@@ -106,14 +121,47 @@ vec_cast.logical.integer64 <- function(x, to, ...) {
 
 #' @export
 #' @method vec_cast.integer64 double
-vec_cast.integer64.double <- function(x, to, ...) {
-  bit64::as.integer64(x)
+vec_cast.integer64.double <- function(x,
+                                      to,
+                                      ...,
+                                      x_arg = "",
+                                      to_arg = "",
+                                      call = caller_env()) {
+  out <- suppressWarnings(bit64::as.integer64(x))
+  x_na <- is.na(x)
+  back <- suppressWarnings(as.double(out))
+  lossy <- (back != x & !x_na) | xor(x_na, is.na(out))
+  maybe_lossy_cast(
+    out,
+    x,
+    to,
+    lossy,
+    x_arg = x_arg,
+    to_arg = to_arg,
+    call = call
+  )
 }
 
 #' @export
 #' @method vec_cast.double integer64
-vec_cast.double.integer64 <- function(x, to, ...) {
-  as.double(x)
+vec_cast.double.integer64 <- function(x,
+                                      to,
+                                      ...,
+                                      x_arg = "",
+                                      to_arg = "",
+                                      call = caller_env()) {
+  out <- suppressWarnings(as.double(x))
+  back <- suppressWarnings(bit64::as.integer64(out))
+  lossy <- (is.na(back) | back != x) & !is.na(x)
+  maybe_lossy_cast(
+    out,
+    x,
+    to,
+    lossy,
+    x_arg = x_arg,
+    to_arg = to_arg,
+    call = call
+  )
 }
 
 # ------------------------------------------------------------------------------
-- 
2.43.0


From 29ac405fbd28420bb68a70f2a5240c53896d596a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:45 +0000
Subject: [PATCH 16/18] fix: compare the names and the number of attributes of
 list elements

`vec_equal_attrib()` compared the tag of an attribute of `x` with itself, and
ignored attributes that only `y` has. `vec_equal(list(1), list(c(a = 1)))`
was `TRUE` while `vec_equal(list(c(a = 1)), list(1))` was `FALSE`.
---
 src/equal.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/equal.c b/src/equal.c
index 359bbb4..ecbef81 100644
--- a/src/equal.c
+++ b/src/equal.c
@@ -396,7 +396,7 @@ static inline bool vec_equal_attrib(SEXP x, SEXP y) {
     }
 
     SEXP x_tag = TAG(x_attrs);
-    SEXP y_tag = TAG(x_attrs);
+    SEXP y_tag = TAG(y_attrs);
 
     if (x_tag != y_tag) {
       return false;
@@ -410,7 +410,7 @@ static inline bool vec_equal_attrib(SEXP x, SEXP y) {
     y_attrs = CDR(y_attrs);
   }
 
-  return true;
+  return y_attrs == R_NilValue;
 }
 
 
-- 
2.43.0


From 4d2461856721c9e1b6809a18dfb023a1ffe6b312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:42 +0000
Subject: [PATCH 17/18] fix: compare the argument names of calls and functions

`vec_unique(list(quote(f(a = 1)), quote(f(b = 1))))` kept only the first call
because the tags of pairlists were ignored.
---
 src/equal.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/equal.c b/src/equal.c
index ecbef81..ab8a9a5 100644
--- a/src/equal.c
+++ b/src/equal.c
@@ -312,6 +312,10 @@ bool equal_object_normalized(SEXP x, SEXP y) {
       return false;
     }
 
+    if (!equal_object_normalized(TAG(x), TAG(y))) {
+      return false;
+    }
+
     if (!equal_object_normalized(CAR(x), CAR(y))) {
       return false;
     }
-- 
2.43.0


From 1e5bccac32b0fd6e629082973f2f51fbd773e478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:24 +0000
Subject: [PATCH 18/18] fix: hash complex and raw vectors inside lists

`vec_unique(list(1i))` and `vec_match(list(as.raw(1)), list())` failed with
`Unsupported type` although these elements can be compared.
---
 src/hash.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/hash.c b/src/hash.c
index 154c9fb..da226f8 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -107,6 +107,8 @@ static inline uint32_t list_hash_scalar_na_propagate(SEXP x, R_len_t i) {
 static uint32_t lgl_hash(SEXP x);
 static uint32_t int_hash(SEXP x);
 static uint32_t dbl_hash(SEXP x);
+static uint32_t cpl_hash(SEXP x);
+static uint32_t raw_hash(SEXP x);
 static uint32_t chr_hash(SEXP x);
 static uint32_t list_hash(SEXP x);
 static uint32_t node_hash(SEXP x);
@@ -141,6 +143,8 @@ static uint32_t sexp_hash(SEXP x) {
   case LGLSXP: return lgl_hash(x);
   case INTSXP: return int_hash(x);
   case REALSXP: return dbl_hash(x);
+  case CPLXSXP: return cpl_hash(x);
+  case RAWSXP: return raw_hash(x);
   case STRSXP: return chr_hash(x);
   case EXPRSXP:
   case VECSXP: return list_hash(x);
@@ -178,6 +182,12 @@ static uint32_t int_hash(SEXP x) {
 static uint32_t dbl_hash(SEXP x) {
   HASH(double, REAL_RO, dbl_hash_scalar);
 }
+static uint32_t cpl_hash(SEXP x) {
+  HASH(Rcomplex, COMPLEX_RO, cpl_hash_scalar);
+}
+static uint32_t raw_hash(SEXP x) {
+  HASH(Rbyte, RAW_RO, raw_hash_scalar);
+}
 static uint32_t chr_hash(SEXP x) {
   HASH(SEXP, STRING_PTR_RO, chr_hash_scalar);
 }
-- 
2.43.0

