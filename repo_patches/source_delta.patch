From cd57452db637a6389e1c62ae974148523f966691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:56 +0000
Subject: [PATCH 01/17] fix: Mchar allocates the full character object

---
 src/core/c/char.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/c/char.c b/src/core/c/char.c
index 9a64b43..b46fd1f 100644
--- a/src/core/c/char.c
+++ b/src/core/c/char.c
@@ -5,7 +5,7 @@
 #include "../minim.h"
 
 mobj Mchar(mchar c) {
-    mobj o = GC_alloc_atomic(sizeof(minim_char_size));
+    mobj o = GC_alloc_atomic(minim_char_size);
     minim_type(o) = MINIM_OBJ_CHAR;
     minim_char(o) = c;
     return o;
-- 
2.43.0


From 438511822ffdfc4355702ff671a2f7b2281e565f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:22 +0000
Subject: [PATCH 02/17] fix: modulo is zero when the divisor divides the
 dividend

---
 src/core/c/number.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/c/number.c b/src/core/c/number.c
index bb160ab..c36e20b 100644
--- a/src/core/c/number.c
+++ b/src/core/c/number.c
@@ -54,7 +54,7 @@ mobj fx_modulo(mobj x, mobj y) {
     mfixnum xv = minim_fixnum(x);
     mfixnum yv = minim_fixnum(y);
     mfixnum z = xv % yv;
-    if ((xv < 0) != (yv < 0))
+    if (z != 0 && (xv < 0) != (yv < 0))
         z += yv;
     return Mfixnum(z);
 }
-- 
2.43.0


From 252bfadc77ffa4d5ff8c1b370073020652b1ae3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:22 +0000
Subject: [PATCH 03/17] fix: remainder and modulo by -1 do not trap on the
 least fixnum

---
 src/core/c/number.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/c/number.c b/src/core/c/number.c
index c36e20b..d3c6d15 100644
--- a/src/core/c/number.c
+++ b/src/core/c/number.c
@@ -46,14 +46,15 @@ mobj fx2_div(mobj x, mobj y) {
 
 mobj fx_remainder(mobj x, mobj y) {
     // (-> integer integer integer)
-    return Mfixnum(minim_fixnum(x) % minim_fixnum(y));
+    mfixnum yv = minim_fixnum(y);
+    return Mfixnum((yv == -1) ? 0 : (minim_fixnum(x) % yv));
 }
 
 mobj fx_modulo(mobj x, mobj y) {
     // (-> integer integer integer)
     mfixnum xv = minim_fixnum(x);
     mfixnum yv = minim_fixnum(y);
-    mfixnum z = xv % yv;
+    mfixnum z = (yv == -1) ? 0 : (xv % yv);
     if (z != 0 && (xv < 0) != (yv < 0))
         z += yv;
     return Mfixnum(z);
-- 
2.43.0


From bb898cdcfa19ab0ca8b922c64c28f8832809a42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:22 +0000
Subject: [PATCH 04/17] fix: string->list does not include the terminating NUL

---
 src/core/c/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/c/string.c b/src/core/c/string.c
index 8de8d31..f328e71 100644
--- a/src/core/c/string.c
+++ b/src/core/c/string.c
@@ -103,7 +103,7 @@ mobj list_to_string(mobj xs) {
 mobj string_to_list(mobj s) {
     // (-> string (listof char))
     mobj lst = minim_null;
-    for (long i = strlen(minim_string(s)); i >= 0; i--)
+    for (long i = ((long) strlen(minim_string(s))) - 1; i >= 0; i--)
         lst = Mcons(Mchar(minim_string(s)[i]), lst);
     return lst;
 }
-- 
2.43.0


From cb5d34269721fba3f7c720becf6c36e15e7d9a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:22 +0000
Subject: [PATCH 05/17] fix: string->number reads fixnums wider than int

---
 src/core/c/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/c/string.c b/src/core/c/string.c
index f328e71..0c14eec 100644
--- a/src/core/c/string.c
+++ b/src/core/c/string.c
@@ -71,7 +71,7 @@ mobj number_to_string(mobj n) {
 
 mobj string_to_number(mobj s) {
     // (-> string number)
-    return Mfixnum(atoi(minim_string(s)));
+    return Mfixnum(strtol(minim_string(s), NULL, 10));
 }
 
 mobj symbol_to_string(mobj s) {
-- 
2.43.0


From 65999b9197bcd60813fec57fdc720a16e894c3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:22 +0000
Subject: [PATCH 06/17] fix: equal-hash reads string data of strings only

---
 src/core/c/hashtable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/c/hashtable.c b/src/core/c/hashtable.c
index 1987771..461f086 100644
--- a/src/core/c/hashtable.c
+++ b/src/core/c/hashtable.c
@@ -237,7 +237,7 @@ mobj equal_hash_proc(mobj x) {
     size_t hc;
     if (minim_symbolp(x)) {
         hc = hash_bytes(minim_symbol(x), strlen(minim_symbol(x)), hash_init);
-    } else if (minim_string(x)) {
+    } else if (minim_stringp(x)) {
         hc = hash_bytes(minim_string(x), strlen(minim_string(x)), hash_init);
     } else {
         hc = eq_hash(x);
-- 
2.43.0


From 307947e36fc052a136ed7ae6bf45d1fa2ad000b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:22 +0000
Subject: [PATCH 07/17] fix: procedure-rename leaves the original procedure
 untouched

---
 src/core/c/procedure.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/c/procedure.c b/src/core/c/procedure.c
index 4369ca8..09fe503 100644
--- a/src/core/c/procedure.c
+++ b/src/core/c/procedure.c
@@ -52,6 +52,6 @@ mobj procedure_rename_proc(mobj proc, mobj id) {
         minim_closure_ref(proc2, i) = minim_closure_ref(proc, i);
     }
 
-    minim_closure_name(proc) = id;
-    return proc;
+    minim_closure_name(proc2) = id;
+    return proc2;
 }
-- 
2.43.0


From 674c106dfccd500985b8f6bc4f57a785069331dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:22 +0000
Subject: [PATCH 08/17] fix: interning inserts into the bucket of the resized
 table

---
 src/core/c/symbol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/c/symbol.c b/src/core/c/symbol.c
index 589a607..f7afd8d 100644
--- a/src/core/c/symbol.c
+++ b/src/core/c/symbol.c
@@ -173,7 +173,7 @@ mobj intern_symbol(intern_table *itab, const char *sym) {
 
     // update table
     resize_if_needed(itab);
-    intern_table_insert(itab, idx, obj);
+    intern_table_insert(itab, h % itab->alloc, obj);
     return obj;
 }
 
-- 
2.43.0


From bed2bde12f7dd6d2708b56c422fdb0def16b9769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:04 +0000
Subject: [PATCH 09/17] fix: / with three or more arguments divides

---
 src/core/s/prelude.min | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 46c9fad..f75404e 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -687,9 +687,9 @@
                                              (if (number? ($car xs))
                                                  (if (zero? ($car xs))
                                                      (division-0-error '/ ($car xs))
-                                                     (loop ($fx2- x ($car xs)) ($cdr xs)))
+                                                     (loop ($fx2/ x ($car xs)) ($cdr xs)))
                                                  (non-number-error '- ($car xs)))))])
-                       (loop ($fx2- x y) rest)))
+                       (loop ($fx2/ x y) rest)))
                  (non-number-error '- y))
              (non-number-error '- x))]))))
 
-- 
2.43.0


From 7d4c4571fb03736c8737a94acd6a98ea8ff0ecef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:30 +0000
Subject: [PATCH 10/17] fix: division by zero raises its own error

---
 src/core/s/prelude.min | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index f75404e..eacff69 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -664,14 +664,14 @@
         [(x)
          (if (number? x)
              (if (zero? x)
-                 (division-0-error '/ x)
+                 (divide-0-error '/ x)
                  ($fx2/ 1 x))
              (non-number-error '/ x))]
         [(x y)
          (if (number? x)
              (if (number? y)
                  (if (zero? y)
-                     (division-0-error '/ y)
+                     (divide-0-error '/ y)
                      ($fx2/ x y))
                  (non-number-error '- y))
              (non-number-error '- x))]
@@ -679,14 +679,14 @@
          (if (number? x)
              (if (number? y)
                  (if (zero? y)
-                     (division-0-error '/ y)
+                     (divide-0-error '/ y)
                      (letrec-values ([(loop)
                                       (lambda (x xs)
                                          (if (null? xs)
                                              x
                                              (if (number? ($car xs))
                                                  (if (zero? ($car xs))
-                                                     (division-0-error '/ ($car xs))
+                                                     (divide-0-error '/ ($car xs))
                                                      (loop ($fx2/ x ($car xs)) ($cdr xs)))
                                                  (non-number-error '- ($car xs)))))])
                        (loop ($fx2/ x y) rest)))
-- 
2.43.0


From 379f984a0e3cf2ee35efad2d9b108e19c613ff1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:30 +0000
Subject: [PATCH 11/17] fix: remainder by zero raises an error

---
 src/core/s/prelude.min | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index eacff69..c1a733d 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -709,7 +709,9 @@
   (lambda (x y)
     (if (number? x)
         (if (number? y)
-            ($fxremainder x y)
+            (if (zero? y)
+                (error 'remainder "division by zero" y)
+                ($fxremainder x y))
             (raise-argument-error 'remainder "number?" y))
         (raise-argument-error 'remainder "number?" x))))
 
-- 
2.43.0


From 64d599506236a54c547c139c9ff4cf8640089418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:30 +0000
Subject: [PATCH 12/17] fix: modulo by zero raises an error

---
 src/core/s/prelude.min | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index c1a733d..a9e75fb 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -719,7 +719,9 @@
   (lambda (x y)
     (if (number? x)
         (if (number? y)
-            ($fxmodulo x y)
+            (if (zero? y)
+                (error 'modulo "division by zero" y)
+                ($fxmodulo x y))
             (raise-argument-error 'modulo "number?" y))
         (raise-argument-error 'modulo "number?" x))))
 
-- 
2.43.0


From 99f6f34d76f2a90084e5ca9eaf994bbc9d6bbedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:39 +0000
Subject: [PATCH 13/17] fix: equal? compares the sizes of hash tables

---
 src/core/s/prelude.min | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index a9e75fb..eee8173 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1856,15 +1856,17 @@
                    (lambda (a b)
                      (if (eq? (hashtable-hash-proc a) (hashtable-hash-proc b))
                          (if (eq? (hashtable-equiv-proc a) (hashtable-equiv-proc b))
-                             (let-values ([(kas vas) (hashtable-entries a)])
-                               (andmap
-                                 (lambda (i)
-                                   (let-values ([(ka) ($vector-ref kas i)]
-                                                [(va) ($vector-ref vas i)])
-                                     (if (hashtable-contains? b ka)
-                                         (equal? va (hashtable-ref b ka))
-                                         #f)))
-                                 (iota ($vector-length kas))))
+                             (if (= (hashtable-size a) (hashtable-size b))
+                                 (let-values ([(kas vas) (hashtable-entries a)])
+                                   (andmap
+                                     (lambda (i)
+                                       (let-values ([(ka) ($vector-ref kas i)]
+                                                    [(va) ($vector-ref vas i)])
+                                         (if (hashtable-contains? b ka)
+                                             (equal? va (hashtable-ref b ka))
+                                             #f)))
+                                     (iota ($vector-length kas))))
+                                 #f)
                              #f)
                          #f))])
     (lambda (a b)
-- 
2.43.0


From b32481a5fa56694f089ac2e471c3b1ef862a7873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:41 +0000
Subject: [PATCH 14/17] fix: a derived record type inherits the writer of its
 parent

---
 src/core/s/prelude.min | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index eee8173..bda4154 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1319,7 +1319,7 @@
                   (record-type-hash-procedure rtd rec-hash)
                   (void))
               (if rec-writer
-                  (record-writer rec-writer)
+                  (record-writer rtd rec-writer)
                   (void)))
             (void))
         rtd))))
-- 
2.43.0


From e2156b9a7a1e52d4a27675553925feb50a12234b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:12 +0000
Subject: [PATCH 15/17] fix: default record equality and hash procedures can be
 set and read back

---
 src/core/s/prelude.min | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index bda4154..2c70ed8 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1728,7 +1728,7 @@
     [() ($default-record-equal-procedure)]
     [(proc)
      (if (procedure? proc)
-         ($default-record-equal-procedure proc)
+         ($default-record-equal-procedure-set! proc)
          (raise-argument-error 'default-record-equal-procedure
                                "procedure?"
                                proc))]))
@@ -1736,10 +1736,10 @@
 ; TODO: thread parameter
 (define-values (default-record-hash-procedure)
   (case-lambda
-    [() ($default-record-equal-procedure)]
+    [() ($default-record-hash-procedure)]
     [(proc)
      (if (procedure? proc)
-         ($default-record-hash-procedure proc)
+         ($default-record-hash-procedure-set! proc)
          (raise-argument-error 'default-record-hash-procedure
                                "procedure?"
                                proc))]))
-- 
2.43.0


From 72be28c9008d850a0cb1aff511a1b62038c04807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:28 +0000
Subject: [PATCH 16/17] fix: make-record-type-descriptor checks its arguments

---
 src/core/s/prelude.min | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 2c70ed8..6c9a95c 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1229,7 +1229,7 @@
                      (if (pair? field)
                          (let-values ([(type) ($car field)]
                                       [(rib) ($cdr field)])
-                            (if (if (eq? type 'immutable) #t (eq? type 'mutable))
+                            (if (if (if (eq? type 'immutable) #t (eq? type 'mutable)) (pair? rib) #f)
                                 (let-values ([(name) ($car rib)]
                                              [(rib) ($cdr rib)])
                                    (if (symbol? name)
@@ -1240,7 +1240,7 @@
                                 #f))
                          #f))]
                   [(check-args!)
-                   (lambda (name parent uid sealed? opaque?)
+                   (lambda (name parent uid sealed? opaque? fields)
                      (if (symbol? name)
                          (if (if (record-type-descriptor? parent)
                                  (begin
@@ -1304,10 +1304,10 @@
                                  (raise-argument-error
                                    'make-record-type-descriptor
                                    "invalid field; '(immutable <name>) or '(mutable <name>)"
-                                   field))))
+                                   ($vector-ref fields i)))))
                          (iota ($vector-length fields)))))])
     (lambda (name parent uid sealed? opaque? fields)
-      (let-values ([(rtd) ($make-record-type-descriptor name parent uid sealed? opaque? fields)])
+      (let-values ([(rtd) (check-args! name parent uid sealed? opaque? fields)])
         (if parent
             (let-values ([(rec-equal?) (record-type-equal-procedure parent)]
                          [(rec-hash) (record-type-hash-procedure parent)]
@@ -2434,7 +2434,7 @@
 
 ; base exception
 (define-values (&exn make-exn exn? exn-who exn-message)
-  (let-values ([(&exn) (make-record-type-descriptor '&exn #f #f #t #t #(who message))])
+  (let-values ([(&exn) (make-record-type-descriptor '&exn #f #f #f #t #((immutable who) (immutable message)))])
     (values &exn
             (record-constructor &exn)
             (record-predicate &exn)
@@ -2443,7 +2443,7 @@
 
 ; argument exception
 (define-values (&argument make-argument-exn argument-exn? argument-exn-expect argument-exn-actual)
-  (let-values ([(&argument) (make-record-type-descriptor '&argument-exn &exn #f #t #t #(expect actual))])
+  (let-values ([(&argument) (make-record-type-descriptor '&argument-exn &exn #f #t #t #((immutable expect) (immutable actual)))])
     (values &argument
             (record-constructor &argument)
             (record-predicate &argument)
@@ -2452,7 +2452,7 @@
 
 ; arity exception
 (define-values (&arity make-arity-exn arity-exn? arity-exn-expect arity-exn-actual)
-  (let-values ([(&arity) (make-record-type-descriptor '&arity-exn &exn #f #t #t #(expect actual))])
+  (let-values ([(&arity) (make-record-type-descriptor '&arity-exn &exn #f #t #t #((immutable expect) (immutable actual)))])
     (values &arity
             (record-constructor &arity)
             (record-predicate &arity)
@@ -2461,7 +2461,7 @@
 
 ; range exception
 (define-values (&range make-range-exn range-exn? range-exn-value range-exn-description range-exn-lower range-exn-upper range-exn-index)
-  (let-values ([(&range) (make-record-type-descriptor '&range-exn &exn #f #t #t #(value description lower upper index))])
+  (let-values ([(&range) (make-record-type-descriptor '&range-exn &exn #f #t #t #((immutable value) (immutable description) (immutable lower) (immutable upper) (immutable index)))])
     (values &range
             (record-constructor &range)
             (record-predicate &range)
@@ -2473,7 +2473,7 @@
 
 ; missing exception
 (define-values (&missing make-missing-exn missing-exn? missing-exn-description missing-exn-value missing-exn-key)
-  (let-values ([(&missing) (make-record-type-descriptor '&missing-exn &exn #f #t #t #(description value key))])
+  (let-values ([(&missing) (make-record-type-descriptor '&missing-exn &exn #f #t #t #((immutable description) (immutable value) (immutable key)))])
     (values &missing
             (record-constructor &missing)
             (record-predicate &missing)
@@ -2483,7 +2483,7 @@
 
 ; syntax exception
 (define-values (&syntax make-syntax-exn syntax-exn? syntax-exn-form syntax-exn-subform)
-  (let-values ([(&syntax) (make-record-type-descriptor '&syntax-exn &exn #f #t #t #(form subform))])
+  (let-values ([(&syntax) (make-record-type-descriptor '&syntax-exn &exn #f #t #t #((immutable form) (immutable subform)))])
     (values &syntax
             (record-constructor &syntax)
             (record-predicate &syntax)
-- 
2.43.0


From 575a6cbad8500bdc2e71416598c355c2775a3bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:07 +0000
Subject: [PATCH 17/17] fix: arity of case-lambda procedures

---
 src/core/c/jitcompile.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/core/c/jitcompile.c b/src/core/c/jitcompile.c
index 4f31bc8..5052bc5 100644
--- a/src/core/c/jitcompile.c
+++ b/src/core/c/jitcompile.c
@@ -35,7 +35,7 @@ static mobj update_arity(mobj arity, size_t req_arity, int restp) {
             if (restp) {
                 return Mcons(Mfixnum(req_arity), minim_false);
             } else {
-                return Mcons(Mfixnum(req_arity), arity);
+                return Mlist2(Mfixnum(req_arity), arity);
             }
         }
     } else {
@@ -43,6 +43,11 @@ static mobj update_arity(mobj arity, size_t req_arity, int restp) {
         if (req_arity > minim_fixnum(minim_car(arity))) {
             if (minim_falsep(minim_cdr(arity))) {
                 return arity;
+            } else if (minim_nullp(minim_cdr(arity))) {
+                return Mcons(
+                    minim_car(arity),
+                    Mcons(Mfixnum(req_arity), restp ? minim_false : minim_null)
+                );
             } else {
                 return Mcons(minim_car(arity), update_arity(minim_cdr(arity), req_arity, restp));
             }
@@ -54,7 +59,7 @@ static mobj update_arity(mobj arity, size_t req_arity, int restp) {
             }
         } else {
             if (restp) {
-                return Mcons(minim_car(arity), minim_false);
+                return Mcons(Mfixnum(req_arity), minim_false);
             } else {
                 return Mcons(Mfixnum(req_arity), arity);
             }
-- 
2.43.0

