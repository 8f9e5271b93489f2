From 89a152ce4323dbbbcc71f3191b0c94aa15aeeae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:46 +0000
Subject: [PATCH 01/84] fix: int_gcd returns a non-negative gcd when one
 argument is zero

---
 spffl/intmath/int_gcd.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spffl/intmath/int_gcd.cpp b/spffl/intmath/int_gcd.cpp
index 56017f8..e42643d 100644
--- a/spffl/intmath/int_gcd.cpp
+++ b/spffl/intmath/int_gcd.cpp
@@ -13,10 +13,10 @@ int int_gcd(int a, int b) {
   int r;
 
   if (a == 0) {
-    return b;
+    return (b < 0) ? -b : b;
   }
   if (b == 0) {
-    return a;
+    return (a < 0) ? -a : a;
   }
 
   if (a < 0) { // Breaks for most negative int (-2^63); I don't care.
-- 
2.43.0


From cc8050255bafda56717941fccb8ff5ba986a76ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:08 +0000
Subject: [PATCH 02/84] fix: int_ext_gcd handles a zero second argument instead
 of dividing by zero

---
 spffl/intmath/int_gcd.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/spffl/intmath/int_gcd.cpp b/spffl/intmath/int_gcd.cpp
index e42643d..6d4f900 100644
--- a/spffl/intmath/int_gcd.cpp
+++ b/spffl/intmath/int_gcd.cpp
@@ -51,6 +51,12 @@ int int_ext_gcd(int a, int b, int &m, int &n) {
   c      = a;
   d      = b;
 
+  if (b == 0) { // gcd(a, 0) = a = 1 * a + 0 * b.
+    m = 1;
+    n = 0;
+    return a;
+  }
+
   while (1) {
 
     // Divide
-- 
2.43.0


From 2490682d4d25fd2675397929005e64dd82d55bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:08 +0000
Subject: [PATCH 03/84] fix: int_lcm is non-negative, defined at zero, and free
 of intermediate overflow

---
 spffl/intmath/int_gcd.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/spffl/intmath/int_gcd.cpp b/spffl/intmath/int_gcd.cpp
index 6d4f900..81eae38 100644
--- a/spffl/intmath/int_gcd.cpp
+++ b/spffl/intmath/int_gcd.cpp
@@ -87,7 +87,13 @@ int int_ext_gcd(int a, int b, int &m, int &n) {
 }
 
 // ----------------------------------------------------------------
-int int_lcm(int a, int b) { return (a * b) / int_gcd(a, b); }
+int int_lcm(int a, int b) {
+  if (a == 0 || b == 0) {
+    return 0;
+  }
+  int rv = (a / int_gcd(a, b)) * b; // Divide first, to avoid overflow.
+  return (rv < 0) ? -rv : rv;
+}
 
 // ----------------------------------------------------------------
 int gcd(const int a, const int b) { return int_gcd(a, b); }
-- 
2.43.0


From 8016965fffcda986a411d1cc12dedbb061cc3487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:24 +0000
Subject: [PATCH 04/84] fix: intmod_t arithmetic no longer overflows int for
 large moduli or operands

---
 spffl/intmath/intmod_t.cpp | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/spffl/intmath/intmod_t.cpp b/spffl/intmath/intmod_t.cpp
index 4ca4b6c..8d5e213 100644
--- a/spffl/intmath/intmod_t.cpp
+++ b/spffl/intmath/intmod_t.cpp
@@ -52,10 +52,10 @@ intmod_t intmod_t::exp(int e) const {
 
   while (e != 0) {
     if (e & 1) {
-      rv.residue = (rv.residue * xp) % this->modulus;
+      rv.residue = (int)(((long long)rv.residue * xp) % this->modulus);
     }
     e  = (unsigned)e >> 1;
-    xp = (xp * xp) % this->modulus;
+    xp = (int)(((long long)xp * xp) % this->modulus);
   }
 
   return rv;
@@ -260,14 +260,16 @@ intmod_t &intmod_t::operator=(const intmod_t &that) {
 // ----------------------------------------------------------------
 intmod_t intmod_t::operator+(const intmod_t &that) const {
   this->check_moduli(that);
-  intmod_t rv(this->residue + that.residue, this->modulus);
+  intmod_t rv(
+      (int)(((long long)this->residue + that.residue) % this->modulus),
+      this->modulus);
   return rv;
 }
 
 // ----------------------------------------------------------------
 intmod_t intmod_t::operator-(const intmod_t &that) const {
   this->check_moduli(that);
-  intmod_t rv(this->modulus + this->residue - that.residue, this->modulus);
+  intmod_t rv(this->residue - that.residue, this->modulus);
   return rv;
 }
 
@@ -281,25 +283,33 @@ intmod_t intmod_t::operator-(void) const {
 // ----------------------------------------------------------------
 intmod_t intmod_t::operator*(const intmod_t &that) const {
   this->check_moduli(that);
-  intmod_t rv(this->residue * that.residue, this->modulus);
+  intmod_t rv(
+      (int)(((long long)this->residue * that.residue) % this->modulus),
+      this->modulus);
   return rv;
 }
 
 // ----------------------------------------------------------------
 intmod_t intmod_t::operator+(int a) const {
-  intmod_t rv(this->residue + a, this->modulus);
+  this->check_modulus();
+  intmod_t rv((int)(((long long)this->residue + a) % this->modulus),
+      this->modulus);
   return rv;
 }
 
 // ----------------------------------------------------------------
 intmod_t intmod_t::operator-(int a) const {
-  intmod_t rv(this->modulus + this->residue - a, this->modulus);
+  this->check_modulus();
+  intmod_t rv((int)(((long long)this->residue - a) % this->modulus),
+      this->modulus);
   return rv;
 }
 
 // ----------------------------------------------------------------
 intmod_t intmod_t::operator*(int a) const {
-  intmod_t rv(this->residue * a, this->modulus);
+  this->check_modulus();
+  intmod_t rv((int)(((long long)this->residue * a) % this->modulus),
+      this->modulus);
   return rv;
 }
 
@@ -354,7 +364,7 @@ bool intmod_t::recip(intmod_t &rinv) const {
   }
 
   intmod_t rv = this->exp(phi - 1);
-  int check   = (this->residue * rv.residue) % this->modulus;
+  int check   = (int)(((long long)this->residue * rv.residue) % this->modulus);
   if (check != 1) {
     return false;
   } else {
-- 
2.43.0


From 505ab90bf5e374f600bc07bd91af63bd0e7125a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:24 +0000
Subject: [PATCH 05/84] fix: reading a negative intmod_t yields a canonical
 residue

---
 spffl/intmath/intmod_t.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spffl/intmath/intmod_t.cpp b/spffl/intmath/intmod_t.cpp
index 8d5e213..4f8260a 100644
--- a/spffl/intmath/intmod_t.cpp
+++ b/spffl/intmath/intmod_t.cpp
@@ -88,6 +88,9 @@ std::istream &operator>>(std::istream &is, intmod_t &a) {
   a.check_modulus();
   is >> a.residue;
   a.residue %= a.modulus;
+  if (a.residue < 0) { // Wacky C mod operator.
+    a.residue += a.modulus;
+  }
   return is;
 }
 
-- 
2.43.0


From a403674e24f6e1078f3b8da66ce7b425d12a65e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:41 +0000
Subject: [PATCH 06/84] fix: rational arithmetic and comparison no longer
 overflow when the result is representable

---
 spffl/intmath/intrat_t.cpp | 64 +++++++++++++++++++++++---------------
 1 file changed, 39 insertions(+), 25 deletions(-)

diff --git a/spffl/intmath/intrat_t.cpp b/spffl/intmath/intrat_t.cpp
index 14bd838..58c4b92 100644
--- a/spffl/intmath/intrat_t.cpp
+++ b/spffl/intmath/intrat_t.cpp
@@ -62,26 +62,40 @@ intrat_t &intrat_t::operator=(int numerator) {
   return *this;
 }
 
+// ----------------------------------------------------------------
+// Lowest terms are found before narrowing to int, since the intermediate
+// products may be out of range even when the result is not.
+static intrat_t reduced(long long numer, long long denom) {
+  long long a = numer;
+  long long b = denom;
+  while (b != 0) {
+    long long r = a % b;
+    a           = b;
+    b           = r;
+  }
+  if (a != 0) {
+    numer /= a;
+    denom /= a;
+  }
+  return intrat_t((int)numer, (int)denom);
+}
+
 // ----------------------------------------------------------------
 //  a     c    ad + bc
 // --- + --- = -------
 //  b     d      bd
 
 intrat_t intrat_t::operator+(const intrat_t &that) const {
-  intrat_t rv;
-  rv.numer = this->numer * that.denom + this->denom * that.numer;
-  rv.denom = this->denom * that.denom;
-  rv.simplify();
-  return rv;
+  return reduced((long long)this->numer * that.denom +
+          (long long)this->denom * that.numer,
+      (long long)this->denom * that.denom);
 }
 
 // ----------------------------------------------------------------
 intrat_t intrat_t::operator-(const intrat_t &that) const {
-  intrat_t rv;
-  rv.numer = this->numer * that.denom - this->denom * that.numer;
-  rv.denom = this->denom * that.denom;
-  rv.simplify();
-  return rv;
+  return reduced((long long)this->numer * that.denom -
+          (long long)this->denom * that.numer,
+      (long long)this->denom * that.denom);
 }
 
 // ----------------------------------------------------------------
@@ -93,20 +107,14 @@ intrat_t intrat_t::operator-(void) const {
 
 // ----------------------------------------------------------------
 intrat_t intrat_t::operator*(const intrat_t &that) {
-  intrat_t rv;
-  rv.numer = this->numer * that.numer;
-  rv.denom = this->denom * that.denom;
-  rv.simplify();
-  return rv;
+  return reduced((long long)this->numer * that.numer,
+      (long long)this->denom * that.denom);
 }
 
 // ----------------------------------------------------------------
 intrat_t intrat_t::operator/(const intrat_t &that) {
-  intrat_t rv;
-  rv.numer = this->numer * that.denom;
-  rv.denom = this->denom * that.numer;
-  rv.simplify();
-  return rv;
+  return reduced((long long)this->numer * that.denom,
+      (long long)this->denom * that.numer);
 }
 
 // ----------------------------------------------------------------
@@ -156,7 +164,9 @@ intrat_t intrat_t::exp(int e) {
       rv *= xp;
     }
     e = (unsigned)e >> 1;
-    xp *= xp;
+    if (e != 0) { // The last square is not needed, and might overflow.
+      xp *= xp;
+    }
   }
 
   return rv;
@@ -304,22 +314,26 @@ bool intrat_t::operator!=(int that) const { return !(*this == that); }
 
 // ----------------------------------------------------------------
 bool intrat_t::operator<(const intrat_t &that) const {
-  return ((this->numer * that.denom) < (this->denom * that.numer));
+  return (((long long)this->numer * that.denom) <
+          ((long long)this->denom * that.numer));
 }
 
 // ----------------------------------------------------------------
 bool intrat_t::operator<=(const intrat_t &that) const {
-  return ((this->numer * that.denom) <= (this->denom * that.numer));
+  return (((long long)this->numer * that.denom) <=
+          ((long long)this->denom * that.numer));
 }
 
 // ----------------------------------------------------------------
 bool intrat_t::operator>(const intrat_t &that) const {
-  return ((this->numer * that.denom) > (this->denom * that.numer));
+  return (((long long)this->numer * that.denom) >
+          ((long long)this->denom * that.numer));
 }
 
 // ----------------------------------------------------------------
 bool intrat_t::operator>=(const intrat_t &that) const {
-  return ((this->numer * that.denom) >= (this->denom * that.numer));
+  return (((long long)this->numer * that.denom) >=
+          ((long long)this->denom * that.numer));
 }
 
 // ----------------------------------------------------------------
-- 
2.43.0


From 9544b2b563cf3d869482a50a69b2c7654551a404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:03 +0000
Subject: [PATCH 07/84] fix: polynomial ext_gcd handles a zero second argument
 instead of dividing by zero

---
 spffl/polynomials/f2n_poly_t.cpp | 7 +++++++
 spffl/polynomials/fp_poly_t.cpp  | 7 +++++++
 spffl/polynomials/fpn_poly_t.cpp | 7 +++++++
 spffl/polynomials/q_poly_t.cpp   | 7 +++++++
 4 files changed, 28 insertions(+)

diff --git a/spffl/polynomials/f2n_poly_t.cpp b/spffl/polynomials/f2n_poly_t.cpp
index f4bf107..0f627e9 100644
--- a/spffl/polynomials/f2n_poly_t.cpp
+++ b/spffl/polynomials/f2n_poly_t.cpp
@@ -459,6 +459,13 @@ f2n_poly_t f2n_poly_t::ext_gcd(
   rn     = this->prime_subfield_element(1);
   rm     = this->prime_subfield_element(0);
   nprime = this->prime_subfield_element(0);
+
+  if (that == 0) {
+    rm = this->prime_subfield_element(1);
+    rn = this->prime_subfield_element(0);
+    return *this;
+  }
+
   c      = *this;
   d      = that;
 
diff --git a/spffl/polynomials/fp_poly_t.cpp b/spffl/polynomials/fp_poly_t.cpp
index 2225c4e..81ea3e9 100644
--- a/spffl/polynomials/fp_poly_t.cpp
+++ b/spffl/polynomials/fp_poly_t.cpp
@@ -449,6 +449,13 @@ fp_poly_t fp_poly_t::ext_gcd(
   rn     = this->prime_subfield_element(1);
   rm     = this->prime_subfield_element(0);
   nprime = this->prime_subfield_element(0);
+
+  if (that == 0) {
+    rm = this->prime_subfield_element(1);
+    rn = this->prime_subfield_element(0);
+    return *this;
+  }
+
   c      = *this;
   d      = that;
 
diff --git a/spffl/polynomials/fpn_poly_t.cpp b/spffl/polynomials/fpn_poly_t.cpp
index 968c3db..9742669 100644
--- a/spffl/polynomials/fpn_poly_t.cpp
+++ b/spffl/polynomials/fpn_poly_t.cpp
@@ -429,6 +429,13 @@ fpn_poly_t fpn_poly_t::ext_gcd(
   rn     = this->prime_subfield_element(1);
   rm     = this->prime_subfield_element(0);
   nprime = this->prime_subfield_element(0);
+
+  if (that == 0) {
+    rm = this->prime_subfield_element(1);
+    rn = this->prime_subfield_element(0);
+    return *this;
+  }
+
   c      = *this;
   d      = that;
 
diff --git a/spffl/polynomials/q_poly_t.cpp b/spffl/polynomials/q_poly_t.cpp
index c39c7b8..eea0c8d 100644
--- a/spffl/polynomials/q_poly_t.cpp
+++ b/spffl/polynomials/q_poly_t.cpp
@@ -395,6 +395,13 @@ q_poly_t q_poly_t::ext_gcd(
   rn     = q_poly_t(1);
   rm     = q_poly_t(0);
   nprime = q_poly_t(0);
+
+  if (that == 0) {
+    rm = q_poly_t(1);
+    rn = q_poly_t(0);
+    return *this;
+  }
+
   c      = *this;
   d      = that;
 
-- 
2.43.0


From 242f80577efd382da2cf57f3b65a491565645d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:03 +0000
Subject: [PATCH 08/84] fix: polynomial unary minus keeps the degree instead of
 overrunning a one-element array

---
 spffl/polynomials/f2n_poly_t.cpp | 5 ++---
 spffl/polynomials/fp_poly_t.cpp  | 5 ++---
 spffl/polynomials/fpn_poly_t.cpp | 5 ++---
 spffl/polynomials/q_poly_t.cpp   | 5 ++---
 4 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/spffl/polynomials/f2n_poly_t.cpp b/spffl/polynomials/f2n_poly_t.cpp
index 0f627e9..bdb1f17 100644
--- a/spffl/polynomials/f2n_poly_t.cpp
+++ b/spffl/polynomials/f2n_poly_t.cpp
@@ -221,9 +221,8 @@ f2n_poly_t f2n_poly_t::operator-(const f2_polymod_t &a) const {
 
 // ----------------------------------------------------------------
 f2n_poly_t f2n_poly_t::operator-(void) const {
-  f2n_poly_t rv;
-  rv.coeffs = new f2_polymod_t[rv.degree + 1];
-  for (int i = 0; i <= this->degree; i++) {
+  f2n_poly_t rv(*this);
+  for (int i = 0; i <= rv.degree; i++) {
     rv.coeffs[i] = -this->coeffs[i];
   }
   return rv;
diff --git a/spffl/polynomials/fp_poly_t.cpp b/spffl/polynomials/fp_poly_t.cpp
index 81ea3e9..56e8956 100644
--- a/spffl/polynomials/fp_poly_t.cpp
+++ b/spffl/polynomials/fp_poly_t.cpp
@@ -195,9 +195,8 @@ fp_poly_t fp_poly_t::operator-(const fp_poly_t &that) const {
 
 // ----------------------------------------------------------------
 fp_poly_t fp_poly_t::operator-(void) const {
-  fp_poly_t rv;
-  rv.coeffs = new spffl::intmath::intmod_t[rv.degree + 1];
-  for (int i = 0; i <= this->degree; i++) {
+  fp_poly_t rv(*this);
+  for (int i = 0; i <= rv.degree; i++) {
     rv.coeffs[i] = -this->coeffs[i];
   }
   return rv;
diff --git a/spffl/polynomials/fpn_poly_t.cpp b/spffl/polynomials/fpn_poly_t.cpp
index 9742669..49d209f 100644
--- a/spffl/polynomials/fpn_poly_t.cpp
+++ b/spffl/polynomials/fpn_poly_t.cpp
@@ -165,9 +165,8 @@ fpn_poly_t fpn_poly_t::operator-(const fpn_poly_t &that) const {
 
 // ----------------------------------------------------------------
 fpn_poly_t fpn_poly_t::operator-(void) const {
-  fpn_poly_t rv;
-  rv.coeffs = new fp_polymod_t[rv.degree + 1];
-  for (int i = 0; i <= this->degree; i++) {
+  fpn_poly_t rv(*this);
+  for (int i = 0; i <= rv.degree; i++) {
     rv.coeffs[i] = -this->coeffs[i];
   }
   return rv;
diff --git a/spffl/polynomials/q_poly_t.cpp b/spffl/polynomials/q_poly_t.cpp
index eea0c8d..007a359 100644
--- a/spffl/polynomials/q_poly_t.cpp
+++ b/spffl/polynomials/q_poly_t.cpp
@@ -164,9 +164,8 @@ q_poly_t q_poly_t::operator-(const spffl::intmath::intrat_t &a) const {
 
 // ----------------------------------------------------------------
 q_poly_t q_poly_t::operator-(void) const {
-  q_poly_t rv;
-  rv.coeffs = new spffl::intmath::intrat_t[rv.degree + 1];
-  for (int i = 0; i <= this->degree; i++) {
+  q_poly_t rv(*this);
+  for (int i = 0; i <= rv.degree; i++) {
     rv.coeffs[i] = -this->coeffs[i];
   }
   return rv;
-- 
2.43.0


From 3903e1ac5eeb959e42539bedc842f5cf3a69fdf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:03 +0000
Subject: [PATCH 09/84] fix: polynomial self-assignment no longer reads freed
 coefficients

---
 spffl/polynomials/f2n_poly_t.cpp | 3 +++
 spffl/polynomials/fp_poly_t.cpp  | 3 +++
 spffl/polynomials/fpn_poly_t.cpp | 3 +++
 spffl/polynomials/q_poly_t.cpp   | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/spffl/polynomials/f2n_poly_t.cpp b/spffl/polynomials/f2n_poly_t.cpp
index bdb1f17..ae1b2ea 100644
--- a/spffl/polynomials/f2n_poly_t.cpp
+++ b/spffl/polynomials/f2n_poly_t.cpp
@@ -136,6 +136,9 @@ int f2n_poly_t::get_characteristic(void) const { return 2; }
 
 // ----------------------------------------------------------------
 f2n_poly_t &f2n_poly_t::operator=(const f2n_poly_t &that) {
+  if (this == &that) {
+    return *this;
+  }
   if (this->coeffs) {
     delete[] this->coeffs;
   }
diff --git a/spffl/polynomials/fp_poly_t.cpp b/spffl/polynomials/fp_poly_t.cpp
index 56e8956..51e7751 100644
--- a/spffl/polynomials/fp_poly_t.cpp
+++ b/spffl/polynomials/fp_poly_t.cpp
@@ -126,6 +126,9 @@ int fp_poly_t::get_characteristic(void) const {
 
 // ----------------------------------------------------------------
 fp_poly_t &fp_poly_t::operator=(const fp_poly_t &that) {
+  if (this == &that) {
+    return *this;
+  }
   if (this->coeffs) {
     delete[] this->coeffs;
   }
diff --git a/spffl/polynomials/fpn_poly_t.cpp b/spffl/polynomials/fpn_poly_t.cpp
index 49d209f..c8b1429 100644
--- a/spffl/polynomials/fpn_poly_t.cpp
+++ b/spffl/polynomials/fpn_poly_t.cpp
@@ -96,6 +96,9 @@ int fpn_poly_t::get_characteristic(void) const {
 
 // ----------------------------------------------------------------
 fpn_poly_t &fpn_poly_t::operator=(const fpn_poly_t &that) {
+  if (this == &that) {
+    return *this;
+  }
   if (this->coeffs) {
     delete[] this->coeffs;
   }
diff --git a/spffl/polynomials/q_poly_t.cpp b/spffl/polynomials/q_poly_t.cpp
index 007a359..068b786 100644
--- a/spffl/polynomials/q_poly_t.cpp
+++ b/spffl/polynomials/q_poly_t.cpp
@@ -79,6 +79,9 @@ q_poly_t::~q_poly_t(void) {
 
 // ----------------------------------------------------------------
 q_poly_t &q_poly_t::operator=(const q_poly_t &that) {
+  if (this == &that) {
+    return *this;
+  }
   if (this->coeffs) {
     delete[] this->coeffs;
   }
-- 
2.43.0


From 8e97196e7a623c45ce8eab9e6726b169eb48cd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:03 +0000
Subject: [PATCH 10/84] fix: promoting the zero polynomial leaves it with
 degree zero

---
 spffl/polynomials/f2n_poly_t.cpp | 1 +
 spffl/polynomials/fp_poly_t.cpp  | 1 +
 spffl/polynomials/fpn_poly_t.cpp | 1 +
 spffl/polynomials/q_poly_t.cpp   | 1 +
 4 files changed, 4 insertions(+)

diff --git a/spffl/polynomials/f2n_poly_t.cpp b/spffl/polynomials/f2n_poly_t.cpp
index ae1b2ea..2fce7c5 100644
--- a/spffl/polynomials/f2n_poly_t.cpp
+++ b/spffl/polynomials/f2n_poly_t.cpp
@@ -952,6 +952,7 @@ void f2n_poly_t::promote(void) {
   this->coeffs[0] = this->coeffs[1] - this->coeffs[1];
   this->degree++;
   delete[] ocoeffs;
+  this->recompute_degree();
 }
 
 // ----------------------------------------------------------------
diff --git a/spffl/polynomials/fp_poly_t.cpp b/spffl/polynomials/fp_poly_t.cpp
index 51e7751..f0bf257 100644
--- a/spffl/polynomials/fp_poly_t.cpp
+++ b/spffl/polynomials/fp_poly_t.cpp
@@ -910,6 +910,7 @@ void fp_poly_t::promote(void) {
   this->coeffs[0] = this->coeffs[1] - this->coeffs[1];
   this->degree++;
   delete[] ocoeffs;
+  this->recompute_degree();
 }
 
 // ----------------------------------------------------------------
diff --git a/spffl/polynomials/fpn_poly_t.cpp b/spffl/polynomials/fpn_poly_t.cpp
index c8b1429..8e3c600 100644
--- a/spffl/polynomials/fpn_poly_t.cpp
+++ b/spffl/polynomials/fpn_poly_t.cpp
@@ -865,6 +865,7 @@ void fpn_poly_t::promote(void) {
   this->coeffs[0] = this->coeffs[1] - this->coeffs[1];
   this->degree++;
   delete[] ocoeffs;
+  this->recompute_degree();
 }
 
 // ----------------------------------------------------------------
diff --git a/spffl/polynomials/q_poly_t.cpp b/spffl/polynomials/q_poly_t.cpp
index 068b786..675a400 100644
--- a/spffl/polynomials/q_poly_t.cpp
+++ b/spffl/polynomials/q_poly_t.cpp
@@ -801,6 +801,7 @@ void q_poly_t::promote(void) {
   this->coeffs[0] = this->coeffs[1] - this->coeffs[1];
   this->degree++;
   delete[] ocoeffs;
+  this->recompute_degree();
 }
 
 // ----------------------------------------------------------------
-- 
2.43.0


From 2c665397daebe0ef71c911b7b3a9cd6396e2ff63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:03 +0000
Subject: [PATCH 11/84] fix: multiplying an fp_polymod_t by an intmod_t scales
 the residue, not the modulus

---
 spffl/polynomials/fp_polymod_t.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spffl/polynomials/fp_polymod_t.cpp b/spffl/polynomials/fp_polymod_t.cpp
index eb90b3f..dde7ff5 100644
--- a/spffl/polynomials/fp_polymod_t.cpp
+++ b/spffl/polynomials/fp_polymod_t.cpp
@@ -109,7 +109,7 @@ fp_polymod_t fp_polymod_t::operator*(int a) const {
 // ----------------------------------------------------------------
 fp_polymod_t fp_polymod_t::operator*(spffl::intmath::intmod_t a) const {
   fp_polymod_t rv(*this);
-  rv.modulus *= a;
+  rv.residue *= a;
   return rv;
 }
 
-- 
2.43.0


From 5d488dc06240dde804f92298a12ab97eb16f37b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:01 +0000
Subject: [PATCH 12/84] fix: fpn_poly_t::pth_root takes p-th roots of the
 coefficients and no longer divides by a null modulus

---
 spffl/polynomials/fpn_poly_t.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/spffl/polynomials/fpn_poly_t.cpp b/spffl/polynomials/fpn_poly_t.cpp
index 8e3c600..0afaf8e 100644
--- a/spffl/polynomials/fpn_poly_t.cpp
+++ b/spffl/polynomials/fpn_poly_t.cpp
@@ -522,22 +522,28 @@ fpn_poly_t fpn_poly_t::deriv(void) const {
 }
 
 // ----------------------------------------------------------------
-// Relies on the fact that f(x^p) = f^p(x) in Fp[x].
+// Relies on the fact that the pth-power map is an automorphism of Fp^n.
 
 bool fpn_poly_t::pth_root(fpn_poly_t &rroot) const {
   fp_poly_t m       = this->coeffs[0].get_modulus();
   fp_polymod_t zero = this->coeffs[0].prime_subfield_element(0);
   int si, di, j;
-  fpn_poly_t out;
+  fpn_poly_t out(*this);
   int p = this->get_characteristic();
+  int n = m.find_degree();
 
-  out.set_coeff(this->degree, zero);
-  for (di = this->degree - 1; di >= 0; di--) {
+  for (di = this->degree; di >= 0; di--) {
     out.coeffs[di] = zero;
   }
 
   for (si = 0, di = 0; si <= this->degree; si += p, di++) {
+    // The pth root of a coefficient a is a^{p^{n-1}}.
     out.coeffs[di] = this->coeffs[si];
+    if (out.coeffs[di] != zero) {
+      for (j = 1; j < n; j++) {
+        out.coeffs[di] = out.coeffs[di].exp(p);
+      }
+    }
     for (j = 1; j < p; j++) {
       if (si + j > this->degree) {
         break;
-- 
2.43.0


From be37a428752a0ae38468b002a5ab61590a69de6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:01 +0000
Subject: [PATCH 13/84] fix: f2n_poly_t::square_root no longer overflows its
 exponent for fields of 2^32 elements and up

---
 spffl/polynomials/f2n_poly_t.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/spffl/polynomials/f2n_poly_t.cpp b/spffl/polynomials/f2n_poly_t.cpp
index 2fce7c5..3de5a5d 100644
--- a/spffl/polynomials/f2n_poly_t.cpp
+++ b/spffl/polynomials/f2n_poly_t.cpp
@@ -568,8 +568,7 @@ bool f2n_poly_t::square_root(f2n_poly_t &rroot) const {
   f2_polymod_t zero(0, m);
   int si, di;
   f2n_poly_t out;
-  int n   = m.find_degree();
-  int pow = 1 << (n - 1);
+  int n = m.find_degree();
 
   out.set_coeff(this->degree, zero);
   for (di = this->degree - 1; di >= 0; di--) {
@@ -577,7 +576,10 @@ bool f2n_poly_t::square_root(f2n_poly_t &rroot) const {
   }
 
   for (si = 0, di = 0; si <= this->degree; si += 2, di++) {
-    out.coeffs[di] = this->coeffs[si].exp(pow);
+    out.coeffs[di] = this->coeffs[si];
+    for (int i = 1; i < n; i++) {
+      out.coeffs[di] *= out.coeffs[di];
+    }
     if (si + 1 > this->degree) {
       break;
     }
-- 
2.43.0


From 82f45c5ade5b33d06105f745cfd83cac3e5f7466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:28 +0000
Subject: [PATCH 14/84] fix: f2_poly_t::set_coeff works above bit 30 of each
 word

---
 spffl/polynomials/f2_poly_t.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spffl/polynomials/f2_poly_t.cpp b/spffl/polynomials/f2_poly_t.cpp
index f428664..22f282a 100644
--- a/spffl/polynomials/f2_poly_t.cpp
+++ b/spffl/polynomials/f2_poly_t.cpp
@@ -778,9 +778,9 @@ void f2_poly_t::set_coeff(int pos, spffl::bits::bit_t b) {
   }
   this->check_neg_pos(pos);
   if (b.get_residue()) {
-    this->parts[which_part] |= (1 << which_bit);
+    this->parts[which_part] |= (F2_POLY_LSB << which_bit);
   } else {
-    this->parts[which_part] &= ~(1 << which_bit);
+    this->parts[which_part] &= ~(F2_POLY_LSB << which_bit);
     this->trim_parts();
   }
 }
-- 
2.43.0


From 09e7d776ada77d18c9a01705b55899027d610dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:28 +0000
Subject: [PATCH 15/84] fix: f2_poly_t rejects negative positions before
 touching its storage

---
 spffl/polynomials/f2_poly_t.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spffl/polynomials/f2_poly_t.cpp b/spffl/polynomials/f2_poly_t.cpp
index 22f282a..2f132bc 100644
--- a/spffl/polynomials/f2_poly_t.cpp
+++ b/spffl/polynomials/f2_poly_t.cpp
@@ -733,12 +733,12 @@ void f2_poly_t::_demote_1(void) {
 
 // ----------------------------------------------------------------
 int f2_poly_t::bit_at(int pos) const {
+  this->check_neg_pos(pos);
   int which_part = pos >> F2_POLY_PART_LOG;
   int which_bit  = pos & F2_POLY_PART_MASK;
   if (which_part >= this->parts.size()) {
     return 0;
   }
-  this->check_neg_pos(pos);
   return (this->parts[which_part] >> which_bit) & F2_POLY_LSB;
 }
 
@@ -758,15 +758,16 @@ void f2_poly_t::dprint(std::ostream &os, int reqdeg) const {
 
 // ----------------------------------------------------------------
 void f2_poly_t::set_bit(int pos) {
+  this->check_neg_pos(pos);
   int which_part = pos >> F2_POLY_PART_LOG;
   int which_bit  = pos & F2_POLY_PART_MASK;
   if (which_part >= this->parts.size()) {
     this->extend_parts(which_part + 1);
   }
-  this->check_neg_pos(pos);
   this->parts[which_part] |= (F2_POLY_LSB << which_bit);
 }
 void f2_poly_t::set_coeff(int pos, spffl::bits::bit_t b) {
+  this->check_neg_pos(pos);
   int which_part = pos >> F2_POLY_PART_LOG;
   int which_bit  = pos & F2_POLY_PART_MASK;
   if (which_part >= this->parts.size()) {
@@ -776,7 +777,6 @@ void f2_poly_t::set_coeff(int pos, spffl::bits::bit_t b) {
       return;
     }
   }
-  this->check_neg_pos(pos);
   if (b.get_residue()) {
     this->parts[which_part] |= (F2_POLY_LSB << which_bit);
   } else {
-- 
2.43.0


From 84dcc070f8d764a240571aae87e222550e3202b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:36 +0000
Subject: [PATCH 16/84] fix: reducing a rational polynomial starts from zero of
 the target field

---
 spffl/q_cyclotomic/qff.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spffl/q_cyclotomic/qff.cpp b/spffl/q_cyclotomic/qff.cpp
index 8640ca5..cdf0897 100644
--- a/spffl/q_cyclotomic/qff.cpp
+++ b/spffl/q_cyclotomic/qff.cpp
@@ -32,7 +32,7 @@ spffl::polynomials::f2_poly_t f2_poly_from_q_poly(
 // ----------------------------------------------------------------
 spffl::polynomials::fp_poly_t fp_poly_from_qpoly(
     const spffl::polynomials::q_poly_t &q, int p) {
-  spffl::polynomials::fp_poly_t rv;
+  spffl::polynomials::fp_poly_t rv(spffl::intmath::intmod_t(0, p));
   int d = q.find_degree();
   for (int i = d; i >= 0; i--) {
     rv.set_coeff(i, intmod_from_rat(q.get_coeff(i), p));
@@ -44,7 +44,8 @@ spffl::polynomials::fp_poly_t fp_poly_from_qpoly(
 spffl::polynomials::f2n_poly_t f2n_poly_from_qpoly(
     const spffl::polynomials::q_poly_t &q,
     const spffl::polynomials::f2_poly_t &im) {
-  spffl::polynomials::f2n_poly_t rv;
+  spffl::polynomials::f2n_poly_t rv(
+      spffl::polynomials::f2_polymod_t::prime_subfield_element(0, im));
   int d = q.find_degree();
   for (int i = d; i >= 0; i--) {
     // xxx unimpl
-- 
2.43.0


From ccd885a77d77c3f125c4858029c408918b76c8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:18 +0000
Subject: [PATCH 17/84] fix: multiplying a polynomial residue by a negative
 integer

---
 spffl/polynomials/fp_polymod_t.cpp  | 3 +++
 spffl/polynomials/fpn_polymod_t.cpp | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/spffl/polynomials/fp_polymod_t.cpp b/spffl/polynomials/fp_polymod_t.cpp
index dde7ff5..a3bc342 100644
--- a/spffl/polynomials/fp_polymod_t.cpp
+++ b/spffl/polynomials/fp_polymod_t.cpp
@@ -96,6 +96,9 @@ fp_polymod_t fp_polymod_t::operator*(int a) const {
   fp_polymod_t rv(*this);
   int p = this->get_characteristic();
   a %= p;
+  if (a < 0) {
+    a += p;
+  }
   if (a == 0) {
     rv = rv - rv;
   } else {
diff --git a/spffl/polynomials/fpn_polymod_t.cpp b/spffl/polynomials/fpn_polymod_t.cpp
index cac4515..d101b4a 100644
--- a/spffl/polynomials/fpn_polymod_t.cpp
+++ b/spffl/polynomials/fpn_polymod_t.cpp
@@ -95,8 +95,12 @@ fpn_polymod_t fpn_polymod_t::operator*(const fpn_polymod_t &that) const {
 
 // ----------------------------------------------------------------
 fpn_polymod_t fpn_polymod_t::operator*(int a) const {
-  // xxx get the characteristic and reduce a mod that.
   fpn_polymod_t rv = *this - *this;
+  int p            = this->get_characteristic();
+  a %= p;
+  if (a < 0) {
+    a += p;
+  }
   for (int i = 0; i < a; i++) {
     rv += *this;
   }
-- 
2.43.0


From b4acbd6181a1e258047d3680aadeb03daa68652b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:18 +0000
Subject: [PATCH 18/84] fix: f2n_poly_t::prime_subfield_element embeds integers
 modulo 2

---
 spffl/polynomials/f2n_poly_t.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spffl/polynomials/f2n_poly_t.cpp b/spffl/polynomials/f2n_poly_t.cpp
index 3de5a5d..0d454d6 100644
--- a/spffl/polynomials/f2n_poly_t.cpp
+++ b/spffl/polynomials/f2n_poly_t.cpp
@@ -128,7 +128,7 @@ f2n_poly_t f2n_poly_t::prime_subfield_element(int v) const {
 // This is a static method.
 
 f2n_poly_t f2n_poly_t::prime_subfield_element(int v, const f2_poly_t &m) {
-  return f2n_poly_t(f2_polymod_t(f2_poly_t(v), m));
+  return f2n_poly_t(f2_polymod_t(f2_poly_t(v & 1), m));
 }
 
 // ----------------------------------------------------------------
-- 
2.43.0


From 483fd594dde79c549d3c949113cb84e1c4b9fbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:19 +0000
Subject: [PATCH 19/84] fix: negated rational functions are kept in canonical
 form

---
 spffl/rationals/fp_polyrat_t.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spffl/rationals/fp_polyrat_t.cpp b/spffl/rationals/fp_polyrat_t.cpp
index 7878e52..1e1dc75 100644
--- a/spffl/rationals/fp_polyrat_t.cpp
+++ b/spffl/rationals/fp_polyrat_t.cpp
@@ -99,6 +99,7 @@ fp_polyrat_t fp_polyrat_t::operator-(void) const {
   fp_polyrat_t rv;
   rv.numer = -this->numer;
   rv.denom = this->denom;
+  rv.simplify();
   return rv;
 }
 
-- 
2.43.0


From bb9cfca8084ebf55484af06471b8570fd02e7eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:14 +0000
Subject: [PATCH 20/84] fix: generator search skips zero divisors of reducible
 moduli

---
 spffl/units/f2_polymod_units.cpp  | 11 +++++++----
 spffl/units/f2n_polymod_units.cpp | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/spffl/units/f2_polymod_units.cpp b/spffl/units/f2_polymod_units.cpp
index a7ffc99..7e640c5 100644
--- a/spffl/units/f2_polymod_units.cpp
+++ b/spffl/units/f2_polymod_units.cpp
@@ -72,10 +72,13 @@ bool f2_polymod_find_generator(
   int phi = spffl::factorization::f2_poly_totient(m);
 
   while (gres.find_degree() < mdeg) {
-    spffl::polynomials::f2_polymod_t g(gres, m);
-    if (f2_polymod_order(g) == phi) {
-      rg = g;
-      return true;
+    // Skip zero divisors, which have no order, when m is reducible.
+    if (gres.gcd(m).find_degree() == 0) {
+      spffl::polynomials::f2_polymod_t g(gres, m);
+      if (f2_polymod_order(g) == phi) {
+        rg = g;
+        return true;
+      }
     }
     gres.increment();
   }
diff --git a/spffl/units/f2n_polymod_units.cpp b/spffl/units/f2n_polymod_units.cpp
index a48abaf..67de5de 100644
--- a/spffl/units/f2n_polymod_units.cpp
+++ b/spffl/units/f2n_polymod_units.cpp
@@ -73,10 +73,13 @@ bool f2n_polymod_find_generator(const spffl::polynomials::f2n_poly_t &m,
   int phi = spffl::factorization::f2n_poly_totient(m);
 
   while (gres.find_degree() < mdeg) {
-    spffl::polynomials::f2n_polymod_t g(gres, m);
-    if (f2n_polymod_order(g) == phi) {
-      rg = g;
-      return true;
+    // Skip zero divisors, which have no order, when m is reducible.
+    if (gres.gcd(m).find_degree() == 0) {
+      spffl::polynomials::f2n_polymod_t g(gres, m);
+      if (f2n_polymod_order(g) == phi) {
+        rg = g;
+        return true;
+      }
     }
     gres.increment();
   }
-- 
2.43.0


From 98c929b7063eada8381d1444889cad9fe2e84779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:14 +0000
Subject: [PATCH 21/84] fix: f2n_polymod_log searches the whole group and
 prints no traces

---
 spffl/units/f2n_polymod_units.cpp | 24 +++---------------------
 1 file changed, 3 insertions(+), 21 deletions(-)

diff --git a/spffl/units/f2n_polymod_units.cpp b/spffl/units/f2n_polymod_units.cpp
index 67de5de..fd3ea33 100644
--- a/spffl/units/f2n_polymod_units.cpp
+++ b/spffl/units/f2n_polymod_units.cpp
@@ -121,16 +121,11 @@ static int poly_and_index_qcmp(const void *pv1, const void *pv2) {
 int f2n_polymod_log( // Log base g of a.
     const spffl::polynomials::f2n_polymod_t &g,
     const spffl::polynomials::f2n_polymod_t &a) {
-  std::cout << "\n";
-  std::cout << "g = " << g << "\n";
-  std::cout << "a = " << a << "\n";
   int rv                           = -1;
   spffl::polynomials::f2n_poly_t m = g.get_modulus();
-  std::cout << "m = " << m << "\n";
-  int n = 1 << m.find_degree();
-  std::cout << "n = " << n << "\n";
-  unsigned k = (unsigned)spffl::intmath::int_sqrt_ceil(n);
-  std::cout << "k = " << k << "\n";
+  int n                            = 1
+          << (m.find_degree() * m.get_coeff(0).get_modulus().find_degree());
+  unsigned k                       = (unsigned)spffl::intmath::int_sqrt_ceil(n);
 
   // xxx check gcd(g, m)
   // xxx check gcd(g, a)
@@ -145,9 +140,7 @@ int f2n_polymod_log( // Log base g of a.
        << " is a zero divisor.\n";
     throw spffl::exception_t(ss.str());
   }
-  std::cout << "gi = " << ginv << "\n";
   spffl::polynomials::f2n_polymod_t gk = g.exp(k);
-  std::cout << "gk = " << gk << "\n";
   unsigned i, j;
 
   agni[0].elt = a;
@@ -155,32 +148,21 @@ int f2n_polymod_log( // Log base g of a.
   gkj[0].elt  = g / g;
   gkj[0].idx  = 0;
 
-  std::cout << "agni[" << 0 << "] = " << agni[0].elt << "\n";
   for (i = 1; i < k; i++) {
     agni[i].elt = agni[i - 1].elt * ginv;
     agni[i].idx = i;
-    std::cout << "agni[" << i << "] = " << agni[i].elt << "\n";
   }
-  std::cout << "gk[" << 0 << "]  = " << gkj[0].elt << "\n";
   for (j = 1; j < k; j++) {
     gkj[j].elt = gkj[j - 1].elt * gk;
     gkj[j].idx = j;
-    std::cout << "gk[" << j << "]  = " << gkj[j].elt << "\n";
   }
 
   qsort(agni, k, sizeof(poly_and_index_t), poly_and_index_qcmp);
   qsort(gkj, k, sizeof(poly_and_index_t), poly_and_index_qcmp);
-  for (j = 0; j < k; j++) {
-    std::cout << "-- agni[" << j << "] = " << agni[j].elt << " gk[" << j
-              << "] = " << gkj[j].elt << "\n";
-  }
 
   for (i = 0, j = 0; i < k && j < k;) {
-    std::cout << "agni[" << i << "] = " << agni[i].elt << " gk[" << j
-              << "] = " << gkj[j].elt << "\n";
     if (agni[i].elt == gkj[j].elt) {
       // xxx could overflow 32-bit int; fix me.
-      std::cout << "found at i=" << i << " j=" << j << "\n";
       rv = agni[i].idx + gkj[j].idx * k;
       break;
     } else if (agni[i].elt < gkj[j].elt) {
-- 
2.43.0


From aa77c44d9382877bac0c65f077a181eeb0e83aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:14 +0000
Subject: [PATCH 22/84] fix: polynomial-residue logarithms are reduced modulo
 the group order, as fp_log does

---
 spffl/units/f2_polymod_units.cpp  | 2 +-
 spffl/units/f2n_polymod_units.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spffl/units/f2_polymod_units.cpp b/spffl/units/f2_polymod_units.cpp
index 7e640c5..29f8f5f 100644
--- a/spffl/units/f2_polymod_units.cpp
+++ b/spffl/units/f2_polymod_units.cpp
@@ -284,7 +284,7 @@ int f2_polymod_log( // Log base g of a.
 
   delete[] agni;
   delete[] gkj;
-  return rv;
+  return rv % spffl::factorization::f2_poly_totient(m);
 }
 
 } // namespace spffl::units
diff --git a/spffl/units/f2n_polymod_units.cpp b/spffl/units/f2n_polymod_units.cpp
index fd3ea33..de6ee09 100644
--- a/spffl/units/f2n_polymod_units.cpp
+++ b/spffl/units/f2n_polymod_units.cpp
@@ -181,7 +181,7 @@ int f2n_polymod_log( // Log base g of a.
 
   delete[] agni;
   delete[] gkj;
-  return rv;
+  return rv % spffl::factorization::f2n_poly_totient(m);
 }
 
 } // namespace spffl::units
-- 
2.43.0


From d172a1b1f9bbf113ab199702104aaf87b6f29457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:13 +0000
Subject: [PATCH 23/84] fix: assigning a longer bit vector overran the old
 storage

---
 spffl/bits/bit_vector_t.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/spffl/bits/bit_vector_t.cpp b/spffl/bits/bit_vector_t.cpp
index 42d568d..93a84d0 100644
--- a/spffl/bits/bit_vector_t.cpp
+++ b/spffl/bits/bit_vector_t.cpp
@@ -98,14 +98,17 @@ bit_vector_t::~bit_vector_t(void) {
 
 // ----------------------------------------------------------------
 bit_vector_t &bit_vector_t::operator=(const bit_vector_t &that) {
-  this->num_bits  = that.num_bits;
-  this->num_words = that.num_words;
+  if (this == &that) {
+    return *this;
+  }
   if (this->words == 0) {
     this->words = new uint64_t[that.num_words];
   } else if (this->num_words < that.num_words) {
     delete[] this->words;
     this->words = new uint64_t[that.num_words];
   }
+  this->num_bits  = that.num_bits;
+  this->num_words = that.num_words;
   memcpy(this->words, that.words, that.num_words * sizeof(uint64_t));
   return *this;
 }
-- 
2.43.0


From fb1128c23ee33032967b12e1018138729828522f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:13 +0000
Subject: [PATCH 24/84] fix: filling a bit vector with ones set the wrong bits
 of the last word

---
 spffl/bits/bit_vector_t.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/spffl/bits/bit_vector_t.cpp b/spffl/bits/bit_vector_t.cpp
index 93a84d0..a4e160e 100644
--- a/spffl/bits/bit_vector_t.cpp
+++ b/spffl/bits/bit_vector_t.cpp
@@ -415,9 +415,8 @@ void bit_vector_t::trim(void) {
   if (num_dribble_bits == 0) {
     return;
   }
-  this->words[this->num_words - 1] &=
-      ((1 << (BITS_PER_WORD - num_dribble_bits)) - 1)
-      << (BITS_PER_WORD - this->num_bits);
+  // Bits are stored from the most significant end of each word.
+  this->words[this->num_words - 1] &= ~(uint64_t)0 << num_dribble_bits;
 }
 
 // ----------------------------------------------------------------
-- 
2.43.0


From 58d02e854cd365f71be0e87d8e9f2274221ac829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:13 +0000
Subject: [PATCH 25/84] fix: bit vector equality tests ignored the last word

---
 spffl/bits/bit_vector_t.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/spffl/bits/bit_vector_t.cpp b/spffl/bits/bit_vector_t.cpp
index a4e160e..c297377 100644
--- a/spffl/bits/bit_vector_t.cpp
+++ b/spffl/bits/bit_vector_t.cpp
@@ -340,7 +340,7 @@ bool bit_vector_t::operator==(const bit_vector_t &that) const {
   if (this->num_bits != that.num_bits) {
     return false;
   }
-  for (int i = 0; i < this->num_words - 1; i++) {
+  for (int i = 0; i < this->num_words; i++) {
     if (this->words[i] != that.words[i]) {
       return false;
     }
@@ -359,7 +359,11 @@ bool bit_vector_t::operator==(const bit_t &scalar) const {
   if (scalar == bit_t(1)) {
     fill = ~fill;
   }
-  for (int i = 0; i < this->num_words - 1; i++) {
+  for (int i = 0; i < this->num_words; i++) {
+    int num_dribble_bits = (int)((i + 1) << BITS_SHIFT) - this->num_bits;
+    if (num_dribble_bits > 0) {
+      fill <<= num_dribble_bits;
+    }
     if (this->words[i] != fill) {
       return false;
     }
-- 
2.43.0


From 3d619346e200d027b819a2c48dbc5ca5f61f53ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:13 +0000
Subject: [PATCH 26/84] fix: bit vector += and -= check lengths

---
 spffl/bits/bit_vector_t.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spffl/bits/bit_vector_t.cpp b/spffl/bits/bit_vector_t.cpp
index c297377..7a38380 100644
--- a/spffl/bits/bit_vector_t.cpp
+++ b/spffl/bits/bit_vector_t.cpp
@@ -308,12 +308,14 @@ bit_t bit_vector_t::dot(const bit_vector_t &that) {
 
 // ----------------------------------------------------------------
 bit_vector_t bit_vector_t::operator+=(const bit_vector_t &that) {
+  this->check_equal_lengths(that);
   for (int i = 0; i < this->num_words; i++) {
     this->words[i] ^= that.words[i];
   }
   return *this;
 }
 bit_vector_t bit_vector_t::operator-=(const bit_vector_t &that) {
+  this->check_equal_lengths(that);
   for (int i = 0; i < this->num_words; i++) {
     this->words[i] ^= that.words[i];
   }
-- 
2.43.0


From 29a326d90a12434d3b18b566f7dca3ce54368b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:13 +0000
Subject: [PATCH 27/84] fix: bit matrix outer product sizes its result

---
 spffl/bits/bit_matrix_t.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spffl/bits/bit_matrix_t.cpp b/spffl/bits/bit_matrix_t.cpp
index 74e9d4a..c7d1216 100644
--- a/spffl/bits/bit_matrix_t.cpp
+++ b/spffl/bits/bit_matrix_t.cpp
@@ -499,7 +499,7 @@ bit_matrix_t &bit_matrix_t::operator*=(const bit_matrix_t &that) {
 bit_matrix_t bit_matrix_t::outer(const bit_vector_t &u, const bit_vector_t &v) {
   int m = u.get_num_elements();
   int n = v.get_num_elements();
-  bit_matrix_t rv;
+  bit_matrix_t rv(m, n);
   for (int i = 0; i < m; i++) {
     for (int j = 0; j < n; j++) {
       rv[i].set(j, u.get(i) * v.get(j));
-- 
2.43.0


From 538be752a90810cb71c17dfbd30e094000a04550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:13 +0000
Subject: [PATCH 28/84] fix: pasting onto a non-square bit matrix used the row
 count as column offset

---
 spffl/bits/bit_matrix_t.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spffl/bits/bit_matrix_t.cpp b/spffl/bits/bit_matrix_t.cpp
index c7d1216..dc2da38 100644
--- a/spffl/bits/bit_matrix_t.cpp
+++ b/spffl/bits/bit_matrix_t.cpp
@@ -872,7 +872,7 @@ bit_matrix_t bit_matrix_t::paste(bit_matrix_t &that) const {
   }
   for (i = 0; i < this->num_rows; i++) {
     for (j = 0; j < that.num_cols; j++) {
-      rv.rows[i].set(this->num_rows + j, that.rows[i].get(j));
+      rv.rows[i].set(this->num_cols + j, that.rows[i].get(j));
     }
   }
 
-- 
2.43.0


From 5932bbc2ac0a322b3793737534e131922a1af263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:13 +0000
Subject: [PATCH 29/84] fix: bits assigned from integers are reduced modulo two

---
 spffl/bits/bit_t.h          | 2 +-
 spffl/bits/bit_vector_t.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spffl/bits/bit_t.h b/spffl/bits/bit_t.h
index f13f82e..f8efa0a 100644
--- a/spffl/bits/bit_t.h
+++ b/spffl/bits/bit_t.h
@@ -38,7 +38,7 @@ public:
   }
 
   bit_t &operator=(int e) {
-    this->residue = e;
+    this->residue = e & 1;
     return *this;
   }
 
diff --git a/spffl/bits/bit_vector_t.cpp b/spffl/bits/bit_vector_t.cpp
index 7a38380..6a47080 100644
--- a/spffl/bits/bit_vector_t.cpp
+++ b/spffl/bits/bit_vector_t.cpp
@@ -69,7 +69,7 @@ bit_vector_t::bit_vector_t(int scalar, int init_num_elements) {
   this->num_words = NWORDS_FROM_NBITS(this->num_bits);
   this->words     = new uint64_t[this->num_words];
   uint64_t fill   = 0;
-  if (scalar == 1) {
+  if (scalar & 1) {
     fill = ~fill;
   }
   for (int i = 0; i < this->num_words; i++) {
-- 
2.43.0


From 1cc36fef4439074f11f7fa9b005c5f96dffe2365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:13 +0000
Subject: [PATCH 30/84] fix: bit matrix row swap checks its indices

---
 spffl/bits/bit_matrix_t.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spffl/bits/bit_matrix_t.cpp b/spffl/bits/bit_matrix_t.cpp
index dc2da38..f2697cf 100644
--- a/spffl/bits/bit_matrix_t.cpp
+++ b/spffl/bits/bit_matrix_t.cpp
@@ -600,7 +600,7 @@ uint64_t **bit_matrix_t::expose(void) const {
 
 // ----------------------------------------------------------------
 void bit_matrix_t::swap(int arow, int brow) {
-  this->rows[arow].ptrswap(this->rows[brow]);
+  (*this)[arow].ptrswap((*this)[brow]);
 }
 
 // ----------------------------------------------------------------
-- 
2.43.0


From 07b1c82f51ecaf1d70579d62a40ac2ae7cae226d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:13 +0000
Subject: [PATCH 31/84] fix: bit matrix row reduction leaked its row pointers

---
 spffl/bits/bit_matrix_t.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spffl/bits/bit_matrix_t.cpp b/spffl/bits/bit_matrix_t.cpp
index f2697cf..bf2f327 100644
--- a/spffl/bits/bit_matrix_t.cpp
+++ b/spffl/bits/bit_matrix_t.cpp
@@ -695,6 +695,7 @@ void bit_matrix_t::row_reduce_below_with_scalar(bit_t &s) {
     left_column++;
     top_row++;
   }
+  delete[] ptrs;
 }
 
 // ----------------------------------------------------------------
-- 
2.43.0


From c7b85e4cd875b474d2d6a799e56915d302f3ae8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:10 +0000
Subject: [PATCH 32/84] fix: pasting and inverting bit matrices kept rows of
 the narrow width

---
 spffl/bits/bit_matrix_t.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spffl/bits/bit_matrix_t.cpp b/spffl/bits/bit_matrix_t.cpp
index bf2f327..64fbbec 100644
--- a/spffl/bits/bit_matrix_t.cpp
+++ b/spffl/bits/bit_matrix_t.cpp
@@ -869,7 +869,9 @@ bit_matrix_t bit_matrix_t::paste(bit_matrix_t &that) const {
   int i, j;
 
   for (i = 0; i < this->num_rows; i++) {
-    rv.rows[i] = this->rows[i];
+    for (j = 0; j < this->num_cols; j++) {
+      rv.rows[i].set(j, this->rows[i].get(j));
+    }
   }
   for (i = 0; i < this->num_rows; i++) {
     for (j = 0; j < that.num_cols; j++) {
-- 
2.43.0


From 664b30fed7a2e3a46d3b781761617b20ba456901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:10 +0000
Subject: [PATCH 33/84] fix: a bit vector or matrix emptied by assignment takes
 a scalar like a new one

---
 spffl/bits/bit_matrix_t.cpp | 3 ++-
 spffl/bits/bit_vector_t.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/spffl/bits/bit_matrix_t.cpp b/spffl/bits/bit_matrix_t.cpp
index 64fbbec..394a5fc 100644
--- a/spffl/bits/bit_matrix_t.cpp
+++ b/spffl/bits/bit_matrix_t.cpp
@@ -118,13 +118,14 @@ bool bit_matrix_t::load_from_file(char *file_name) {
 
 // ----------------------------------------------------------------
 bit_matrix_t &bit_matrix_t::operator=(const bit_t &scalar) {
-  if (this->rows) {
+  if (this->num_rows > 0) {
     for (int i = 0; i < this->num_rows; i++) {
       for (int j = 0; j < this->num_cols; j++) {
         this->rows[i].set(j, scalar);
       }
     }
   } else {
+    this->mfree();
     this->num_rows = 1;
     this->num_cols = 1;
     this->rows     = new bit_vector_t[1];
diff --git a/spffl/bits/bit_vector_t.cpp b/spffl/bits/bit_vector_t.cpp
index 6a47080..758cffb 100644
--- a/spffl/bits/bit_vector_t.cpp
+++ b/spffl/bits/bit_vector_t.cpp
@@ -115,7 +115,7 @@ bit_vector_t &bit_vector_t::operator=(const bit_vector_t &that) {
 
 // ----------------------------------------------------------------
 bit_vector_t &bit_vector_t::operator=(const bit_t &scalar) {
-  if (this->words) {
+  if (this->num_bits > 0) {
     uint64_t fill = 0;
     if (scalar == bit_t(1)) {
       fill = ~fill;
@@ -125,6 +125,7 @@ bit_vector_t &bit_vector_t::operator=(const bit_t &scalar) {
     }
     this->trim();
   } else {
+    delete[] this->words;
     this->num_bits  = 1;
     this->num_words = 1;
     this->words     = new uint64_t[1];
-- 
2.43.0


From ec99cae9bf40071f1e0bbc462e76b21d962114b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:07 +0000
Subject: [PATCH 34/84] fix: matrix powers loop forever on the least integer
 when optimised

---
 spffl/bits/bit_matrix_t.cpp | 3 ++-
 spffl/containers/tmatrix.h  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/spffl/bits/bit_matrix_t.cpp b/spffl/bits/bit_matrix_t.cpp
index 394a5fc..96f0a55 100644
--- a/spffl/bits/bit_matrix_t.cpp
+++ b/spffl/bits/bit_matrix_t.cpp
@@ -7,6 +7,7 @@
 #include "spffl/bits/bit_matrix_t.h"
 #include "spffl/base/line_scan.h"
 #include "spffl/base/spffl_exception.h"
+#include <limits>
 #include <stdlib.h>
 #include <string.h>
 #include <unistd.h>
@@ -429,7 +430,7 @@ int bit_matrix_t::exp(int power, bit_matrix_t &rout) const {
     } else if (power == 0) {
       rout = I;
       return 1;
-    } else if (power == -power) {
+    } else if (power == std::numeric_limits<int>::min()) {
       std::stringstream ss;
       ss << "bit_matrix_t::exp:  can't handle "
          << "MIN_INT.\n";
diff --git a/spffl/containers/tmatrix.h b/spffl/containers/tmatrix.h
index c30ea2f..d8b8adf 100644
--- a/spffl/containers/tmatrix.h
+++ b/spffl/containers/tmatrix.h
@@ -14,6 +14,7 @@
 #include "spffl/intmath/int_gcd.h"
 #include <iostream>
 #include <stdlib.h>
+#include <limits>
 #include <string.h>
 
 template <typename element_type> class tmatrix;
@@ -595,7 +596,7 @@ public:
       } else if (power == 0) {
         rout = I;
         return 1;
-      } else if (power == -power) {
+      } else if (power == std::numeric_limits<int>::min()) {
         std::stringstream ss;
         ss << "tmatrix::exp:  can't handle MIN_INT.\n";
         throw spffl::exception_t(ss.str());
-- 
2.43.0


From bf8193e8a3d41caaeb333a26415c077d3290731b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:40 +0000
Subject: [PATCH 35/84] fix: assigning a longer vector overran the old storage

---
 spffl/containers/tvector.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spffl/containers/tvector.h b/spffl/containers/tvector.h
index 7e309e3..2e37a55 100644
--- a/spffl/containers/tvector.h
+++ b/spffl/containers/tvector.h
@@ -95,13 +95,16 @@ public:
 
   // ----------------------------------------------------------------
   tvector<element_type> &operator=(const tvector<element_type> &that) {
-    this->num_elements = that.num_elements;
+    if (this == &that) {
+      return *this;
+    }
     if (this->elements == 0) {
       this->elements = new element_type[that.num_elements];
     } else if (this->num_elements < that.num_elements) {
       delete[] this->elements;
       this->elements = new element_type[that.num_elements];
     }
+    this->num_elements = that.num_elements;
     for (int i = 0; i < that.num_elements; i++) {
       this->elements[i] = that.elements[i];
     }
-- 
2.43.0


From ea52488517fb4a989c4005c9f13e353eae46d69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:40 +0000
Subject: [PATCH 36/84] fix: a vector or matrix emptied by assignment takes a
 scalar like a new one

---
 spffl/containers/tmatrix.h | 3 ++-
 spffl/containers/tvector.h | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/spffl/containers/tmatrix.h b/spffl/containers/tmatrix.h
index d8b8adf..e9fc7d6 100644
--- a/spffl/containers/tmatrix.h
+++ b/spffl/containers/tmatrix.h
@@ -319,13 +319,14 @@ public:
 
   // ----------------------------------------------------------------
   tmatrix<element_type> &operator=(const element_type &scalar) {
-    if (this->rows) {
+    if (this->num_rows > 0) {
       for (int i = 0; i < this->num_rows; i++) {
         for (int j = 0; j < this->num_cols; j++) {
           this->rows[i][j] = scalar;
         }
       }
     } else {
+      this->mfree();
       this->num_rows   = 1;
       this->num_cols   = 1;
       this->rows       = new tvector<element_type>[1];
diff --git a/spffl/containers/tvector.h b/spffl/containers/tvector.h
index 2e37a55..442e246 100644
--- a/spffl/containers/tvector.h
+++ b/spffl/containers/tvector.h
@@ -113,11 +113,12 @@ public:
 
   // ----------------------------------------------------------------
   tvector<element_type> &operator=(const element_type scalar) {
-    if (this->elements) {
+    if (this->num_elements > 0) {
       for (int i = 0; i < this->num_elements; i++) {
         this->elements[i] = scalar;
       }
     } else {
+      delete[] this->elements;
       this->num_elements = 1;
       this->elements     = new element_type[1];
       this->elements[0]  = scalar;
-- 
2.43.0


From 0336d7d0a9a38f6d9e5464a7be4e4300e2ad75e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:40 +0000
Subject: [PATCH 37/84] fix: scaling a vector by one of its own elements used
 the updated element

---
 spffl/containers/tvector.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spffl/containers/tvector.h b/spffl/containers/tvector.h
index 442e246..3f59af3 100644
--- a/spffl/containers/tvector.h
+++ b/spffl/containers/tvector.h
@@ -376,13 +376,13 @@ public:
     *this = *this - that;
     return *this;
   }
-  tvector<element_type> operator*=(const element_type &e) {
+  tvector<element_type> operator*=(element_type e) {
     for (int i = 0; i < this->num_elements; i++) {
       this->elements[i] *= e;
     }
     return *this;
   }
-  void mult_by(const element_type &e) {
+  void mult_by(element_type e) {
     for (int i = 0; i < this->num_elements; i++) {
       this->elements[i] *= e;
     }
@@ -394,7 +394,7 @@ public:
     }
     return *this;
   }
-  tvector<element_type> operator/=(const element_type &e) {
+  tvector<element_type> operator/=(element_type e) {
     for (int i = 0; i < this->num_elements; i++) {
       this->elements[i] /= e;
     }
-- 
2.43.0


From bbd76a3eead585c1b48d0421b125ba832650dd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:40 +0000
Subject: [PATCH 38/84] fix: pasting onto a non-square matrix used the row
 count as column offset

---
 spffl/containers/tmatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spffl/containers/tmatrix.h b/spffl/containers/tmatrix.h
index e9fc7d6..9dfb63d 100644
--- a/spffl/containers/tmatrix.h
+++ b/spffl/containers/tmatrix.h
@@ -1318,7 +1318,7 @@ public:
     }
     for (i = 0; i < this->num_rows; i++) {
       for (j = 0; j < that.num_cols; j++) {
-        rv.rows[i][this->num_rows + j] = that.rows[i][j];
+        rv.rows[i][this->num_cols + j] = that.rows[i][j];
       }
     }
 
-- 
2.43.0


From 462dd25afa6b0a723c79bde2e863a9d464464e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:40 +0000
Subject: [PATCH 39/84] fix: matrix row swap checks its indices

---
 spffl/containers/tmatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spffl/containers/tmatrix.h b/spffl/containers/tmatrix.h
index 9dfb63d..9716804 100644
--- a/spffl/containers/tmatrix.h
+++ b/spffl/containers/tmatrix.h
@@ -862,7 +862,7 @@ public:
   }
 
   // ----------------------------------------------------------------
-  void swap(int arow, int brow) { this->rows[arow].ptrswap(this->rows[brow]); }
+  void swap(int arow, int brow) { (*this)[arow].ptrswap((*this)[brow]); }
 
   // ----------------------------------------------------------------
   // This is a general row-reduction method.  It operates on the matrix
-- 
2.43.0


From ad42372a0091609121be78fbd2255b04e196dc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:40 +0000
Subject: [PATCH 40/84] fix: assigning factor lists returned nothing and broke
 self-assignment

---
 spffl/containers/tfacinfo.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spffl/containers/tfacinfo.h b/spffl/containers/tfacinfo.h
index a766a45..43aa532 100644
--- a/spffl/containers/tfacinfo.h
+++ b/spffl/containers/tfacinfo.h
@@ -64,6 +64,9 @@ public:
 
   // ----------------------------------------------------------------
   tfacinfo<element_type> &operator=(const tfacinfo<element_type> &that) {
+    if (this == &that) {
+      return *this;
+    }
     if (this->pfactors_and_counts) {
       delete[] this->pfactors_and_counts;
     }
@@ -76,6 +79,7 @@ public:
     }
     this->have_unit = that.have_unit;
     this->unit      = that.unit;
+    return *this;
   }
 
   // ----------------------------------------------------------------
-- 
2.43.0


From a663c7288b53f226497f73fea513aa2cab2ea8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:40 +0000
Subject: [PATCH 41/84] fix: growing a factor list leaked the old array

---
 spffl/containers/tfacinfo.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spffl/containers/tfacinfo.h b/spffl/containers/tfacinfo.h
index 43aa532..e8a6c7d 100644
--- a/spffl/containers/tfacinfo.h
+++ b/spffl/containers/tfacinfo.h
@@ -236,6 +236,7 @@ public:
       for (int i = 0; i < this->num_distinct; i++) {
         this->pfactors_and_counts[i] = temp[i];
       }
+      delete[] temp;
     }
 
     // Insert a new factor.  The find() method has returned the correct
-- 
2.43.0


From 3788718d1a4e79a0ca8f728500ff9293e7e03c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:40 +0000
Subject: [PATCH 42/84] fix: assigning stacks returned nothing and broke
 self-assignment

---
 spffl/containers/tstack.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spffl/containers/tstack.h b/spffl/containers/tstack.h
index f0a0804..350974a 100644
--- a/spffl/containers/tstack.h
+++ b/spffl/containers/tstack.h
@@ -46,6 +46,9 @@ public:
 
   // ----------------------------------------------------------------
   tstack<element_type> &operator=(const tstack<element_type> &that) {
+    if (this == &that) {
+      return *this;
+    }
     if (this->elements != 0) {
       delete[] this->elements;
     }
@@ -55,6 +58,7 @@ public:
     for (int i = 0; i < that.freeidx; i++) {
       this->elements[i] = that.elements[i];
     }
+    return *this;
   }
 
   // ----------------------------------------------------------------
-- 
2.43.0


From 786424190d7c8633256dbb4ffa2fab2d1bd75af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:10 +0000
Subject: [PATCH 43/84] fix: Euclidean-domain determinant of the zero matrix is
 zero

---
 spffl/containers/tmatrix.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spffl/containers/tmatrix.h b/spffl/containers/tmatrix.h
index 9716804..ae68dcb 100644
--- a/spffl/containers/tmatrix.h
+++ b/spffl/containers/tmatrix.h
@@ -1525,6 +1525,9 @@ public:
       ss << "tmatrix::ed_det():  non-square input.\n";
       throw spffl::exception_t(ss.str());
     }
+    if (this->is_zero()) {
+      return this->rows[0][0] - this->rows[0][0];
+    }
     tmatrix<element_type> rr(*this);
     element_type dn, dd;
     rr.ed_row_reduce_below_with_scalar(dn, dd);
-- 
2.43.0


From 868d7e18e8134d55f18cd3e7b04132481c90eb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:20 +0000
Subject: [PATCH 44/84] fix: Euclidean-domain inverse normalises leading units
 other than one

---
 spffl/containers/tmatrix.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/spffl/containers/tmatrix.h b/spffl/containers/tmatrix.h
index ae68dcb..52566ca 100644
--- a/spffl/containers/tmatrix.h
+++ b/spffl/containers/tmatrix.h
@@ -1604,6 +1604,14 @@ public:
     tmatrix<element_type> pair = this->paste(I);
     pair.ed_row_echelon_form();
 
+    // The leaders of an invertible matrix are units, not necessarily one.
+    for (int i = 0; i < this->num_rows; i++) {
+      element_type lead = pair.rows[i][i];
+      if (lead != zero && one % lead == zero) {
+        pair.rows[i] *= one / lead;
+      }
+    }
+
     pair.split(I, rinv, this->num_cols);
     return I.is_I();
   }
-- 
2.43.0


From ec21c2590803561155afda15e2e0ad94f58f53c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:44 +0000
Subject: [PATCH 45/84] fix: malformed Fp polynomial text is rejected and
 leaves the target intact

---
 spffl/polynomials/fp_poly_t.cpp | 55 ++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 28 deletions(-)

diff --git a/spffl/polynomials/fp_poly_t.cpp b/spffl/polynomials/fp_poly_t.cpp
index f0bf257..5e20082 100644
--- a/spffl/polynomials/fp_poly_t.cpp
+++ b/spffl/polynomials/fp_poly_t.cpp
@@ -830,10 +830,6 @@ std::istream &operator>>(std::istream &is, fp_poly_t &poly) {
 
 // ----------------------------------------------------------------
 bool fp_poly_t::from_string(const std::string &string, int p) {
-  if (this->coeffs) {
-    delete[] this->coeffs;
-  }
-
   int num_commas = 0;
   for (const char *q = string.c_str(); *q; q++) {
     if (*q == ',') {
@@ -841,56 +837,59 @@ bool fp_poly_t::from_string(const std::string &string, int p) {
     }
   }
 
+  // The polynomial is left as it was unless all coefficients can be scanned.
+  spffl::intmath::intmod_t *new_coeffs = 0;
+  int num_coeffs                       = 0;
+
   if ((num_commas == 0) && (p < 10)) {
     // Allow comma-free input as long as all residues are
     // single-digit.
-    int len      = string.length();
-    this->degree = len - 1;
-    this->coeffs = new spffl::intmath::intmod_t[this->degree + 1];
+    num_coeffs = string.length();
+    if (num_coeffs < 1) {
+      return false;
+    }
+    new_coeffs = new spffl::intmath::intmod_t[num_coeffs];
     int si, ci;
-    for (si = 0, ci = this->degree; si < len; si++, ci--) {
+    for (si = 0, ci = num_coeffs - 1; si < num_coeffs; si++, ci--) {
       char ascii_digit = string[si];
       if ((ascii_digit < '0') || (ascii_digit > '9')) {
         std::stringstream ss;
         ss << "fp_poly_t::from_string: "
            << "non-numerical input \"" << string << "\"\n";
         ss << "Didn't like '" << ascii_digit << "'\n";
+        delete[] new_coeffs;
         return false;
       }
-      this->coeffs[ci] = spffl::intmath::intmod_t(ascii_digit - '0', p);
+      new_coeffs[ci] = spffl::intmath::intmod_t(ascii_digit - '0', p);
     }
   } else {
-    char *dup   = strdup(string.c_str());
-    char **argv = new char *[num_commas + 1];
-    int argc    = spffl::base::tokenize(dup, ",", argv, num_commas + 1);
-    if (argc < 1) {
-      // Needs an error message, but this coding error is
-      // unlikely since we already counted commas.
-      return false;
-    }
-
-    this->degree = argc - 1;
-    this->coeffs = new spffl::intmath::intmod_t[this->degree + 1];
-    int argi, ci;
-    for (argi = 0, ci = this->degree; argi < argc; argi++, ci--) {
+    num_coeffs = num_commas + 1;
+    new_coeffs = new spffl::intmath::intmod_t[num_coeffs];
+    std::istringstream fields(string, std::ios_base::in);
+    for (int ci = num_coeffs - 1; ci >= 0; ci--) {
       // Scan each coefficient, then reduce mod p
       int r;
-
-      std::istringstream iss(argv[argi], std::ios_base::in);
+      std::string field;
+      std::getline(fields, field, ',');
+      std::istringstream iss(field, std::ios_base::in);
       iss >> r;
-      if (iss.fail()) {
+      if (iss.fail() || !(iss >> std::ws).eof()) {
         std::stringstream ss;
         ss << "fp_poly_t::from_string: "
            << "scan failure at \"" << string << "\"\n";
+        delete[] new_coeffs;
         return false;
       } else {
-        this->coeffs[ci] = spffl::intmath::intmod_t(r, p);
+        new_coeffs[ci] = spffl::intmath::intmod_t(r, p);
       }
     }
-    delete[] argv;
-    free(dup);
   }
 
+  if (this->coeffs) {
+    delete[] this->coeffs;
+  }
+  this->degree = num_coeffs - 1;
+  this->coeffs = new_coeffs;
   this->recompute_degree();
   return true;
 }
-- 
2.43.0


From 59d8069f1ea83a0e29c3fc270edca10049aaee04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:44 +0000
Subject: [PATCH 46/84] fix: malformed F2^n polynomial text is rejected and
 leaves the target intact

---
 spffl/polynomials/f2n_poly_t.cpp | 40 +++++++++++++-------------------
 1 file changed, 16 insertions(+), 24 deletions(-)

diff --git a/spffl/polynomials/f2n_poly_t.cpp b/spffl/polynomials/f2n_poly_t.cpp
index 0d454d6..6953cb2 100644
--- a/spffl/polynomials/f2n_poly_t.cpp
+++ b/spffl/polynomials/f2n_poly_t.cpp
@@ -893,10 +893,6 @@ std::istringstream &operator>>(std::istringstream &iss, f2n_poly_t &poly) {
 
 // ----------------------------------------------------------------
 bool f2n_poly_t::from_string(const std::string &string, const f2_poly_t &m) {
-  if (this->coeffs) {
-    delete[] this->coeffs;
-  }
-
   int num_colons = 0;
   for (const char *q = string.c_str(); *q; q++) {
     if (*q == ':') {
@@ -904,37 +900,33 @@ bool f2n_poly_t::from_string(const std::string &string, const f2_poly_t &m) {
     }
   }
 
-  // TODO: more use of std::string methods
-  char *dup   = strdup(string.c_str());
-  char **argv = new char *[num_colons + 1];
-  int argc    = spffl::base::tokenize(dup, ":", argv, num_colons + 1);
-  if (argc < 1) {
-    // Needs an error message, but this coding error is
-    // unlikely since we already counted colons.
-    return false;
-  }
-
-  this->degree = argc - 1;
-  this->coeffs = new f2_polymod_t[this->degree + 1];
-  int argi, ci;
-  for (argi = 0, ci = this->degree; argi < argc; argi++, ci--) {
+  // The polynomial is left as it was unless all coefficients can be scanned.
+  int num_coeffs = num_colons + 1;
+  f2_polymod_t *new_coeffs = new f2_polymod_t[num_coeffs];
+  std::istringstream fields(string, std::ios_base::in);
+  for (int ci = num_coeffs - 1; ci >= 0; ci--) {
     // Scan each coefficient, then reduce mod m
     f2_poly_t r;
-
-    std::istringstream iss(argv[argi], std::ios_base::in);
+    std::string field;
+    std::getline(fields, field, ':');
+    std::istringstream iss(field, std::ios_base::in);
     iss >> r;
-    if (iss.fail()) {
+    if (iss.fail() || !(iss >> std::ws).eof()) {
       std::stringstream ss;
       ss << "f2n_poly_t::from_string: "
          << "scan failure at \"" << string << "\"\n";
+      delete[] new_coeffs;
       return false;
     } else {
-      this->coeffs[ci] = f2_polymod_t(r, m);
+      new_coeffs[ci] = f2_polymod_t(r, m);
     }
   }
-  delete[] argv;
-  free(dup);
 
+  if (this->coeffs) {
+    delete[] this->coeffs;
+  }
+  this->degree = num_coeffs - 1;
+  this->coeffs = new_coeffs;
   this->recompute_degree();
   return true;
 }
-- 
2.43.0


From a0026e0fb6f4f9851b5fc18fe5b41fe33d56764d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:44 +0000
Subject: [PATCH 47/84] fix: malformed Fp^n polynomial text is rejected and
 leaves the target intact

---
 spffl/polynomials/fpn_poly_t.cpp | 40 +++++++++++++-------------------
 1 file changed, 16 insertions(+), 24 deletions(-)

diff --git a/spffl/polynomials/fpn_poly_t.cpp b/spffl/polynomials/fpn_poly_t.cpp
index 0afaf8e..93bf037 100644
--- a/spffl/polynomials/fpn_poly_t.cpp
+++ b/spffl/polynomials/fpn_poly_t.cpp
@@ -810,10 +810,6 @@ std::istream &operator>>(std::istream &is, fpn_poly_t &poly) {
 
 // ----------------------------------------------------------------
 bool fpn_poly_t::from_string(const std::string &string, fp_poly_t m) {
-  if (this->coeffs) {
-    delete[] this->coeffs;
-  }
-
   int num_colons = 0;
   for (const char *q = string.c_str(); *q; q++) {
     if (*q == ':') {
@@ -821,37 +817,33 @@ bool fpn_poly_t::from_string(const std::string &string, fp_poly_t m) {
     }
   }
 
-  // TODO: more use of std::string methods
-  char *dup   = strdup(string.c_str());
-  char **argv = new char *[num_colons + 1];
-  int argc    = spffl::base::tokenize(dup, ":", argv, num_colons + 1);
-  if (argc < 1) {
-    // Needs an error message, but this coding error is
-    // unlikely since we already counted colons.
-    return false;
-  }
-
-  this->degree = argc - 1;
-  this->coeffs = new fp_polymod_t[this->degree + 1];
-  int argi, ci;
-  for (argi = 0, ci = this->degree; argi < argc; argi++, ci--) {
+  // The polynomial is left as it was unless all coefficients can be scanned.
+  int num_coeffs = num_colons + 1;
+  fp_polymod_t *new_coeffs = new fp_polymod_t[num_coeffs];
+  std::istringstream fields(string, std::ios_base::in);
+  for (int ci = num_coeffs - 1; ci >= 0; ci--) {
     // Scan each coefficient, then reduce mod m
     fp_poly_t r = m; // Set modulus
-
-    std::istringstream iss(argv[argi], std::ios_base::in);
+    std::string field;
+    std::getline(fields, field, ':');
+    std::istringstream iss(field, std::ios_base::in);
     iss >> r;
-    if (iss.fail()) {
+    if (iss.fail() || !(iss >> std::ws).eof()) {
       std::stringstream ss;
       ss << "fpn_poly_t::from_string: "
          << "scan failure at \"" << string << "\"\n";
+      delete[] new_coeffs;
       return false;
     } else {
-      this->coeffs[ci] = fp_polymod_t(r, m);
+      new_coeffs[ci] = fp_polymod_t(r, m);
     }
   }
-  delete[] argv;
-  free(dup);
 
+  if (this->coeffs) {
+    delete[] this->coeffs;
+  }
+  this->degree = num_coeffs - 1;
+  this->coeffs = new_coeffs;
   this->recompute_degree();
   return true;
 }
-- 
2.43.0


From 2206b4c71cfba7f5ace2e66619bc0a73c988c1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:44 +0000
Subject: [PATCH 48/84] fix: rational polynomial text takes negative and
 fractional coefficients; malformed text leaves the target intact

---
 spffl/polynomials/q_poly_t.cpp | 73 +++++++++++++++-------------------
 1 file changed, 31 insertions(+), 42 deletions(-)

diff --git a/spffl/polynomials/q_poly_t.cpp b/spffl/polynomials/q_poly_t.cpp
index 675a400..53f47f4 100644
--- a/spffl/polynomials/q_poly_t.cpp
+++ b/spffl/polynomials/q_poly_t.cpp
@@ -697,7 +697,7 @@ std::istream &operator>>(std::istream &is, q_poly_t &poly) {
     return is;
   }
 
-  while (isdigit(c) || (c == ',')) {
+  while (isdigit(c) || (c == ',') || (c == '-') || (c == '/')) {
     c = is.get();
     ss << c;
     c = is.peek();
@@ -721,67 +721,56 @@ std::istream &operator>>(std::istream &is, q_poly_t &poly) {
 
 // ----------------------------------------------------------------
 bool q_poly_t::from_string(const std::string &string) {
-  if (this->coeffs) {
-    delete[] this->coeffs;
-  }
-
   int num_commas = 0;
+  bool all_digits = true;
   for (const char *q = string.c_str(); *q; q++) {
     if (*q == ',') {
       num_commas++;
     }
+    if (!isdigit((unsigned char)*q)) {
+      all_digits = false;
+    }
   }
 
-  if (num_commas == 0) {
-    // Allow comma-free input as long as all residues are
+  // The polynomial is left as it was unless all coefficients can be scanned.
+  spffl::intmath::intrat_t *new_coeffs = 0;
+  int num_coeffs                       = 0;
+
+  if (all_digits) {
+    // Allow comma-free input as long as all coefficients are
     // single-digit.
-    int len      = string.length();
-    this->degree = len - 1;
-    this->coeffs = new spffl::intmath::intrat_t[this->degree + 1];
+    num_coeffs = string.length();
+    if (num_coeffs < 1) {
+      return false;
+    }
+    new_coeffs = new spffl::intmath::intrat_t[num_coeffs];
     int si, ci;
-    for (si = 0, ci = this->degree; si < len; si++, ci--) {
-      char ascii_digit = string[si];
-      if ((ascii_digit < '0') || (ascii_digit > '9')) {
-        std::stringstream ss;
-        ss << "q_poly_t::from_string: "
-           << "non-numerical input \"" << string << "\"\n";
-        ss << "Didn't like '" << ascii_digit << "'\n";
-        return false;
-      }
-      this->coeffs[ci] = spffl::intmath::intrat_t(ascii_digit - '0');
+    for (si = 0, ci = num_coeffs - 1; si < num_coeffs; si++, ci--) {
+      new_coeffs[ci] = spffl::intmath::intrat_t(string[si] - '0');
     }
   } else {
-    char *dup   = strdup(string.c_str());
-    char **argv = new char *[num_commas + 1];
-    int argc    = spffl::base::tokenize(dup, ",", argv, num_commas + 1);
-    if (argc < 1) {
-      // Needs an error message, but this coding error is
-      // unlikely since we already counted commas.
-      return false;
-    }
-
-    this->degree = argc - 1;
-    this->coeffs = new spffl::intmath::intrat_t[this->degree + 1];
-    int argi, ci;
-    for (argi = 0, ci = this->degree; argi < argc; argi++, ci--) {
+    num_coeffs = num_commas + 1;
+    new_coeffs = new spffl::intmath::intrat_t[num_coeffs];
+    std::istringstream fields(string, std::ios_base::in);
+    for (int ci = num_coeffs - 1; ci >= 0; ci--) {
       // Scan each coefficient.
-      int r;
-
-      std::istringstream iss(argv[argi], std::ios_base::in);
-      iss >> r;
-      if (iss.fail()) {
+      std::string field;
+      std::getline(fields, field, ',');
+      if (!new_coeffs[ci].from_string(field)) {
         std::stringstream ss;
         ss << "q_poly_t::from_string: "
            << "scan failure at \"" << string << "\"\n";
+        delete[] new_coeffs;
         return false;
-      } else {
-        this->coeffs[ci] = spffl::intmath::intrat_t(r);
       }
     }
-    delete[] argv;
-    free(dup);
   }
 
+  if (this->coeffs) {
+    delete[] this->coeffs;
+  }
+  this->degree = num_coeffs - 1;
+  this->coeffs = new_coeffs;
   this->recompute_degree();
   return true;
 }
-- 
2.43.0


From 6b1213da046d14f1916bb8ceb95496e7d182e2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:00 +0000
Subject: [PATCH 49/84] fix: text with trailing garbage is not a bit

---
 spffl/bits/bit_t.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spffl/bits/bit_t.cpp b/spffl/bits/bit_t.cpp
index d5cef3d..4026ba0 100644
--- a/spffl/bits/bit_t.cpp
+++ b/spffl/bits/bit_t.cpp
@@ -37,6 +37,9 @@ std::istream &operator>>(std::istream &is, bit_t &a) {
   }
 
   is >> r;
+  if (is.fail()) {
+    return is;
+  }
   a.residue = r & 1;
   return is;
 }
@@ -46,7 +49,7 @@ bool bit_t::from_string(const std::string &string) {
   unsigned r;
   std::istringstream iss(string, std::ios_base::in);
   iss >> r;
-  if (iss.fail()) {
+  if (iss.fail() || !(iss >> std::ws).eof()) {
     return false;
   } else {
     this->residue = r & 1;
-- 
2.43.0


From c0fba98a84091d2498265412e641c9fa20217c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:00 +0000
Subject: [PATCH 50/84] fix: text with trailing garbage is not an integer
 residue

---
 spffl/intmath/intmod_t.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/spffl/intmath/intmod_t.cpp b/spffl/intmath/intmod_t.cpp
index 4f8260a..3f617ae 100644
--- a/spffl/intmath/intmod_t.cpp
+++ b/spffl/intmath/intmod_t.cpp
@@ -86,8 +86,12 @@ std::istream &operator>>(std::istream &is, intmod_t &a) {
   }
 
   a.check_modulus();
-  is >> a.residue;
-  a.residue %= a.modulus;
+  int r;
+  is >> r;
+  if (is.fail()) {
+    return is;
+  }
+  a.residue = r % a.modulus;
   if (a.residue < 0) { // Wacky C mod operator.
     a.residue += a.modulus;
   }
@@ -99,7 +103,7 @@ bool intmod_t::from_string(const std::string &string, int m) {
   int r;
   std::istringstream iss(string, std::ios_base::in);
   iss >> r;
-  if (iss.fail()) {
+  if (iss.fail() || !(iss >> std::ws).eof()) {
     return false;
   } else {
     *this = intmod_t(r, m);
-- 
2.43.0


From 904c72cb1709a01ad2d39b54e12e40fb6c92668c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:00 +0000
Subject: [PATCH 51/84] fix: text without a numerator was read as a rational
 number

---
 spffl/intmath/intrat_t.cpp | 98 +++++++++++++++++---------------------
 1 file changed, 45 insertions(+), 53 deletions(-)

diff --git a/spffl/intmath/intrat_t.cpp b/spffl/intmath/intrat_t.cpp
index 58c4b92..a901481 100644
--- a/spffl/intmath/intrat_t.cpp
+++ b/spffl/intmath/intrat_t.cpp
@@ -183,74 +183,66 @@ std::ostream &operator<<(std::ostream &os, const intrat_t &a) {
 
 // ----------------------------------------------------------------
 std::istream &operator>>(std::istream &is, intrat_t &a) {
-  // Attempt to skip over whitespace.
-  // The istringstream class appears to permit no way to ignore a set of
-  // characters.  E.g. if the input is 0, space, tab, space, 1, then the
-  // following won't suffice.
-
-  while (is.peek() == ' ') {
-    is.ignore(1, ' ');
-  }
-  while (is.peek() == '\t') {
-    is.ignore(1, '\t');
-  }
-  while (is.peek() == '\n') {
-    is.ignore(1, '\n');
-  }
-
-  is >> a.numer;
-  if (is.eof()) {
-    a.denom = 1;
+  // The target is left as it was unless the text can be scanned.
+  intrat_t b(a);
+  is >> std::ws;
+  is >> b.numer;
+  if (is.fail()) {
+    return is;
   }
-  if (is.peek() == '/') {
+  b.denom = 1;
+  if (!is.eof() && is.peek() == '/') {
     (void)is.get();
-    is >> a.denom;
-  } else {
-    // Clear failure code from not having found the '/'.
-    is.clear();
-    a.denom = 1;
+    is >> b.denom;
+    if (is.fail()) {
+      return is;
+    }
+    if (b.denom == 0) {
+      is.setstate(std::ios::failbit);
+      return is;
+    }
   }
-  a.simplify();
+  b.simplify();
+  a = b;
   return is;
 }
 
-// ----------------------------------------------------------------
-std::istringstream &operator>>(std::istringstream &iss, intrat_t &a) {
-  // Attempt to skip over whitespace.
-  // The istringstream class appears to permit no way to ignore a set of
-  // characters.  E.g. if the input is 0, space, tab, space, 1, then the
-  // following won't suffice.
 
-  while (iss.peek() == ' ') {
-    iss.ignore(1, ' ');
-  }
-  while (iss.peek() == '\t') {
-    iss.ignore(1, '\t');
-  }
-  while (iss.peek() == '\n') {
-    iss.ignore(1, '\n');
+std::istringstream &operator>>(std::istringstream &iss, intrat_t &a) {
+  // The target is left as it was unless the text can be scanned.
+  intrat_t b(a);
+  iss >> std::ws;
+  iss >> b.numer;
+  if (iss.fail()) {
+    return iss;
   }
-
-  iss >> a.numer;
-  if (iss.eof()) {
-    a.denom = 1;
-  } else if (iss.peek() == '/') {
+  b.denom = 1;
+  if (!iss.eof() && iss.peek() == '/') {
     (void)iss.get();
-    iss >> a.denom;
-  } else {
-    // Clear failure code from not having found the '/'.
-    iss.clear();
-    a.denom = 1;
+    iss >> b.denom;
+    if (iss.fail()) {
+      return iss;
+    }
+    if (b.denom == 0) {
+      iss.setstate(std::ios::failbit);
+      return iss;
+    }
   }
-  a.simplify();
+  b.simplify();
+  a = b;
   return iss;
 }
 
-// ----------------------------------------------------------------
+
 bool intrat_t::from_string(const std::string &string) {
   std::istringstream iss(string, std::ios_base::in);
-  iss >> *this;
-  return iss.fail() ? false : true;
+  intrat_t a;
+  iss >> a;
+  if (iss.fail() || !(iss >> std::ws).eof()) {
+    return false;
+  }
+  *this = a;
+  return true;
 }
 
 // ----------------------------------------------------------------
-- 
2.43.0


From 6719a0e1f29cfebf8d27900734e0d20e6f7331ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:00 +0000
Subject: [PATCH 52/84] fix: text without a numerator was read as an F2
 rational function

---
 spffl/rationals/f2_polyrat_t.cpp | 98 +++++++++++++++-----------------
 1 file changed, 45 insertions(+), 53 deletions(-)

diff --git a/spffl/rationals/f2_polyrat_t.cpp b/spffl/rationals/f2_polyrat_t.cpp
index e3c2da0..ffce3de 100644
--- a/spffl/rationals/f2_polyrat_t.cpp
+++ b/spffl/rationals/f2_polyrat_t.cpp
@@ -188,74 +188,66 @@ std::ostream &operator<<(std::ostream &os, const f2_polyrat_t &a) {
 
 // ----------------------------------------------------------------
 std::istream &operator>>(std::istream &is, f2_polyrat_t &a) {
-  // Attempt to skip over whitespace.
-  // The istringstream class appears to permit no way to ignore a set of
-  // characters.  E.g. if the input is 0, space, tab, space, 1, then the
-  // following won't suffice.
-
-  while (is.peek() == ' ') {
-    is.ignore(1, ' ');
-  }
-  while (is.peek() == '\t') {
-    is.ignore(1, '\t');
-  }
-  while (is.peek() == '\n') {
-    is.ignore(1, '\n');
-  }
-
-  is >> a.numer;
-  if (is.eof()) {
-    a.denom = 1;
+  // The target is left as it was unless the text can be scanned.
+  f2_polyrat_t b(a);
+  is >> std::ws;
+  is >> b.numer;
+  if (is.fail()) {
+    return is;
   }
-  if (is.peek() == '/') {
+  b.denom = 1;
+  if (!is.eof() && is.peek() == '/') {
     (void)is.get();
-    is >> a.denom;
-  } else {
-    // Clear failure code from not having found the '/'.
-    is.clear();
-    a.denom = 1;
+    is >> b.denom;
+    if (is.fail()) {
+      return is;
+    }
+    if (b.denom == 0) {
+      is.setstate(std::ios::failbit);
+      return is;
+    }
   }
-  a.simplify();
+  b.simplify();
+  a = b;
   return is;
 }
 
-// ----------------------------------------------------------------
-std::istringstream &operator>>(std::istringstream &iss, f2_polyrat_t &a) {
-  // Attempt to skip over whitespace.
-  // The istringstream class appears to permit no way to ignore a set of
-  // characters.  E.g. if the input is 0, space, tab, space, 1, then the
-  // following won't suffice.
 
-  while (iss.peek() == ' ') {
-    iss.ignore(1, ' ');
-  }
-  while (iss.peek() == '\t') {
-    iss.ignore(1, '\t');
-  }
-  while (iss.peek() == '\n') {
-    iss.ignore(1, '\n');
+std::istringstream &operator>>(std::istringstream &iss, f2_polyrat_t &a) {
+  // The target is left as it was unless the text can be scanned.
+  f2_polyrat_t b(a);
+  iss >> std::ws;
+  iss >> b.numer;
+  if (iss.fail()) {
+    return iss;
   }
-
-  iss >> a.numer;
-  if (iss.eof()) {
-    a.denom = 1;
-  } else if (iss.peek() == '/') {
+  b.denom = 1;
+  if (!iss.eof() && iss.peek() == '/') {
     (void)iss.get();
-    iss >> a.denom;
-  } else {
-    // Clear failure code from not having found the '/'.
-    iss.clear();
-    a.denom = 1;
+    iss >> b.denom;
+    if (iss.fail()) {
+      return iss;
+    }
+    if (b.denom == 0) {
+      iss.setstate(std::ios::failbit);
+      return iss;
+    }
   }
-  a.simplify();
+  b.simplify();
+  a = b;
   return iss;
 }
 
-// ----------------------------------------------------------------
+
 bool f2_polyrat_t::from_string(const std::string &string) {
   std::istringstream iss(string, std::ios_base::in);
-  iss >> *this;
-  return iss.fail() ? false : true;
+  f2_polyrat_t a;
+  iss >> a;
+  if (iss.fail() || !(iss >> std::ws).eof()) {
+    return false;
+  }
+  *this = a;
+  return true;
 }
 
 // ----------------------------------------------------------------
-- 
2.43.0


From 9ca6a2ddc92e759a5e3259ec15e41c1aad646590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:00 +0000
Subject: [PATCH 53/84] fix: text without a numerator was read as an Fp
 rational function

---
 spffl/rationals/fp_polyrat_t.cpp | 102 ++++++++++++++-----------------
 1 file changed, 47 insertions(+), 55 deletions(-)

diff --git a/spffl/rationals/fp_polyrat_t.cpp b/spffl/rationals/fp_polyrat_t.cpp
index 1e1dc75..cb4d0af 100644
--- a/spffl/rationals/fp_polyrat_t.cpp
+++ b/spffl/rationals/fp_polyrat_t.cpp
@@ -185,76 +185,68 @@ std::ostream &operator<<(std::ostream &os, const fp_polyrat_t &a) {
 
 // ----------------------------------------------------------------
 std::istream &operator>>(std::istream &is, fp_polyrat_t &a) {
-  // Attempt to skip over whitespace.
-  // The istringstream class appears to permit no way to ignore a set of
-  // characters.  E.g. if the input is 0, space, tab, space, 1, then the
-  // following won't suffice.
-
-  while (is.peek() == ' ') {
-    is.ignore(1, ' ');
-  }
-  while (is.peek() == '\t') {
-    is.ignore(1, '\t');
-  }
-  while (is.peek() == '\n') {
-    is.ignore(1, '\n');
-  }
-
-  is >> a.numer;
-  if (is.eof()) {
-    a.denom = a.numer.prime_subfield_element(1);
+  // The target is left as it was unless the text can be scanned.
+  fp_polyrat_t b(a);
+  is >> std::ws;
+  is >> b.numer;
+  if (is.fail()) {
+    return is;
   }
-  if (is.peek() == '/') {
+  b.denom = b.numer.prime_subfield_element(1);
+  if (!is.eof() && is.peek() == '/') {
     (void)is.get();
-    is >> a.denom;
-  } else {
-    // Clear failure code from not having found the '/'.
-    is.clear();
-    a.denom = a.numer.prime_subfield_element(1);
+    is >> b.denom;
+    if (is.fail()) {
+      return is;
+    }
+    if (b.denom == 0) {
+      is.setstate(std::ios::failbit);
+      return is;
+    }
   }
-  a.simplify();
+  b.simplify();
+  a = b;
   return is;
 }
 
-// ----------------------------------------------------------------
-std::istringstream &operator>>(std::istringstream &iss, fp_polyrat_t &a) {
-  // Attempt to skip over whitespace.
-  // The istringstream class appears to permit no way to ignore a set of
-  // characters.  E.g. if the input is 0, space, tab, space, 1, then the
-  // following won't suffice.
 
-  while (iss.peek() == ' ') {
-    iss.ignore(1, ' ');
-  }
-  while (iss.peek() == '\t') {
-    iss.ignore(1, '\t');
-  }
-  while (iss.peek() == '\n') {
-    iss.ignore(1, '\n');
+std::istringstream &operator>>(std::istringstream &iss, fp_polyrat_t &a) {
+  // The target is left as it was unless the text can be scanned.
+  fp_polyrat_t b(a);
+  iss >> std::ws;
+  iss >> b.numer;
+  if (iss.fail()) {
+    return iss;
   }
-
-  iss >> a.numer;
-  if (iss.eof()) {
-    a.denom = a.numer.prime_subfield_element(1);
-  } else if (iss.peek() == '/') {
+  b.denom = b.numer.prime_subfield_element(1);
+  if (!iss.eof() && iss.peek() == '/') {
     (void)iss.get();
-    iss >> a.denom;
-  } else {
-    // Clear failure code from not having found the '/'.
-    iss.clear();
-    a.denom = a.numer.prime_subfield_element(1);
+    iss >> b.denom;
+    if (iss.fail()) {
+      return iss;
+    }
+    if (b.denom == 0) {
+      iss.setstate(std::ios::failbit);
+      return iss;
+    }
   }
-  a.simplify();
+  b.simplify();
+  a = b;
   return iss;
 }
 
-// ----------------------------------------------------------------
+
 bool fp_polyrat_t::from_string(const std::string &string, int p) {
-  this->numer = spffl::polynomials::fp_poly_t(spffl::intmath::intmod_t(0, p));
-  this->denom = spffl::polynomials::fp_poly_t(spffl::intmath::intmod_t(1, p));
+  fp_polyrat_t a;
+  a.numer = spffl::polynomials::fp_poly_t(spffl::intmath::intmod_t(0, p));
+  a.denom = spffl::polynomials::fp_poly_t(spffl::intmath::intmod_t(1, p));
   std::istringstream iss(string, std::ios_base::in);
-  iss >> *this;
-  return iss.fail() ? false : true;
+  iss >> a;
+  if (iss.fail() || !(iss >> std::ws).eof()) {
+    return false;
+  }
+  *this = a;
+  return true;
 }
 
 // ----------------------------------------------------------------
-- 
2.43.0


From cd98033ae06c6acd0212d7f6de5c32ab40efca0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:00 +0000
Subject: [PATCH 54/84] fix: text without a numerator was read as an F2^n
 rational function

---
 spffl/rationals/f2n_polyrat_t.cpp | 102 ++++++++++++++----------------
 1 file changed, 47 insertions(+), 55 deletions(-)

diff --git a/spffl/rationals/f2n_polyrat_t.cpp b/spffl/rationals/f2n_polyrat_t.cpp
index c81e816..5282d6b 100644
--- a/spffl/rationals/f2n_polyrat_t.cpp
+++ b/spffl/rationals/f2n_polyrat_t.cpp
@@ -184,79 +184,71 @@ std::ostream &operator<<(std::ostream &os, const f2n_polyrat_t &a) {
 
 // ----------------------------------------------------------------
 std::istream &operator>>(std::istream &is, f2n_polyrat_t &a) {
-  // Attempt to skip over whitespace.
-  // The istringstream class appears to permit no way to ignore a set of
-  // characters.  E.g. if the input is 0, space, tab, space, 1, then the
-  // following won't suffice.
-
-  while (is.peek() == ' ') {
-    is.ignore(1, ' ');
-  }
-  while (is.peek() == '\t') {
-    is.ignore(1, '\t');
-  }
-  while (is.peek() == '\n') {
-    is.ignore(1, '\n');
-  }
-
-  is >> a.numer;
-  if (is.eof()) {
-    a.denom = a.numer.prime_subfield_element(1);
+  // The target is left as it was unless the text can be scanned.
+  f2n_polyrat_t b(a);
+  is >> std::ws;
+  is >> b.numer;
+  if (is.fail()) {
+    return is;
   }
-  if (is.peek() == '/') {
+  b.denom = b.numer.prime_subfield_element(1);
+  if (!is.eof() && is.peek() == '/') {
     (void)is.get();
-    is >> a.denom;
-  } else {
-    // Clear failure code from not having found the '/'.
-    is.clear();
-    a.denom = a.numer.prime_subfield_element(1);
+    is >> b.denom;
+    if (is.fail()) {
+      return is;
+    }
+    if (b.denom == 0) {
+      is.setstate(std::ios::failbit);
+      return is;
+    }
   }
-  a.simplify();
+  b.simplify();
+  a = b;
   return is;
 }
 
-// ----------------------------------------------------------------
-std::istringstream &operator>>(std::istringstream &iss, f2n_polyrat_t &a) {
-  // Attempt to skip over whitespace.
-  // The istringstream class appears to permit no way to ignore a set of
-  // characters.  E.g. if the input is 0, space, tab, space, 1, then the
-  // following won't suffice.
 
-  while (iss.peek() == ' ') {
-    iss.ignore(1, ' ');
-  }
-  while (iss.peek() == '\t') {
-    iss.ignore(1, '\t');
-  }
-  while (iss.peek() == '\n') {
-    iss.ignore(1, '\n');
+std::istringstream &operator>>(std::istringstream &iss, f2n_polyrat_t &a) {
+  // The target is left as it was unless the text can be scanned.
+  f2n_polyrat_t b(a);
+  iss >> std::ws;
+  iss >> b.numer;
+  if (iss.fail()) {
+    return iss;
   }
-
-  iss >> a.numer;
-  if (iss.eof()) {
-    a.denom = a.numer.prime_subfield_element(1);
-  } else if (iss.peek() == '/') {
+  b.denom = b.numer.prime_subfield_element(1);
+  if (!iss.eof() && iss.peek() == '/') {
     (void)iss.get();
-    iss >> a.denom;
-  } else {
-    // Clear failure code from not having found the '/'.
-    iss.clear();
-    a.denom = a.numer.prime_subfield_element(1);
+    iss >> b.denom;
+    if (iss.fail()) {
+      return iss;
+    }
+    if (b.denom == 0) {
+      iss.setstate(std::ios::failbit);
+      return iss;
+    }
   }
-  a.simplify();
+  b.simplify();
+  a = b;
   return iss;
 }
 
-// ----------------------------------------------------------------
+
 bool f2n_polyrat_t::from_string(
     const std::string &string, spffl::polynomials::f2_poly_t m) {
-  this->numer = spffl::polynomials::f2n_poly_t(
+  f2n_polyrat_t a;
+  a.numer = spffl::polynomials::f2n_poly_t(
       spffl::polynomials::f2_polymod_t(spffl::polynomials::f2_poly_t(0), m));
-  this->denom = spffl::polynomials::f2n_poly_t(
+  a.denom = spffl::polynomials::f2n_poly_t(
       spffl::polynomials::f2_polymod_t(spffl::polynomials::f2_poly_t(1), m));
   std::istringstream iss(string, std::ios_base::in);
-  iss >> *this;
-  return iss.fail() ? false : true;
+  iss >> a;
+  if (iss.fail() || !(iss >> std::ws).eof()) {
+    return false;
+  }
+  *this = a;
+  return true;
 }
 
 // ----------------------------------------------------------------
-- 
2.43.0


From 68c53a036c39690c39b87d6339c066874e74c563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:00 +0000
Subject: [PATCH 55/84] fix: text with trailing garbage is not an F2 polynomial

---
 spffl/polynomials/f2_poly_t.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/spffl/polynomials/f2_poly_t.cpp b/spffl/polynomials/f2_poly_t.cpp
index 2f132bc..3135a83 100644
--- a/spffl/polynomials/f2_poly_t.cpp
+++ b/spffl/polynomials/f2_poly_t.cpp
@@ -67,9 +67,13 @@ f2_poly_t f2_poly_t::from_base_rep(uint64_t b) {
 // ----------------------------------------------------------------
 bool f2_poly_t::from_string(const std::string &string) {
   std::istringstream iss(string, std::ios_base::in);
-  iss >> *this;
-  // return iss.fail() ? 0 : iss.eof() ? 0 : 1;
-  return iss.fail() ? false : true;
+  f2_poly_t a;
+  iss >> a;
+  if (iss.fail() || !(iss >> std::ws).eof()) {
+    return false;
+  }
+  *this = a;
+  return true;
 }
 
 // ----------------------------------------------------------------
-- 
2.43.0


From a93cd41f47707b17b1bf09111305107fc5783725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:00 +0000
Subject: [PATCH 56/84] fix: text with trailing garbage is not an F2 polynomial
 residue

---
 spffl/polynomials/f2_polymod_t.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spffl/polynomials/f2_polymod_t.cpp b/spffl/polynomials/f2_polymod_t.cpp
index befefb0..f3e2901 100644
--- a/spffl/polynomials/f2_polymod_t.cpp
+++ b/spffl/polynomials/f2_polymod_t.cpp
@@ -198,7 +198,7 @@ bool f2_polymod_t::from_string(const std::string &string, const f2_poly_t &m) {
   f2_poly_t r;
   std::istringstream iss(string, std::ios_base::in);
   iss >> r;
-  if (iss.fail()) {
+  if (iss.fail() || !(iss >> std::ws).eof()) {
     return false;
   } else {
     *this = f2_polymod_t(r, m);
-- 
2.43.0


From c1607a328098acb0c6bc644daf9b2cd1cd1a33ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:15 +0000
Subject: [PATCH 57/84] fix: vectors longer than 2047 characters could not be
 read from text

---
 spffl/bits/bit_vector_t.cpp | 4 ++--
 spffl/containers/tvector.h  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/spffl/bits/bit_vector_t.cpp b/spffl/bits/bit_vector_t.cpp
index 758cffb..0a6052e 100644
--- a/spffl/bits/bit_vector_t.cpp
+++ b/spffl/bits/bit_vector_t.cpp
@@ -152,8 +152,8 @@ std::ostream &operator<<(std::ostream &os, const bit_vector_t &v) {
 // ----------------------------------------------------------------
 std::istream &operator>>(std::istream &is, bit_vector_t &v) {
   // Read a line and use istringstream >>.
-  char line[2048];
-  is.getline(line, sizeof(line));
+  std::string line;
+  std::getline(is, line);
   std::istringstream iss(line, std::ios_base::in);
   iss >> v;
   if (iss.fail()) {
diff --git a/spffl/containers/tvector.h b/spffl/containers/tvector.h
index 3f59af3..26ed20a 100644
--- a/spffl/containers/tvector.h
+++ b/spffl/containers/tvector.h
@@ -540,8 +540,8 @@ static std::ostream &operator<<(
 template <class element_type>
 static std::istream &operator>>(std::istream &is, tvector<element_type> &v) {
   // Read a line and use istringstream >>.
-  char line[2048];
-  is.getline(line, sizeof(line));
+  std::string line;
+  std::getline(is, line);
   std::istringstream iss(line, std::ios_base::in);
   iss >> v;
   if (iss.fail()) {
-- 
2.43.0


From 7ea619b9d7333f6ae155461f6b5568e422e56b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:15 +0000
Subject: [PATCH 58/84] fix: reading a vector: trailing whitespace is no
 element, malformed text leaves the target intact

---
 spffl/containers/tvector.h | 51 +++++++++++++++++---------------------
 1 file changed, 23 insertions(+), 28 deletions(-)

diff --git a/spffl/containers/tvector.h b/spffl/containers/tvector.h
index 26ed20a..529113a 100644
--- a/spffl/containers/tvector.h
+++ b/spffl/containers/tvector.h
@@ -12,6 +12,8 @@
 #include <iostream>
 #include <sstream>
 #include <string.h>
+#include <string>
+#include <vector>
 template <class element_type> class tvector;
 template <class element_type> class tmatrix;
 #include "spffl/containers/tmatrix.h"
@@ -559,10 +561,6 @@ static std::istream &operator>>(std::istream &is, tvector<element_type> &v) {
 template <class element_type>
 static std::istringstream &operator>>(
     std::istringstream &iss, tvector<element_type> &v) {
-  const int init_size = 10;
-  const int more_size = 10;
-  int alloc_size      = init_size;
-
   if (!v.elements || (v.num_elements < 1)) {
     iss.setstate(std::ios::badbit);
     std::stringstream ss;
@@ -571,39 +569,36 @@ static std::istringstream &operator>>(
   }
 
   element_type zero = v.elements[0] - v.elements[0];
-  if (v.elements) {
-    delete[] v.elements;
-  }
-  v.elements     = 0;
-  v.num_elements = 0;
 
-  v.elements = new element_type[alloc_size];
+  // The vector is left as it was unless all of its elements can be scanned.
+  std::vector<element_type> elements;
   while (1) {
-    if (iss.eof()) {
-      break;
-    }
-
-    // xxx append method w/ optional #growth arg
-    if (v.num_elements >= alloc_size) {
-      alloc_size += more_size;
-      element_type *ptemp = new element_type[alloc_size];
-      for (int i = 0; i < v.num_elements; i++) {
-        ptemp[i] = v.elements[i];
-      }
-      delete[] v.elements;
-      v.elements = ptemp;
-    }
-    v.elements[v.num_elements] = zero; // E.g. set modulus.
-    iss >> v.elements[v.num_elements];
+    element_type element = zero; // E.g. set modulus.
+    iss >> element;
     if (iss.fail()) {
       std::stringstream ss;
       ss << "tvector istringstream >>: scan failure"
-         << " at vector element " << v.num_elements << ".\n";
+         << " at vector element " << elements.size() << ".\n";
       ss << "String: <<" << iss.str() << ">>\n";
       ss << "Position: " << iss.tellg() << "\n";
       return iss;
     }
-    v.num_elements++;
+    elements.push_back(element);
+
+    // Trailing whitespace is not an element.
+    if (!iss.eof()) {
+      iss >> std::ws;
+    }
+    if (iss.eof()) {
+      break;
+    }
+  }
+
+  delete[] v.elements;
+  v.num_elements = elements.size();
+  v.elements     = new element_type[v.num_elements];
+  for (int i = 0; i < v.num_elements; i++) {
+    v.elements[i] = elements[i];
   }
 
   return iss;
-- 
2.43.0


From ac728dedfed1771b7751ae53d2628e2da038799b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:15 +0000
Subject: [PATCH 59/84] fix: reading a bit vector: trailing whitespace is no
 element, malformed text leaves the target intact

---
 spffl/bits/bit_vector_t.cpp | 54 ++++++++++++++-----------------------
 1 file changed, 20 insertions(+), 34 deletions(-)

diff --git a/spffl/bits/bit_vector_t.cpp b/spffl/bits/bit_vector_t.cpp
index 0a6052e..f7f31dc 100644
--- a/spffl/bits/bit_vector_t.cpp
+++ b/spffl/bits/bit_vector_t.cpp
@@ -9,6 +9,8 @@
 #include "spffl/bits/count_bits.h"
 #include "spffl/intmath/log2.h"
 #include <string.h>
+#include <string>
+#include <vector>
 
 namespace spffl::bits {
 
@@ -164,51 +166,35 @@ std::istream &operator>>(std::istream &is, bit_vector_t &v) {
 
 // ----------------------------------------------------------------
 std::istringstream &operator>>(std::istringstream &iss, bit_vector_t &v) {
-  const int init_size = 8;
-  const int more_size = 8;
-  int alloc_size      = init_size;
-  int bit;
-
-  if (v.words) {
-    delete[] v.words;
-  }
-  v.words     = new uint64_t[alloc_size];
-  v.num_words = 0;
-  v.num_bits  = 0;
-  for (int i = 0; i < alloc_size; i++) {
-    v.words[i] = 0;
-  }
+  // The vector is left as it was unless all of its elements can be scanned.
+  std::vector<int> bits;
   while (1) {
-    if (iss.eof()) {
-      break;
-    }
-    if (v.num_words >= alloc_size) {
-      alloc_size += more_size;
-      uint64_t *ptemp = new uint64_t[alloc_size];
-      for (int i = 0; i < v.num_words; i++) {
-        ptemp[i] = v.words[i];
-      }
-      for (int i = v.num_words; i < alloc_size; i++) {
-        ptemp[i] = 0;
-      }
-      delete[] v.words;
-      v.words = ptemp;
-    }
+    int bit;
     iss >> bit;
     if (iss.fail()) {
       std::stringstream ss;
       ss << "bit_vector_t istringstream >>: scan failure"
-         << " at vector element " << v.num_bits << ".\n";
+         << " at vector element " << bits.size() << ".\n";
       ss << "String: <<" << iss.str() << ">>\n";
       ss << "Position: " << iss.tellg() << "\n";
       return iss;
     }
-    if (bit & 1) {
-      SET_BIT(v.words, v.num_bits);
+    bits.push_back(bit & 1);
+
+    // Trailing whitespace is not an element.
+    if (!iss.eof()) {
+      iss >> std::ws;
+    }
+    if (iss.eof()) {
+      break;
     }
-    v.num_bits++;
-    v.num_words = (v.num_bits + BITS_PER_WORD - 1) >> BITS_SHIFT;
   }
+
+  bit_vector_t w(bits.size());
+  for (int i = 0; i < w.num_bits; i++) {
+    w.set(i, bits[i]);
+  }
+  v = w;
   return iss;
 }
 
-- 
2.43.0


From e6388df9a6ae01c164dce78af58984fda301665b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:15 +0000
Subject: [PATCH 60/84] fix: reading a bit matrix: reset the target, take lines
 of any length, keep an unterminated last line

---
 spffl/bits/bit_matrix_t.cpp | 70 +++++++++++++------------------------
 1 file changed, 25 insertions(+), 45 deletions(-)

diff --git a/spffl/bits/bit_matrix_t.cpp b/spffl/bits/bit_matrix_t.cpp
index 96f0a55..7271ff3 100644
--- a/spffl/bits/bit_matrix_t.cpp
+++ b/spffl/bits/bit_matrix_t.cpp
@@ -10,7 +10,9 @@
 #include <limits>
 #include <stdlib.h>
 #include <string.h>
+#include <string>
 #include <unistd.h>
+#include <vector>
 namespace spffl::bits {
 
 // ----------------------------------------------------------------
@@ -197,46 +199,18 @@ std::ostream &operator<<(std::ostream &os, const bit_matrix_t &m) {
 
 // ----------------------------------------------------------------
 std::istream &operator>>(std::istream &is, bit_matrix_t &m) {
-  char line[8192];
-  const int init_num_rows = 40;
-  const int more_num_rows = 40;
-  int alloc_num_rows      = init_num_rows;
-  m.rows                  = new bit_vector_t[init_num_rows];
-
-  while (1) {
-    if (is.eof()) {
-      break;
-    }
-
-    if (m.num_rows >= alloc_num_rows) {
-      alloc_num_rows += more_num_rows;
-      bit_vector_t *ptemp = new bit_vector_t[alloc_num_rows];
-      for (int i = 0; i < m.num_rows; i++) {
-        ptemp[i] = m.rows[i];
-      }
-      delete[] m.rows;
-      m.rows = ptemp;
-    }
-
-    // Read a line of text.
-    is.getline(line, sizeof(line));
-    if (is.eof()) {
-      is.clear();
-      break;
-    } else if (is.fail()) {
-      break;
-    }
+  // The matrix is left as it was unless the text can be scanned.
+  std::vector<bit_vector_t> rows;
+  std::string text;
 
+  while (std::getline(is, text)) {
     // Allow comments.
-    char *phash = strstr(line, "#");
-    if (phash) {
-      *phash = 0;
-    }
+    std::string line = text.substr(0, text.find('#'));
 
     // Allow multiple matrices in the same stream, delimited by
     // carriage returns.
-    if (spffl::base::is_whitespace_line(line)) {
-      if (m.num_rows == 0) {
+    if (spffl::base::is_whitespace_line(&line[0])) {
+      if (rows.empty()) {
         continue;
       } else {
         break;
@@ -245,23 +219,22 @@ std::istream &operator>>(std::istream &is, bit_matrix_t &m) {
 
     // Use bit_vector_t istringstream >> to scan the line of text
     // as a row vector.
+    bit_vector_t row;
     std::istringstream iss(line, std::ios_base::in);
-    iss >> m.rows[m.num_rows];
+    iss >> row;
     if (iss.fail()) {
       is.setstate(std::ios::failbit);
       std::stringstream ss;
       ss << "bit_matrix_t scan failure: \"" << line << "\"\n";
       return is;
     }
-
-    m.num_rows++;
+    rows.push_back(row);
   }
-
-  if (is.peek() == EOF) {
-    is.setstate(std::ios::eofbit);
+  if (is.eof()) {
+    is.clear();
   }
 
-  if (m.num_rows == 0) {
+  if (rows.empty()) {
     is.setstate(std::ios::badbit);
     std::stringstream ss;
     ss << "bit_matrix_t >>:  zero-row matrix.\n";
@@ -270,8 +243,8 @@ std::istream &operator>>(std::istream &is, bit_matrix_t &m) {
 
   int min_cols = 0x7fffffff;
   int max_cols = 0;
-  for (int i = 0; i < m.num_rows; i++) {
-    int cur_cols = m.rows[i].get_num_elements();
+  for (const bit_vector_t &row : rows) {
+    int cur_cols = row.get_num_elements();
     if (cur_cols > max_cols) {
       max_cols = cur_cols;
     }
@@ -282,11 +255,18 @@ std::istream &operator>>(std::istream &is, bit_matrix_t &m) {
   if (min_cols != max_cols) {
     is.setstate(std::ios::badbit);
     std::stringstream ss;
-    ss << "bit_matrix_t >>:  ragged input.  # rows = " << m.num_rows
+    ss << "bit_matrix_t >>:  ragged input.  # rows = " << rows.size()
        << " min # cols = " << min_cols << " max # cols = " << max_cols << ".\n";
     return is;
   }
+
+  m.mfree();
+  m.num_rows = rows.size();
   m.num_cols = max_cols;
+  m.rows     = new bit_vector_t[m.num_rows];
+  for (int i = 0; i < m.num_rows; i++) {
+    m.rows[i] = rows[i];
+  }
 
   return is;
 }
-- 
2.43.0


From eba705f5fb834154981830f9c9d0f51c251f7afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:15 +0000
Subject: [PATCH 61/84] fix: reading a matrix: take lines of any length and
 indentation, keep an unterminated last line, leave the target intact on
 failure

---
 spffl/containers/tmatrix.h | 106 +++++++++++++------------------------
 1 file changed, 37 insertions(+), 69 deletions(-)

diff --git a/spffl/containers/tmatrix.h b/spffl/containers/tmatrix.h
index 52566ca..f526ff4 100644
--- a/spffl/containers/tmatrix.h
+++ b/spffl/containers/tmatrix.h
@@ -16,6 +16,8 @@
 #include <stdlib.h>
 #include <limits>
 #include <string.h>
+#include <string>
+#include <vector>
 
 template <typename element_type> class tmatrix;
 
@@ -111,6 +113,23 @@ public:
     return true;
   }
 
+  // ----------------------------------------------------------------
+  // Replaces the matrix by the given rows, unless they are ragged.
+  bool set_rows(const std::vector<tvector<element_type>> &new_rows) {
+    tmatrix<element_type> that;
+    that.num_rows = new_rows.size();
+    that.rows     = new tvector<element_type>[that.num_rows];
+    for (int i = 0; i < that.num_rows; i++) {
+      that.rows[i] = new_rows[i];
+    }
+    // Sets num_cols too.
+    if (!that.check_ragged()) {
+      return false;
+    }
+    *this = that;
+    return true;
+  }
+
   // ----------------------------------------------------------------
   // The matrix must already contain at least one element.  See the comment
   // above the istream operator.
@@ -1701,73 +1720,27 @@ static std::ostream &operator<<(
 // element (yuk).
 template <typename element_type>
 static std::istream &operator>>(std::istream &is, tmatrix<element_type> &m) {
-  const int tmx_buf_size = 65536;
-  char *line             = new char[tmx_buf_size];
-  char *pline            = line;
-
-  // Make sure the matrix already contains an element.  Remember it,
-  // then free the old matrix contents.
+  // Make sure the matrix already contains an element.  Remember it.
   if (!m.rows || (m.num_rows < 1) || (m.num_cols < 1)) {
     is.setstate(std::ios::badbit);
     std::stringstream ss;
     ss << "tmatrix >>:  must already have one element.\n";
-    delete[] line;
     return is;
   }
   element_type zero = m.rows[0][0] - m.rows[0][0];
-  m.mfree();
-
-  const int init_num_rows = 10;
-  const int more_num_rows = 10;
-  int alloc_num_rows      = init_num_rows;
-  m.rows                  = new tvector<element_type>[init_num_rows];
 
-  while (1) {
-    if (is.eof()) {
-      break;
-    }
-
-    if (m.num_rows >= alloc_num_rows) {
-      alloc_num_rows += more_num_rows;
-      tvector<element_type> *ptemp = new tvector<element_type>[alloc_num_rows];
-      for (int i = 0; i < m.num_rows; i++) {
-        ptemp[i] = m.rows[i];
-      }
-      delete[] m.rows;
-      m.rows = ptemp;
-    }
-
-    // Read a line of text.
-    is.getline(pline, tmx_buf_size);
-    if (is.eof()) {
-      is.clear();
-      break;
-    } else if (is.fail()) {
-      break;
-    }
+  // The matrix is left as it was unless the text can be scanned.
+  std::vector<tvector<element_type>> rows;
+  std::string text;
 
+  while (std::getline(is, text)) {
     // Allow comments.
-    char *phash = strstr(pline, "#");
-    if (phash) {
-      *phash = 0;
-    }
-
-    // Strip leading whitespace.
-    while (isspace(pline[0])) {
-      pline++;
-    }
-
-    // Strip trailing whitespace.
-    int len = strlen(pline);
-    while ((len > 0) && isspace(pline[len - 1])) {
-      pline[len - 1] = 0;
-      len--;
-    }
+    std::string line = text.substr(0, text.find('#'));
 
     // Allow multiple matrices in the same stream, delimited by
     // carriage returns.
-    if (spffl::base::is_whitespace_line(pline)) {
-      if (m.num_rows == 0) {
+    if (spffl::base::is_whitespace_line(&line[0])) {
+      if (rows.empty()) {
         continue;
       } else {
         break;
@@ -1775,43 +1748,38 @@ static std::istream &operator>>(std::istream &is, tmatrix<element_type> &m) {
     }
 
     // E.g. set modulus.
-    m.rows[m.num_rows] = zero;
+    tvector<element_type> row(zero, 1);
 
     // Use tvector istringstream >> to scan the line of text as a
     // row vector.
-    std::istringstream iss(pline, std::ios_base::in);
-    iss >> m.rows[m.num_rows];
+    std::istringstream iss(line, std::ios_base::in);
+    iss >> row;
     if (iss.fail()) {
       is.setstate(std::ios::failbit);
       std::stringstream ss;
-      ss << "tmatrix scan failure: \"" << pline << "\"\n";
-      delete[] line;
+      ss << "tmatrix scan failure: \"" << line << "\"\n";
       return is;
     }
-
-    m.num_rows++;
+    rows.push_back(row);
+  }
+  if (is.eof()) {
+    is.clear();
   }
 
   if (is.peek() == EOF) {
     is.setstate(std::ios::eofbit);
   }
 
-  if (m.num_rows == 0) {
+  if (rows.empty()) {
     is.setstate(std::ios::badbit);
     std::stringstream ss;
     ss << "tmatrix >>:  zero-row matrix.\n";
-    delete[] line;
     return is;
   }
 
-  // Sets num_cols too.
-  if (!m.check_ragged()) {
+  if (!m.set_rows(rows)) {
     is.setstate(std::ios::badbit);
-    delete[] line;
-    return is;
   }
-
-  delete[] line;
   return is;
 }
 
-- 
2.43.0


From 10a46e9721730908b799b474d13153ade4bb834e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:15 +0000
Subject: [PATCH 62/84] fix: text outside the brackets of a vector literal was
 ignored

---
 spffl/containers/tvector.h | 30 +++++++++---------------------
 1 file changed, 9 insertions(+), 21 deletions(-)

diff --git a/spffl/containers/tvector.h b/spffl/containers/tvector.h
index 529113a..5058fdc 100644
--- a/spffl/containers/tvector.h
+++ b/spffl/containers/tvector.h
@@ -144,31 +144,19 @@ public:
   // elements, e.g. "1 2 3".  The bracket_in() method, by contrast, expects
   // whitespace-delimited elements, surrounded by brackets:  e.g. "[1 2 3]".
   bool bracket_in(char *string) {
-    char *copy = strdup(string);
-
-    char *pleft = strchr(copy, '[');
-    if (pleft == 0) {
-      free(copy);
+    // Only whitespace is allowed outside of the brackets.
+    std::string copy(string);
+    size_t left  = copy.find_first_not_of(" \t\n");
+    size_t right = copy.find_last_not_of(" \t\n");
+    if ((left == std::string::npos) || (left == right) ||
+        (copy[left] != '[') || (copy[right] != ']')) {
       return false;
     }
-    pleft++;
 
-    char *pright = strrchr(pleft, ']');
-    if (pright == 0) {
-      free(copy);
-      return false;
-    }
-    *pright = 0;
-
-    std::istringstream iss(pleft, std::ios_base::in);
+    std::istringstream iss(
+        copy.substr(left + 1, right - left - 1), std::ios_base::in);
     iss >> *this;
-    if (iss.fail()) {
-      free(copy);
-      return false;
-    }
-
-    free(copy);
-    return true;
+    return !iss.fail();
   }
 
   // ----------------------------------------------------------------
-- 
2.43.0


From 7b26de93ac713d3fd90aecfa2d1c001081de6f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:15 +0000
Subject: [PATCH 63/84] fix: text between and outside the brackets of a matrix
 literal was ignored

---
 spffl/containers/tmatrix.h | 88 ++++++++++++--------------------------
 1 file changed, 27 insertions(+), 61 deletions(-)

diff --git a/spffl/containers/tmatrix.h b/spffl/containers/tmatrix.h
index f526ff4..328cd7a 100644
--- a/spffl/containers/tmatrix.h
+++ b/spffl/containers/tmatrix.h
@@ -202,98 +202,64 @@ public:
   // is treated as an n x 1 matrix (column vector).
 
   bool bracket_in(char *string) {
-    // Make sure the matrix already contains an element.  Remember it,
-    // then free the old matrix contents.
+    // Make sure the matrix already contains an element.  Remember it.
     if (!this->rows || (this->num_rows < 1) || (this->num_cols < 1)) {
       std::stringstream ss;
       ss << "tmatrix::bracket_in:  must already have one element.\n";
       return false;
     }
     element_type zero = this->rows[0][0] - this->rows[0][0];
-    this->mfree();
 
-    char *copy       = strdup(string);
-    char *pouterleft = strchr(copy, '[');
-    if (pouterleft == 0) {
+    // Only whitespace is allowed outside of the brackets.
+    const char *spaces = " \t\n";
+    std::string copy(string);
+    size_t left  = copy.find_first_not_of(spaces);
+    size_t right = copy.find_last_not_of(spaces);
+    if ((left == std::string::npos) || (copy[left] != '[')) {
       std::stringstream ss;
       ss << "tmatrix::bracket_in:  couldn't find leading left bracket.\n";
-      free(copy);
       return false;
     }
-    char *pinnerstart = pouterleft + 1;
-    while ((*pinnerstart == ' ') || (*pinnerstart == '\t')) {
-      pinnerstart++;
-    }
-
-    char *pouterright = strrchr(pouterleft, ']');
-    if (pouterright == 0) {
+    if ((left == right) || (copy[right] != ']')) {
       std::stringstream ss;
       ss << "tmatrix::bracket_in:  couldn't find trailing right bracket.\n";
-      free(copy);
       return false;
     }
-    *pouterright = 0;
+    std::string inner = copy.substr(left + 1, right - left - 1);
 
-    if (strchr(pinnerstart, '[')) {
+    // The matrix is left as it was unless the text can be scanned.
+    std::vector<tvector<element_type>> rows;
+    if (inner.find('[') != std::string::npos) {
       // There are nested brackets.
-      this->num_rows = spffl::base::count_tokens(pinnerstart, "[");
-      this->rows     = new tvector<element_type>[this->num_rows];
-      char **stringv = new char *[this->num_rows];
-      (void)spffl::base::tokenize(pinnerstart, "[", stringv, this->num_rows);
-
-      for (int i = 0; i < this->num_rows; i++) {
-        char *rowcopy = new char[strlen(stringv[i]) + 2];
-        strcpy(rowcopy, "[");
-        strcat(rowcopy, stringv[i]);
-        this->rows[i] = zero;
-        if (!this->rows[i].bracket_in(rowcopy)) {
+      size_t start = inner.find_first_not_of(spaces);
+      while (start != std::string::npos) {
+        size_t end = inner.find(']', start);
+        end        = (end == std::string::npos) ? inner.length() : end + 1;
+        tvector<element_type> row(zero, 1);
+        std::string rowcopy = inner.substr(start, end - start);
+        if (!row.bracket_in(&rowcopy[0])) {
           std::stringstream ss;
-          ss << "tmatrix::bracket_in:  couldn't read row " << i << ".\n";
-          delete[] rowcopy;
-          delete[] stringv;
-          free(copy);
+          ss << "tmatrix::bracket_in:  couldn't read row " << rows.size()
+             << ".\n";
           return false;
         }
-        delete[] rowcopy;
-      }
-
-      // Sets this->num_cols.
-      if (!this->check_ragged()) {
-        // Error message already printed out.
-        delete[] stringv;
-        free(copy);
-        return false;
+        rows.push_back(row);
+        start = inner.find_first_not_of(spaces, end);
       }
-      delete[] stringv;
     } else {
       // There are no nested brackets; scan as column vector.
       tvector<element_type> column(zero, 1);
-      tvector<element_type> temp(zero, 1);
-      std::istringstream iss(pinnerstart, std::ios_base::in);
+      std::istringstream iss(inner, std::ios_base::in);
       iss >> column;
       if (iss.fail()) {
-        free(copy);
         return false;
       }
-
-      this->num_rows = column.get_num_elements();
-      this->num_cols = 1;
-
-      // Non-void ctor to array new now violates ANSI standard.
-      // this->rows = new tvector<element_type>[this->num_rows](zero, 1);
-      // for (int i = 0; i < this->num_rows; i++)
-      // this->rows[i][0] = column[i];
-      this->rows = new tvector<element_type>[this->num_rows];
-      for (int i = 0; i < this->num_rows; i++) {
-        this->rows[i] = temp;
-      }
-      for (int i = 0; i < this->num_rows; i++) {
-        this->rows[i][0] = column[i];
+      for (int i = 0; i < column.get_num_elements(); i++) {
+        rows.push_back(tvector<element_type>(column[i], 1));
       }
     }
 
-    free(copy);
-    return true;
+    return this->set_rows(rows);
   }
 
   // ----------------------------------------------------------------
-- 
2.43.0


From b0dfb4df5635edad4a1c9ccfc866d998cb77be03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:57 +0000
Subject: [PATCH 64/84] fix: reading malformed F2^n polynomial text left an
 unnormalised polynomial

---
 spffl/polynomials/f2n_poly_t.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/spffl/polynomials/f2n_poly_t.cpp b/spffl/polynomials/f2n_poly_t.cpp
index 6953cb2..c952a94 100644
--- a/spffl/polynomials/f2n_poly_t.cpp
+++ b/spffl/polynomials/f2n_poly_t.cpp
@@ -816,7 +816,7 @@ std::ostream &operator<<(std::ostream &os, const f2n_poly_t &poly) {
 std::istream &operator>>(std::istream &is, f2n_poly_t &poly) {
   f2_poly_t r;
   f2_poly_t m = poly.coeffs[0].get_modulus();
-  poly        = f2n_poly_t(f2_polymod_t(0, m));
+  f2n_poly_t new_poly(f2_polymod_t(0, m));
 
   if (m <= 10) {
     char c;
@@ -832,11 +832,11 @@ std::istream &operator>>(std::istream &is, f2n_poly_t &poly) {
       return is;
     }
     r              = c - '0';
-    poly.coeffs[0] = f2_polymod_t(r, m);
+    new_poly.coeffs[0] = f2_polymod_t(r, m);
 
     while (isdigit(is.peek())) {
       r = c - '0';
-      poly.promote_and_add(f2_polymod_t(r, m));
+      new_poly.promote_and_add(f2_polymod_t(r, m));
     }
   } else {
     is >> r;
@@ -845,7 +845,7 @@ std::istream &operator>>(std::istream &is, f2n_poly_t &poly) {
       ss << "f2n_poly_t: scan failure.\n";
       return is;
     }
-    poly.coeffs[0] = f2_polymod_t(r, m);
+    new_poly.coeffs[0] = f2_polymod_t(r, m);
     while (is.peek() == ':') {
       (void)is.get();
       is >> r;
@@ -854,10 +854,11 @@ std::istream &operator>>(std::istream &is, f2n_poly_t &poly) {
         ss << "f2n_poly_t: scan failure.\n";
         return is;
       }
-      poly.promote_and_add(f2_polymod_t(r, m));
+      new_poly.promote_and_add(f2_polymod_t(r, m));
     }
   }
-  poly.recompute_degree();
+  new_poly.recompute_degree();
+  poly = new_poly;
   return is;
 }
 
@@ -867,7 +868,7 @@ std::istream &operator>>(std::istream &is, f2n_poly_t &poly) {
 std::istringstream &operator>>(std::istringstream &iss, f2n_poly_t &poly) {
   f2_poly_t r;
   f2_poly_t m = poly.coeffs[0].get_modulus();
-  poly        = f2n_poly_t(f2_polymod_t(0, m));
+  f2n_poly_t new_poly(f2_polymod_t(0, m));
 
   iss >> r;
   if (iss.fail()) {
@@ -875,7 +876,7 @@ std::istringstream &operator>>(std::istringstream &iss, f2n_poly_t &poly) {
     ss << "f2n_poly_t: scan failure at \"" << iss.str() << "\"\n";
     return iss;
   }
-  poly.coeffs[0] = f2_polymod_t(r, m);
+  new_poly.coeffs[0] = f2_polymod_t(r, m);
   while (!iss.eof() && (iss.peek() == ':')) {
     (void)iss.get();
     iss >> r;
@@ -884,10 +885,11 @@ std::istringstream &operator>>(std::istringstream &iss, f2n_poly_t &poly) {
       ss << "f2n_poly_t: scan failure at \"" << iss.str() << "\"\n";
       return iss;
     }
-    poly.promote_and_add(f2_polymod_t(r, m));
+    new_poly.promote_and_add(f2_polymod_t(r, m));
   }
 
-  poly.recompute_degree();
+  new_poly.recompute_degree();
+  poly = new_poly;
   return iss;
 }
 
-- 
2.43.0


From 39a4b0b4c35667458d7adbe8febe936b17aceab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:57 +0000
Subject: [PATCH 65/84] fix: reading malformed Fp^n polynomial text left an
 unnormalised polynomial

---
 spffl/polynomials/fpn_poly_t.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/spffl/polynomials/fpn_poly_t.cpp b/spffl/polynomials/fpn_poly_t.cpp
index 93bf037..bb80178 100644
--- a/spffl/polynomials/fpn_poly_t.cpp
+++ b/spffl/polynomials/fpn_poly_t.cpp
@@ -783,7 +783,7 @@ std::istream &operator>>(std::istream &is, fpn_poly_t &poly) {
   fp_poly_t r;
   fp_poly_t m        = poly.coeffs[0].get_modulus();
   fp_polymod_t zeroc = poly.coeffs[0].prime_subfield_element(0);
-  poly               = fpn_poly_t(zeroc);
+  fpn_poly_t new_poly(zeroc);
 
   r = m; // set modulus
   is >> r;
@@ -792,7 +792,7 @@ std::istream &operator>>(std::istream &is, fpn_poly_t &poly) {
     ss << "fpn_poly_t: scan failure.\n";
     return is;
   }
-  poly.coeffs[0] = fp_polymod_t(r, m);
+  new_poly.coeffs[0] = fp_polymod_t(r, m);
   while (!is.eof() && is.peek() == ':') {
     (void)is.get();
     is >> r;
@@ -801,10 +801,11 @@ std::istream &operator>>(std::istream &is, fpn_poly_t &poly) {
       ss << "fpn_poly_t: scan failure.\n";
       return is;
     }
-    poly.promote_and_add(fp_polymod_t(r, m));
+    new_poly.promote_and_add(fp_polymod_t(r, m));
   }
 
-  poly.recompute_degree();
+  new_poly.recompute_degree();
+  poly = new_poly;
   return is;
 }
 
-- 
2.43.0


From efad7e3617d212279f48f6869ef7410d9dd6ae13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:06 +0000
Subject: [PATCH 66/84] fix: a 0xff byte after polynomial text was taken for
 the end of the text

---
 spffl/polynomials/fp_poly_t.cpp | 4 ++--
 spffl/polynomials/q_poly_t.cpp  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/spffl/polynomials/fp_poly_t.cpp b/spffl/polynomials/fp_poly_t.cpp
index 5e20082..737eb05 100644
--- a/spffl/polynomials/fp_poly_t.cpp
+++ b/spffl/polynomials/fp_poly_t.cpp
@@ -787,7 +787,7 @@ std::ostream &operator<<(std::ostream &os, const fp_poly_t &poly) {
 std::istream &operator>>(std::istream &is, fp_poly_t &poly) {
   int p = poly.get_characteristic();
   std::stringstream ss;
-  char c;
+  int c;
 
   // Skip over whitespace.
   c = is.peek();
@@ -808,7 +808,7 @@ std::istream &operator>>(std::istream &is, fp_poly_t &poly) {
 
   while (isdigit(c) || (c == ',')) {
     c = is.get();
-    ss << c;
+    ss << (char)c;
     c = is.peek();
     if (c == EOF) {
       is.setstate(std::ios::eofbit);
diff --git a/spffl/polynomials/q_poly_t.cpp b/spffl/polynomials/q_poly_t.cpp
index 53f47f4..da74350 100644
--- a/spffl/polynomials/q_poly_t.cpp
+++ b/spffl/polynomials/q_poly_t.cpp
@@ -678,7 +678,7 @@ std::ostream &operator<<(std::ostream &os, const q_poly_t &poly) {
 // ----------------------------------------------------------------
 std::istream &operator>>(std::istream &is, q_poly_t &poly) {
   std::stringstream ss;
-  char c;
+  int c;
 
   // Skip over whitespace.
   c = is.peek();
@@ -699,7 +699,7 @@ std::istream &operator>>(std::istream &is, q_poly_t &poly) {
 
   while (isdigit(c) || (c == ',') || (c == '-') || (c == '/')) {
     c = is.get();
-    ss << c;
+    ss << (char)c;
     c = is.peek();
     if (c == EOF) {
       is.setstate(std::ios::eofbit);
-- 
2.43.0


From 8b5c11440d988a07c62b08e1c645082a1fadeddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:02 +0000
Subject: [PATCH 67/84] fix: whitespace after comma-free rational polynomial
 text

---
 spffl/polynomials/q_poly_t.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/spffl/polynomials/q_poly_t.cpp b/spffl/polynomials/q_poly_t.cpp
index da74350..aedb2e6 100644
--- a/spffl/polynomials/q_poly_t.cpp
+++ b/spffl/polynomials/q_poly_t.cpp
@@ -722,13 +722,13 @@ std::istream &operator>>(std::istream &is, q_poly_t &poly) {
 // ----------------------------------------------------------------
 bool q_poly_t::from_string(const std::string &string) {
   int num_commas = 0;
-  bool all_digits = true;
+  bool single_digits = true;
   for (const char *q = string.c_str(); *q; q++) {
     if (*q == ',') {
       num_commas++;
     }
-    if (!isdigit((unsigned char)*q)) {
-      all_digits = false;
+    if ((*q == ',') || (*q == '-') || (*q == '/')) {
+      single_digits = false;
     }
   }
 
@@ -736,7 +736,7 @@ bool q_poly_t::from_string(const std::string &string) {
   spffl::intmath::intrat_t *new_coeffs = 0;
   int num_coeffs                       = 0;
 
-  if (all_digits) {
+  if (single_digits) {
     // Allow comma-free input as long as all coefficients are
     // single-digit.
     num_coeffs = string.length();
@@ -746,6 +746,10 @@ bool q_poly_t::from_string(const std::string &string) {
     new_coeffs = new spffl::intmath::intrat_t[num_coeffs];
     int si, ci;
     for (si = 0, ci = num_coeffs - 1; si < num_coeffs; si++, ci--) {
+      if (!isdigit((unsigned char)string[si])) {
+        delete[] new_coeffs;
+        return false;
+      }
       new_coeffs[ci] = spffl::intmath::intrat_t(string[si] - '0');
     }
   } else {
-- 
2.43.0


From 6a4b63496a8adfbda12335d035be894388f58a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:52 +0000
Subject: [PATCH 68/84] fix: an F2^n polynomial at the very end of a stream
 could not be read

---
 spffl/polynomials/f2n_poly_t.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spffl/polynomials/f2n_poly_t.cpp b/spffl/polynomials/f2n_poly_t.cpp
index c952a94..bd9e43b 100644
--- a/spffl/polynomials/f2n_poly_t.cpp
+++ b/spffl/polynomials/f2n_poly_t.cpp
@@ -846,7 +846,7 @@ std::istream &operator>>(std::istream &is, f2n_poly_t &poly) {
       return is;
     }
     new_poly.coeffs[0] = f2_polymod_t(r, m);
-    while (is.peek() == ':') {
+    while (!is.eof() && is.peek() == ':') {
       (void)is.get();
       is >> r;
       if (is.fail()) {
-- 
2.43.0


From 6192920056070a4f30997f3b05e360a9b9d436e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:41 +0000
Subject: [PATCH 69/84] fix: vector elements not separated by whitespace were
 accepted

---
 spffl/bits/bit_vector_t.cpp | 5 +++++
 spffl/containers/tvector.h  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/spffl/bits/bit_vector_t.cpp b/spffl/bits/bit_vector_t.cpp
index f7f31dc..fb1c9ac 100644
--- a/spffl/bits/bit_vector_t.cpp
+++ b/spffl/bits/bit_vector_t.cpp
@@ -8,6 +8,7 @@
 #include "spffl/base/spffl_exception.h"
 #include "spffl/bits/count_bits.h"
 #include "spffl/intmath/log2.h"
+#include <ctype.h>
 #include <string.h>
 #include <string>
 #include <vector>
@@ -183,6 +184,10 @@ std::istringstream &operator>>(std::istringstream &iss, bit_vector_t &v) {
 
     // Trailing whitespace is not an element.
     if (!iss.eof()) {
+      if (!isspace(iss.peek())) {
+        iss.setstate(std::ios::failbit);
+        return iss;
+      }
       iss >> std::ws;
     }
     if (iss.eof()) {
diff --git a/spffl/containers/tvector.h b/spffl/containers/tvector.h
index 5058fdc..621d05b 100644
--- a/spffl/containers/tvector.h
+++ b/spffl/containers/tvector.h
@@ -8,6 +8,7 @@
 #define TVECTOR_H
 
 #include "spffl/base/spffl_exception.h"
+#include <ctype.h>
 #include <fstream>
 #include <iostream>
 #include <sstream>
@@ -575,6 +576,10 @@ static std::istringstream &operator>>(
 
     // Trailing whitespace is not an element.
     if (!iss.eof()) {
+      if (!isspace(iss.peek())) {
+        iss.setstate(std::ios::failbit);
+        return iss;
+      }
       iss >> std::ws;
     }
     if (iss.eof()) {
-- 
2.43.0


From 6227f4b42e4bd2db72cd166f697abaa072dbf36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:17 +0000
Subject: [PATCH 70/84] fix: expressions on the command line accepted numbers
 with trailing text

---
 spffl/cli_parser/cmd_line_matrix_ops.h | 3 ++-
 spffl/cli_parser/cmd_line_ops.h        | 3 ++-
 spffl/cli_parser/cmd_line_vector_ops.h | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/spffl/cli_parser/cmd_line_matrix_ops.h b/spffl/cli_parser/cmd_line_matrix_ops.h
index 782fc9f..7a33e6f 100644
--- a/spffl/cli_parser/cmd_line_matrix_ops.h
+++ b/spffl/cli_parser/cmd_line_matrix_ops.h
@@ -272,7 +272,8 @@ static void matlexan(mat_lex_ctx_t<element_type> &rlex_ctx) {
         }
       }
     }
-    if (iss.fail()) {
+    char extra;
+    if (iss.fail() || (rlex_ctx.in_pow_rhs && iss >> extra)) {
       std::stringstream ss;
       ss << "Scan failure at \"" << s << "\".\n";
       throw spffl::exception_t(ss.str());
diff --git a/spffl/cli_parser/cmd_line_ops.h b/spffl/cli_parser/cmd_line_ops.h
index 0ba4e79..d14caae 100644
--- a/spffl/cli_parser/cmd_line_ops.h
+++ b/spffl/cli_parser/cmd_line_ops.h
@@ -232,7 +232,8 @@ static void lexan(lex_ctx_t<element_type> &rlex_ctx) {
       rlex_ctx.atom.is_int   = false;
       iss >> rlex_ctx.atom.type_val;
     }
-    if (iss.fail()) {
+    char extra;
+    if (iss.fail() || iss >> extra) {
       std::stringstream ss;
       ss << "Scan failure at \"" << s << "\".\n";
       throw spffl::exception_t(ss.str());
diff --git a/spffl/cli_parser/cmd_line_vector_ops.h b/spffl/cli_parser/cmd_line_vector_ops.h
index 2f8b896..c961c46 100644
--- a/spffl/cli_parser/cmd_line_vector_ops.h
+++ b/spffl/cli_parser/cmd_line_vector_ops.h
@@ -218,7 +218,8 @@ static void veclexan(vec_lex_ctx_t<element_type> &rlex_ctx) {
 #endif
       }
     }
-    if (iss.fail()) {
+    char extra;
+    if (iss.fail() || (rlex_ctx.in_pow_rhs && iss >> extra)) {
       std::stringstream ss;
       ss << "Scan failure at \"" << s << "\".\n";
       throw spffl::exception_t(ss.str());
-- 
2.43.0


From 1dd1ff5025be37ce61e917311078d811b6d67de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:17 +0000
Subject: [PATCH 71/84] fix: an expression followed by extraneous text was
 evaluated and printed before being refused

---
 spffl/cli_parser/cmd_line_matrix_ops.h | 5 ++---
 spffl/cli_parser/cmd_line_ops.h        | 4 ++--
 spffl/cli_parser/cmd_line_vector_ops.h | 5 ++---
 3 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/spffl/cli_parser/cmd_line_matrix_ops.h b/spffl/cli_parser/cmd_line_matrix_ops.h
index 7a33e6f..dbac5fd 100644
--- a/spffl/cli_parser/cmd_line_matrix_ops.h
+++ b/spffl/cli_parser/cmd_line_matrix_ops.h
@@ -700,6 +700,8 @@ void cmd_line_mat_parse(
       ss << "Stack underflow.\n";
       throw spffl::exception_t(ss.str());
     }
+    // Check for extraneous text.
+    match<element_type>(lex_ctx, L_EOL);
 
     switch (result.atom_type) {
     case MAT_ATOM:
@@ -717,9 +719,6 @@ void cmd_line_mat_parse(
       throw spffl::exception_t(ss.str());
       break;
     }
-
-    // Check for extraneous text.
-    match<element_type>(lex_ctx, L_EOL);
   }
 }
 
diff --git a/spffl/cli_parser/cmd_line_ops.h b/spffl/cli_parser/cmd_line_ops.h
index d14caae..ba3b298 100644
--- a/spffl/cli_parser/cmd_line_ops.h
+++ b/spffl/cli_parser/cmd_line_ops.h
@@ -656,13 +656,13 @@ void cmd_line_parse(
       ss << "Stack underflow.\n";
       throw spffl::exception_t(ss.str());
     }
+    // Check for extraneous text.
+    match<element_type>(lex_ctx, L_EOL);
     if (result.is_int) {
       std::cout << result.int_val << "\n";
     } else {
       std::cout << result.type_val << "\n";
     }
-    // Check for extraneous text.
-    match<element_type>(lex_ctx, L_EOL);
   }
 }
 
diff --git a/spffl/cli_parser/cmd_line_vector_ops.h b/spffl/cli_parser/cmd_line_vector_ops.h
index c961c46..aae1251 100644
--- a/spffl/cli_parser/cmd_line_vector_ops.h
+++ b/spffl/cli_parser/cmd_line_vector_ops.h
@@ -558,6 +558,8 @@ void cmd_line_vec_parse(
       ss << "Stack underflow.\n";
       throw spffl::exception_t(ss.str());
     }
+    // Check for extraneous text.
+    match<element_type>(lex_ctx, L_EOL);
 
     switch (result.atom_type) {
     case VEC_ATOM:
@@ -575,9 +577,6 @@ void cmd_line_vec_parse(
       throw spffl::exception_t(ss.str());
       break;
     }
-
-    // Check for extraneous text.
-    match<element_type>(lex_ctx, L_EOL);
   }
 }
 
-- 
2.43.0


From c57b8e5fe315b3729c332592fd1a9885a32ef136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:17 +0000
Subject: [PATCH 72/84] fix: z_op division by zero crashed instead of reporting
 an error

---
 spffl/cli_parser/cmd_line_ops.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/spffl/cli_parser/cmd_line_ops.h b/spffl/cli_parser/cmd_line_ops.h
index ba3b298..187d873 100644
--- a/spffl/cli_parser/cmd_line_ops.h
+++ b/spffl/cli_parser/cmd_line_ops.h
@@ -288,6 +288,17 @@ element_type clo_exp(
   return rv;
 }
 
+// ----------------------------------------------------------------
+// Not all element types check for this themselves -- in particular, int.
+template <class element_type>
+static void check_divisor(element_type x, element_type zero) {
+  if (x == zero) {
+    std::stringstream ss;
+    ss << "Division by zero.\n";
+    throw spffl::exception_t(ss.str());
+  }
+}
+
 // ----------------------------------------------------------------
 template <class element_type>
 static void emit(
@@ -389,9 +400,11 @@ static void emit(
     c.type_val = a.type_val * b.type_val;
     break;
   case L_DIV:
+    check_divisor(b.type_val, rlex_ctx.zero);
     c.type_val = a.type_val / b.type_val;
     break;
   case L_MOD:
+    check_divisor(b.type_val, rlex_ctx.zero);
     c.type_val = a.type_val % b.type_val;
     break;
 
-- 
2.43.0


From d011cec4d4ba22e3d2a1a82e1065404af6be2e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:17 +0000
Subject: [PATCH 73/84] fix: powers on the command line overflowed in a
 squaring whose result is not used

---
 spffl/cli_parser/cmd_line_ops.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spffl/cli_parser/cmd_line_ops.h b/spffl/cli_parser/cmd_line_ops.h
index 187d873..c85843f 100644
--- a/spffl/cli_parser/cmd_line_ops.h
+++ b/spffl/cli_parser/cmd_line_ops.h
@@ -282,7 +282,9 @@ element_type clo_exp(
       rv *= xp;
     }
     e = (unsigned)e >> 1;
-    xp *= xp;
+    if (e != 0) {
+      xp *= xp;
+    }
   }
 
   return rv;
-- 
2.43.0


From 0af4fb562a57613f181373f6f8b9fc8c291823c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:17 +0000
Subject: [PATCH 74/84] fix: spiff exited with status 0 after reporting an
 error

---
 cli/spiff/spiff_main.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/spiff/spiff_main.cpp b/cli/spiff/spiff_main.cpp
index ff535cd..90b9938 100644
--- a/cli/spiff/spiff_main.cpp
+++ b/cli/spiff/spiff_main.cpp
@@ -310,9 +310,9 @@ static int try_main(int argc, char **argv) {
 
 int main(int argc, char **argv) {
   try {
-    try_main(argc, argv);
+    return try_main(argc, argv);
   } catch (spffl::exception_t e) {
     std::cerr << e.what() << "\n";
+    return 1;
   }
-  return 0;
 }
-- 
2.43.0


From 8ff1b1d3ce97ec99e0e8e4a23055f1e6af654f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:17 +0000
Subject: [PATCH 75/84] fix: matrix powers overflowed in a squaring whose
 result is not used

---
 spffl/containers/tmatrix.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spffl/containers/tmatrix.h b/spffl/containers/tmatrix.h
index 328cd7a..8491a5b 100644
--- a/spffl/containers/tmatrix.h
+++ b/spffl/containers/tmatrix.h
@@ -536,7 +536,9 @@ private:
         apower *= a2;
       }
       power = (unsigned)power >> 1;
-      a2 *= a2;
+      if (power != 0) {
+        a2 *= a2;
+      }
     }
     return apower;
   }
-- 
2.43.0


From e03fbd0ba396723bb8282bf88fad75d409545e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:17 +0000
Subject: [PATCH 76/84] fix: powers of rational polynomials overflowed in a
 squaring whose result is not used

---
 spffl/polynomials/q_poly_t.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spffl/polynomials/q_poly_t.cpp b/spffl/polynomials/q_poly_t.cpp
index aedb2e6..7c04118 100644
--- a/spffl/polynomials/q_poly_t.cpp
+++ b/spffl/polynomials/q_poly_t.cpp
@@ -464,7 +464,9 @@ q_poly_t q_poly_t::exp(int e) const {
           rv *= xp;
         }
         e = (unsigned)e >> 1;
-        xp *= xp;
+        if (e != 0) {
+          xp *= xp;
+        }
       }
       return rv;
     }
-- 
2.43.0


From 80a55ab8d6509b30bedd8eafb4c89d66ed6721b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:50 +0000
Subject: [PATCH 77/84] fix: polynomial arithmetic leaked memory with every
 result

---
 spffl/polynomials/f2n_poly_t.cpp | 7 +++++++
 spffl/polynomials/fp_poly_t.cpp  | 7 +++++++
 spffl/polynomials/fpn_poly_t.cpp | 6 ++++++
 spffl/polynomials/q_poly_t.cpp   | 6 ++++++
 4 files changed, 26 insertions(+)

diff --git a/spffl/polynomials/f2n_poly_t.cpp b/spffl/polynomials/f2n_poly_t.cpp
index bd9e43b..f4c13a5 100644
--- a/spffl/polynomials/f2n_poly_t.cpp
+++ b/spffl/polynomials/f2n_poly_t.cpp
@@ -93,6 +93,7 @@ f2n_poly_t f2n_poly_t::from_base_rep(int b, const f2_poly_t &m) {
 		}
 	}
 
+	delete[] rv.coeffs;
 	rv.coeffs = new f2_polymod_t[rv.degree + 1];
 	for (int i = 0; i <= rv.degree; i++) {
 		rv.coeffs[i] = f2_polymod_t(b % m, m);
@@ -157,6 +158,7 @@ f2n_poly_t f2n_poly_t::operator+(const f2n_poly_t &that) const {
 
   if (this->degree < that.degree) {
     rv.degree = that.degree;
+    delete[] rv.coeffs;
     rv.coeffs = new f2_polymod_t[rv.degree + 1];
     for (i = 0; i <= this->degree; i++) {
       rv.coeffs[i] = this->coeffs[i] + that.coeffs[i];
@@ -166,6 +168,7 @@ f2n_poly_t f2n_poly_t::operator+(const f2n_poly_t &that) const {
     }
   } else {
     rv.degree = this->degree;
+    delete[] rv.coeffs;
     rv.coeffs = new f2_polymod_t[rv.degree + 1];
     for (i = 0; i <= that.degree; i++) {
       rv.coeffs[i] = this->coeffs[i] + that.coeffs[i];
@@ -193,6 +196,7 @@ f2n_poly_t f2n_poly_t::operator-(const f2n_poly_t &that) const {
 
   if (this->degree < that.degree) {
     rv.degree = that.degree;
+    delete[] rv.coeffs;
     rv.coeffs = new f2_polymod_t[rv.degree + 1];
     for (i = 0; i <= this->degree; i++) {
       rv.coeffs[i] = this->coeffs[i] - that.coeffs[i];
@@ -202,6 +206,7 @@ f2n_poly_t f2n_poly_t::operator-(const f2n_poly_t &that) const {
     }
   } else {
     rv.degree = this->degree;
+    delete[] rv.coeffs;
     rv.coeffs = new f2_polymod_t[rv.degree + 1];
     for (i = 0; i <= that.degree; i++) {
       rv.coeffs[i] = this->coeffs[i] - that.coeffs[i];
@@ -235,6 +240,7 @@ f2n_poly_t f2n_poly_t::operator-(void) const {
 f2n_poly_t f2n_poly_t::operator*(const f2n_poly_t &that) const {
   f2n_poly_t rv;
   rv.degree = this->degree + that.degree;
+  delete[] rv.coeffs;
   rv.coeffs = new f2_polymod_t[rv.degree + 1];
 
   f2_polymod_t zero = this->coeffs[0] - this->coeffs[0];
@@ -365,6 +371,7 @@ void f2n_poly_t::quot_and_rem(
 
   f2n_poly_t quot;
   quot.degree = this->degree - that.degree;
+  delete[] quot.coeffs;
   quot.coeffs = new f2_polymod_t[quot.degree + 1];
 
   f2n_poly_t rem = *this;
diff --git a/spffl/polynomials/fp_poly_t.cpp b/spffl/polynomials/fp_poly_t.cpp
index 737eb05..1525db7 100644
--- a/spffl/polynomials/fp_poly_t.cpp
+++ b/spffl/polynomials/fp_poly_t.cpp
@@ -89,6 +89,7 @@ fp_poly_t fp_poly_t::from_base_rep(int b, int m) {
     }
   }
 
+  delete[] rv.coeffs;
   rv.coeffs = new spffl::intmath::intmod_t[rv.degree + 1];
   for (int i = 0; i <= rv.degree; i++) {
     rv.coeffs[i] = spffl::intmath::intmod_t(b % m, m);
@@ -147,6 +148,7 @@ fp_poly_t fp_poly_t::operator+(const fp_poly_t &that) const {
 
   if (this->degree < that.degree) {
     rv.degree = that.degree;
+    delete[] rv.coeffs;
     rv.coeffs = new spffl::intmath::intmod_t[rv.degree + 1];
     for (i = 0; i <= this->degree; i++) {
       rv.coeffs[i] = this->coeffs[i] + that.coeffs[i];
@@ -156,6 +158,7 @@ fp_poly_t fp_poly_t::operator+(const fp_poly_t &that) const {
     }
   } else {
     rv.degree = this->degree;
+    delete[] rv.coeffs;
     rv.coeffs = new spffl::intmath::intmod_t[rv.degree + 1];
     for (i = 0; i <= that.degree; i++) {
       rv.coeffs[i] = this->coeffs[i] + that.coeffs[i];
@@ -175,6 +178,7 @@ fp_poly_t fp_poly_t::operator-(const fp_poly_t &that) const {
 
   if (this->degree < that.degree) {
     rv.degree = that.degree;
+    delete[] rv.coeffs;
     rv.coeffs = new spffl::intmath::intmod_t[rv.degree + 1];
     for (i = 0; i <= this->degree; i++) {
       rv.coeffs[i] = this->coeffs[i] - that.coeffs[i];
@@ -184,6 +188,7 @@ fp_poly_t fp_poly_t::operator-(const fp_poly_t &that) const {
     }
   } else {
     rv.degree = this->degree;
+    delete[] rv.coeffs;
     rv.coeffs = new spffl::intmath::intmod_t[rv.degree + 1];
     for (i = 0; i <= that.degree; i++) {
       rv.coeffs[i] = this->coeffs[i] - that.coeffs[i];
@@ -209,6 +214,7 @@ fp_poly_t fp_poly_t::operator-(void) const {
 fp_poly_t fp_poly_t::operator*(const fp_poly_t &that) const {
   fp_poly_t rv;
   rv.degree = this->degree + that.degree;
+  delete[] rv.coeffs;
   rv.coeffs = new spffl::intmath::intmod_t[rv.degree + 1];
 
   spffl::intmath::intmod_t zero = this->coeffs[0] - this->coeffs[0];
@@ -355,6 +361,7 @@ void fp_poly_t::quot_and_rem(
 
   fp_poly_t quot;
   quot.degree = this->degree - that.degree;
+  delete[] quot.coeffs;
   quot.coeffs = new spffl::intmath::intmod_t[quot.degree + 1];
 
   fp_poly_t rem = *this;
diff --git a/spffl/polynomials/fpn_poly_t.cpp b/spffl/polynomials/fpn_poly_t.cpp
index bb80178..8e4d299 100644
--- a/spffl/polynomials/fpn_poly_t.cpp
+++ b/spffl/polynomials/fpn_poly_t.cpp
@@ -117,6 +117,7 @@ fpn_poly_t fpn_poly_t::operator+(const fpn_poly_t &that) const {
 
   if (this->degree < that.degree) {
     rv.degree = that.degree;
+    delete[] rv.coeffs;
     rv.coeffs = new fp_polymod_t[rv.degree + 1];
     for (i = 0; i <= this->degree; i++) {
       rv.coeffs[i] = this->coeffs[i] + that.coeffs[i];
@@ -126,6 +127,7 @@ fpn_poly_t fpn_poly_t::operator+(const fpn_poly_t &that) const {
     }
   } else {
     rv.degree = this->degree;
+    delete[] rv.coeffs;
     rv.coeffs = new fp_polymod_t[rv.degree + 1];
     for (i = 0; i <= that.degree; i++) {
       rv.coeffs[i] = this->coeffs[i] + that.coeffs[i];
@@ -145,6 +147,7 @@ fpn_poly_t fpn_poly_t::operator-(const fpn_poly_t &that) const {
 
   if (this->degree < that.degree) {
     rv.degree = that.degree;
+    delete[] rv.coeffs;
     rv.coeffs = new fp_polymod_t[rv.degree + 1];
     for (i = 0; i <= this->degree; i++) {
       rv.coeffs[i] = this->coeffs[i] - that.coeffs[i];
@@ -154,6 +157,7 @@ fpn_poly_t fpn_poly_t::operator-(const fpn_poly_t &that) const {
     }
   } else {
     rv.degree = this->degree;
+    delete[] rv.coeffs;
     rv.coeffs = new fp_polymod_t[rv.degree + 1];
     for (i = 0; i <= that.degree; i++) {
       rv.coeffs[i] = this->coeffs[i] - that.coeffs[i];
@@ -179,6 +183,7 @@ fpn_poly_t fpn_poly_t::operator-(void) const {
 fpn_poly_t fpn_poly_t::operator*(const fpn_poly_t &that) const {
   fpn_poly_t rv;
   rv.degree = this->degree + that.degree;
+  delete[] rv.coeffs;
   rv.coeffs = new fp_polymod_t[rv.degree + 1];
 
   fp_polymod_t zero = this->coeffs[0] - this->coeffs[0];
@@ -335,6 +340,7 @@ void fpn_poly_t::quot_and_rem(
 
   fpn_poly_t quot;
   quot.degree = this->degree - that.degree;
+  delete[] quot.coeffs;
   quot.coeffs = new fp_polymod_t[quot.degree + 1];
 
   fpn_poly_t rem = *this;
diff --git a/spffl/polynomials/q_poly_t.cpp b/spffl/polynomials/q_poly_t.cpp
index 7c04118..0e9c3eb 100644
--- a/spffl/polynomials/q_poly_t.cpp
+++ b/spffl/polynomials/q_poly_t.cpp
@@ -100,6 +100,7 @@ q_poly_t q_poly_t::operator+(const q_poly_t &that) const {
 
   if (this->degree < that.degree) {
     rv.degree = that.degree;
+    delete[] rv.coeffs;
     rv.coeffs = new spffl::intmath::intrat_t[rv.degree + 1];
     for (i = 0; i <= this->degree; i++) {
       rv.coeffs[i] = this->coeffs[i] + that.coeffs[i];
@@ -109,6 +110,7 @@ q_poly_t q_poly_t::operator+(const q_poly_t &that) const {
     }
   } else {
     rv.degree = this->degree;
+    delete[] rv.coeffs;
     rv.coeffs = new spffl::intmath::intrat_t[rv.degree + 1];
     for (i = 0; i <= that.degree; i++) {
       rv.coeffs[i] = this->coeffs[i] + that.coeffs[i];
@@ -136,6 +138,7 @@ q_poly_t q_poly_t::operator-(const q_poly_t &that) const {
 
   if (this->degree < that.degree) {
     rv.degree = that.degree;
+    delete[] rv.coeffs;
     rv.coeffs = new spffl::intmath::intrat_t[rv.degree + 1];
     for (i = 0; i <= this->degree; i++) {
       rv.coeffs[i] = this->coeffs[i] - that.coeffs[i];
@@ -145,6 +148,7 @@ q_poly_t q_poly_t::operator-(const q_poly_t &that) const {
     }
   } else {
     rv.degree = this->degree;
+    delete[] rv.coeffs;
     rv.coeffs = new spffl::intmath::intrat_t[rv.degree + 1];
     for (i = 0; i <= that.degree; i++) {
       rv.coeffs[i] = this->coeffs[i] - that.coeffs[i];
@@ -178,6 +182,7 @@ q_poly_t q_poly_t::operator-(void) const {
 q_poly_t q_poly_t::operator*(const q_poly_t &that) const {
   q_poly_t rv;
   rv.degree = this->degree + that.degree;
+  delete[] rv.coeffs;
   rv.coeffs = new spffl::intmath::intrat_t[rv.degree + 1];
 
   spffl::intmath::intrat_t zero = this->coeffs[0] - this->coeffs[0];
@@ -308,6 +313,7 @@ void q_poly_t::quot_and_rem(
 
   q_poly_t quot;
   quot.degree = this->degree - that.degree;
+  delete[] quot.coeffs;
   quot.coeffs = new spffl::intmath::intrat_t[quot.degree + 1];
 
   q_poly_t rem = *this;
-- 
2.43.0


From 5ac4e211c6f348d035284b096993c82a8968592f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:22 +0000
Subject: [PATCH 78/84] fix: arguments inside braces were expanded by the shell

---
 spffl/cli_parser/cmd_interp.cpp | 35 ++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/spffl/cli_parser/cmd_interp.cpp b/spffl/cli_parser/cmd_interp.cpp
index 942882b..e2d80b2 100644
--- a/spffl/cli_parser/cmd_interp.cpp
+++ b/spffl/cli_parser/cmd_interp.cpp
@@ -4,6 +4,7 @@
 #include <stdio.h> // For perror
 #include <stdlib.h>
 #include <string.h>
+#include <string>
 #include <sys/types.h>
 #include <unistd.h>
 
@@ -63,22 +64,24 @@ static void find_matching_right_bracket(
 }
 
 // ----------------------------------------------------------------
-// The caller must free the return value.
-static char *flatten(char *exename, int argc, char **argv) {
-  int len = strlen(exename) + 1;
-  for (int argi = 0; argi < argc; argi++) {
-    len += strlen(argv[argi]) + 1;
-  }
-  char *rv = (char *)malloc(len);
-  if (rv == 0) {
-    std::stringstream ss;
-    ss << "malloc(" << len << ") failed.\n";
-    throw spffl::exception_t(ss.str());
+// Single-quotes the argument, since the command is run by the shell.
+static std::string shell_quote(const char *arg) {
+  std::string rv = "'";
+  for (const char *p = arg; *p; p++) {
+    if (*p == '\'') {
+      rv += "'\\''";
+    } else {
+      rv += *p;
+    }
   }
-  strcpy(rv, exename);
+  return rv + "'";
+}
+
+// ----------------------------------------------------------------
+static std::string flatten(char *exename, int argc, char **argv) {
+  std::string rv = shell_quote(exename);
   for (int argi = 0; argi < argc; argi++) {
-    strcat(rv, " ");
-    strcat(rv, argv[argi]);
+    rv += " " + shell_quote(argv[argi]);
   }
   return rv;
 }
@@ -86,9 +89,9 @@ static char *flatten(char *exename, int argc, char **argv) {
 // ----------------------------------------------------------------
 static void replace(
     char *exename, int argcin, char **argvin, int &argcout, char **&argvout) {
-  char *flat_cmd = flatten(exename, argcin, argvin);
+  std::string flat_cmd = flatten(exename, argcin, argvin);
 
-  FILE *pipe = popen(flat_cmd, "r");
+  FILE *pipe = popen(flat_cmd.c_str(), "r");
   if (pipe == 0) {
     std::stringstream ss;
     ss << "Failed popen \"" << flat_cmd << "\".\n";
-- 
2.43.0


From 7763ebcc822e07f69a475017ff19f0ca2ecff183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:22 +0000
Subject: [PATCH 79/84] fix: the failure of a command inside braces was ignored

---
 spffl/cli_parser/cmd_interp.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/spffl/cli_parser/cmd_interp.cpp b/spffl/cli_parser/cmd_interp.cpp
index e2d80b2..733a099 100644
--- a/spffl/cli_parser/cmd_interp.cpp
+++ b/spffl/cli_parser/cmd_interp.cpp
@@ -118,7 +118,12 @@ static void replace(
       totlen += curlen + 2;
     }
   }
-  pclose(pipe);
+  if (pclose(pipe) != 0) {
+    free(buf);
+    std::stringstream ss;
+    ss << "Failed command " << flat_cmd << ".\n";
+    throw spffl::exception_t(ss.str());
+  }
 
   if (buf == 0) {
       buf = strdup("");
-- 
2.43.0


From abc9b62de15ceea901b93c237b7e9f6984889cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:22 +0000
Subject: [PATCH 80/84] fix: long words printed by a command inside braces were
 split

---
 spffl/cli_parser/cmd_interp.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/spffl/cli_parser/cmd_interp.cpp b/spffl/cli_parser/cmd_interp.cpp
index 733a099..00c66e9 100644
--- a/spffl/cli_parser/cmd_interp.cpp
+++ b/spffl/cli_parser/cmd_interp.cpp
@@ -99,13 +99,17 @@ static void replace(
   }
 
   char line[4096];
-  int totlen = 0;
-  char *buf  = 0;
+  int totlen    = 0;
+  char *buf     = 0;
+  bool new_line = false; // Lines longer than the buffer come in pieces.
   while (fgets(line, sizeof(line), pipe)) {
-    int curlen = strlen(line);
-    if (line[curlen - 1] == '\n') {
+    int curlen          = strlen(line);
+    const char *spacing = new_line ? " " : "";
+    new_line            = false;
+    if (curlen > 0 && line[curlen - 1] == '\n') {
       line[curlen - 1] = 0;
       curlen--;
+      new_line = true;
     }
     if (buf == 0) {
       buf = (char *)malloc(curlen + 1);
@@ -113,7 +117,7 @@ static void replace(
       totlen = curlen + 1;
     } else {
       buf = (char *)realloc(buf, totlen + curlen + 2);
-      strcat(buf, " ");
+      strcat(buf, spacing);
       strcat(buf, line);
       totlen += curlen + 2;
     }
-- 
2.43.0


From ba8123fdf48521a072e34bfab88e263420030c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:30 +0000
Subject: [PATCH 81/84] fix: fp_orbit took the wrong gcd, and multiplied beyond
 the range of int

---
 cli/spiff/fp_handlers.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/cli/spiff/fp_handlers.cpp b/cli/spiff/fp_handlers.cpp
index 9172113..0b2f92e 100644
--- a/cli/spiff/fp_handlers.cpp
+++ b/cli/spiff/fp_handlers.cpp
@@ -5,6 +5,7 @@
 #include "spffl/cli_parser/cmd_line_ops.h"
 #include "spffl/cli_parser/cmd_line_vector_ops.h"
 #include "spffl/containers/tmatrix.h"
+#include "spffl/intmath/int_gcd.h"
 #include "spffl/intmath/intmod_t.h"
 #include "spffl/linalg/fp_linear_algebra.h"
 #include "spffl/list/list_elements.h"
@@ -259,7 +260,7 @@ void fp_orbit_usage(char *argv0) {
 }
 
 int fp_orbit_main(int argc, char **argv, usage_t *pusage) {
-  int p, a, apower;
+  int p, a;
   int a0 = 1;
   if ((argc != 3) && (argc != 4)) {
     pusage(argv[0]);
@@ -275,20 +276,24 @@ int fp_orbit_main(int argc, char **argv, usage_t *pusage) {
       pusage(argv[0]);
     }
   }
-  if (gcd(a, p) != 1) {
+  if (p < 1) {
+    pusage(argv[0]);
+  }
+  if (spffl::intmath::int_gcd(a, p) != 1) {
     std::cerr << "fp_orbit_main: a must be coprime to p.\n";
     exit(1);
   }
 
-  a %= p;
-  a0 %= p;
-  apower = a;
+  spffl::intmath::intmod_t one(1, p);
+  spffl::intmath::intmod_t start(a0, p);
+  spffl::intmath::intmod_t base(a, p);
+  spffl::intmath::intmod_t apower = base;
 
   int counter = 0;
   while (1) {
-    std::cout << ((apower * a0) % p) << "\n";
+    std::cout << (apower * start) << "\n";
 
-    if (apower == 1) {
+    if (apower == one) {
       break;
     }
 
@@ -299,7 +304,7 @@ int fp_orbit_main(int argc, char **argv, usage_t *pusage) {
       exit(1);
     }
 
-    apower = (apower * a) % p;
+    apower *= base;
   }
 
   return 0;
-- 
2.43.0


From 014bd6803375a7fc5c20206bb5de9cd1610d60c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:30 +0000
Subject: [PATCH 82/84] fix: fp_pm_mat_op and fp_pm_vecop called a null usage
 function

---
 cli/spiff/fp_polymod_handlers.cpp | 10 ++++++++++
 cli/spiff/fp_polymod_handlers.h   |  2 ++
 cli/spiff/spiff_main.cpp          |  4 ++--
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/cli/spiff/fp_polymod_handlers.cpp b/cli/spiff/fp_polymod_handlers.cpp
index 3e775ba..315ceee 100644
--- a/cli/spiff/fp_polymod_handlers.cpp
+++ b/cli/spiff/fp_polymod_handlers.cpp
@@ -201,6 +201,11 @@ int fp_pm_tbl_main(int argc, char **argv, usage_t *pusage) {
   return 0;
 }
 
+void fp_pm_mat_op_usage(char *argv0) {
+  std::cerr << "Usage: " << argv0 << " {p} {m} {goes here}\n";
+  exit(1);
+}
+
 int fp_pm_mat_op_main(int argc, char **argv, usage_t *pusage) {
   int p;
   spffl::polynomials::fp_poly_t m;
@@ -221,6 +226,11 @@ int fp_pm_mat_op_main(int argc, char **argv, usage_t *pusage) {
   return 0;
 }
 
+void fp_pm_vecop_usage(char *argv0) {
+  std::cerr << "Usage: " << argv0 << " {p} {m} {goes here}\n";
+  exit(1);
+}
+
 int fp_pm_vecop_main(int argc, char **argv, usage_t *pusage) {
   int p;
   spffl::polynomials::fp_poly_t m;
diff --git a/cli/spiff/fp_polymod_handlers.h b/cli/spiff/fp_polymod_handlers.h
index 4e3133e..06898f8 100644
--- a/cli/spiff/fp_polymod_handlers.h
+++ b/cli/spiff/fp_polymod_handlers.h
@@ -12,8 +12,10 @@ int fp_pm_op_main(int argc, char **argv, usage_t *pusage);
 void fp_pm_tbl_usage(char *argv0);
 int fp_pm_tbl_main(int argc, char **argv, usage_t *pusage);
 
+void fp_pm_mat_op_usage(char *argv0);
 int fp_pm_mat_op_main(int argc, char **argv, usage_t *pusage);
 
+void fp_pm_vecop_usage(char *argv0);
 int fp_pm_vecop_main(int argc, char **argv, usage_t *pusage);
 
 void fp_pm_mat_ord_usage(char *argv0);
diff --git a/cli/spiff/spiff_main.cpp b/cli/spiff/spiff_main.cpp
index 90b9938..90a25d3 100644
--- a/cli/spiff/spiff_main.cpp
+++ b/cli/spiff/spiff_main.cpp
@@ -194,8 +194,8 @@ std::vector<lookup_t> fp_pm_lookups {
   {"fp_pm_ch_pol",     fp_pm_ch_pol_main,     fp_pm_ch_pol_usage},
   {"fp_pm_min_pol",    fp_pm_min_pol_main,    fp_pm_min_pol_usage},
   {"fp_pm_random",     fp_pm_random_main,     fp_pm_random_usage},
-  {"fp_pm_mat_op",     fp_pm_mat_op_main,     nullptr/*fppmmatop_usage*/},
-  {"fp_pm_vecop",      fp_pm_vecop_main,      nullptr/*fppmvecop_usage*/},
+  {"fp_pm_mat_op",     fp_pm_mat_op_main,     fp_pm_mat_op_usage},
+  {"fp_pm_vecop",      fp_pm_vecop_main,      fp_pm_vecop_usage},
   {"fp_pm_mat_ord",    fp_pm_mat_ord_main,    fp_pm_mat_ord_usage},
   {"fp_pm_mat_random", fp_pm_mat_random_main, fp_pm_mat_random_usage},
 };
-- 
2.43.0


From 7377f220cc9e52558b90ed7d8820a38ca863b711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:30 +0000
Subject: [PATCH 83/84] fix: the mat_ord commands took an illegible matrix for
 zero

---
 cli/spiff/f2_handlers.cpp         | 5 ++++-
 cli/spiff/f2_polymod_handlers.cpp | 5 ++++-
 cli/spiff/fp_handlers.cpp         | 5 ++++-
 cli/spiff/fp_polymod_handlers.cpp | 5 ++++-
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/cli/spiff/f2_handlers.cpp b/cli/spiff/f2_handlers.cpp
index 0d5ed80..e16a0bf 100644
--- a/cli/spiff/f2_handlers.cpp
+++ b/cli/spiff/f2_handlers.cpp
@@ -87,7 +87,10 @@ int f2_mat_ord_main(int argc, char **argv, usage_t *pusage) {
   spffl::bits::bit_t one(1);
 
   A = zero;
-  std::cin >> A;
+  if (!(std::cin >> A)) {
+    std::cerr << argv[0] << ": couldn't scan matrix from standard input.\n";
+    exit(1);
+  }
   spffl::bits::bit_t d = A.det();
 
   if (d == zero) {
diff --git a/cli/spiff/f2_polymod_handlers.cpp b/cli/spiff/f2_polymod_handlers.cpp
index 8ca3f67..d1fce54 100644
--- a/cli/spiff/f2_polymod_handlers.cpp
+++ b/cli/spiff/f2_polymod_handlers.cpp
@@ -584,7 +584,10 @@ int f2_pm_mat_ord_main(int argc, char **argv, usage_t *pusage) {
   spffl::polynomials::f2_polymod_t one(spffl::polynomials::f2_poly_t(1), m);
 
   A = zero;
-  std::cin >> A;
+  if (!(std::cin >> A)) {
+    std::cerr << argv[0] << ": couldn't scan matrix from standard input.\n";
+    exit(1);
+  }
   spffl::polynomials::f2_polymod_t d = A.det();
 
   if (d == zero) {
diff --git a/cli/spiff/fp_handlers.cpp b/cli/spiff/fp_handlers.cpp
index 0b2f92e..be11ef0 100644
--- a/cli/spiff/fp_handlers.cpp
+++ b/cli/spiff/fp_handlers.cpp
@@ -477,7 +477,10 @@ int fp_mat_ord_main(int argc, char **argv, usage_t *pusage) {
   spffl::intmath::intmod_t one(1, p);
 
   A = zero;
-  std::cin >> A;
+  if (!(std::cin >> A)) {
+    std::cerr << argv[0] << ": couldn't scan matrix from standard input.\n";
+    exit(1);
+  }
   spffl::intmath::intmod_t d = A.det();
 
   if (d == zero) {
diff --git a/cli/spiff/fp_polymod_handlers.cpp b/cli/spiff/fp_polymod_handlers.cpp
index 315ceee..bce6906 100644
--- a/cli/spiff/fp_polymod_handlers.cpp
+++ b/cli/spiff/fp_polymod_handlers.cpp
@@ -278,7 +278,10 @@ int fp_pm_mat_ord_main(int argc, char **argv, usage_t *pusage) {
 
   tmatrix<spffl::polynomials::fp_polymod_t> A;
   A = zero;
-  std::cin >> A;
+  if (!(std::cin >> A)) {
+    std::cerr << argv[0] << ": couldn't scan matrix from standard input.\n";
+    exit(1);
+  }
   spffl::polynomials::fp_polymod_t d = A.det();
 
   if (d == zero) {
-- 
2.43.0


From 2436147c21bcd2dc55677f2bbbae3f1a050cbcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:30 +0000
Subject: [PATCH 84/84] fix: a failing discrete logarithm gives its tables back

---
 spffl/units/f2_polymod_units.cpp  | 4 ++++
 spffl/units/f2n_polymod_units.cpp | 4 ++++
 spffl/units/fp_units.cpp          | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/spffl/units/f2_polymod_units.cpp b/spffl/units/f2_polymod_units.cpp
index 29f8f5f..f96f4c2 100644
--- a/spffl/units/f2_polymod_units.cpp
+++ b/spffl/units/f2_polymod_units.cpp
@@ -238,6 +238,8 @@ int f2_polymod_log( // Log base g of a.
 
   spffl::polynomials::f2_polymod_t ginv;
   if (!g.recip(ginv)) {
+    delete[] agni;
+    delete[] gkj;
     std::stringstream ss;
     ss << "f2_polymod_log:  g="
        << " is a zero divisor.\n";
@@ -276,6 +278,8 @@ int f2_polymod_log( // Log base g of a.
   }
 
   if (rv == -1) {
+    delete[] agni;
+    delete[] gkj;
     // xxx
     std::stringstream ss;
     ss << "f2_polymod_log:  error message goes here.\n";
diff --git a/spffl/units/f2n_polymod_units.cpp b/spffl/units/f2n_polymod_units.cpp
index de6ee09..3594e5e 100644
--- a/spffl/units/f2n_polymod_units.cpp
+++ b/spffl/units/f2n_polymod_units.cpp
@@ -135,6 +135,8 @@ int f2n_polymod_log( // Log base g of a.
 
   spffl::polynomials::f2n_polymod_t ginv;
   if (!g.recip(ginv)) {
+    delete[] agni;
+    delete[] gkj;
     std::stringstream ss;
     ss << "f2n_polymod_log:  g="
        << " is a zero divisor.\n";
@@ -173,6 +175,8 @@ int f2n_polymod_log( // Log base g of a.
   }
 
   if (rv == -1) {
+    delete[] agni;
+    delete[] gkj;
     std::stringstream ss;
     ss << "f2n_polymod_log:  couldn't find log base " << g << " of " << a
        << " mod " << m << ".\n";
diff --git a/spffl/units/fp_units.cpp b/spffl/units/fp_units.cpp
index b1c5fd6..bbebd49 100644
--- a/spffl/units/fp_units.cpp
+++ b/spffl/units/fp_units.cpp
@@ -116,6 +116,8 @@ int fp_log( // Log base g of a.
 
   spffl::intmath::intmod_t ginv;
   if (!g.recip(ginv)) {
+    delete[] agni;
+    delete[] gkj;
     std::stringstream ss;
     ss << "fp_log:  g="
        << " is a zero divisor.\n";
@@ -154,6 +156,8 @@ int fp_log( // Log base g of a.
   }
 
   if (rv == -1) {
+    delete[] agni;
+    delete[] gkj;
     // xxx
     std::stringstream ss;
     ss << "fp_log:  error message goes here.\n";
-- 
2.43.0

