From dcd889052b6df641872a6448800094fbbe2bd062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:54 +0000
Subject: [PATCH 01/21] fix: split (a*b)^e in a product only for integer
 exponents

(a*b)^e = a^e * b^e fails for a = b = -1, e = 1/2.
---
 src/algos.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/algos.rs b/src/algos.rs
index fe78334..7b698ab 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -281,7 +281,8 @@ impl Prod {
                 self.args.push(rhs.clone())
             }
             A::Pow(pow) => {
-                if pow.base().is_prod() {
+                // (a * b)^e = a^e * b^e only holds in general for integer exponents
+                if pow.base().is_prod() && pow.exponent().is_int() {
                     let rhs_terms = pow.base().args();
                     let expon = pow.exponent();
 
-- 
2.43.0


From a3cf1e428fcaed6f3b595960d1f3b11d5ce1cb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:54 +0000
Subject: [PATCH 02/21] fix: Rational::div_rem divides the numerator by the
 denominator

---
 src/rational.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rational.rs b/src/rational.rs
index afb1547..8518ff8 100644
--- a/src/rational.rs
+++ b/src/rational.rs
@@ -402,7 +402,7 @@ impl Rational {
         let denom = self.denom();
         let num = self.numer();
         //let (num, den) = self.0.to_numerator_and_denominator();
-        let (quot, rem) = num::integer::div_rem(denom, num);
+        let (quot, rem) = num::integer::div_rem(num, denom);
         //let (quot, rem) = marith::DivRem::div_rem(num, den);
         (Self::new_int(quot), Self::new(rem, denom))
 
-- 
2.43.0


From 87846fa7d130f284adfdef4fde011b9aebae6a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:54 +0000
Subject: [PATCH 03/21] fix: Rational::pow returns the remaining exponent
 rem/denom, not rem

---
 src/rational.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rational.rs b/src/rational.rs
index 8518ff8..a7a28cb 100644
--- a/src/rational.rs
+++ b/src/rational.rs
@@ -459,7 +459,7 @@ impl Rational {
             let denom = rhs.denom();
             let (quot, rem) = num::integer::div_rem(numer, denom); //marith::DivRem::div_rem(num, den);
                                                                    //let rem_exp = Self(mal::Rational::from(rem));
-            let rem_exp = Self::new_int(rem);
+            let rem_exp = Self::new(rem, denom);
             if let Ok(apply_exp) = usize::try_from(quot) {
                 if let Some(pow) = num::checked_pow(self.0, apply_exp) {
                     return (Self(pow), rem_exp);
-- 
2.43.0


From dce89b984fd8e729d225127245b453044b54bca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:11 +0000
Subject: [PATCH 04/21] fix: Pow::reduce multiplies nested exponents only where
 that keeps the value

---
 src/atom.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/atom.rs b/src/atom.rs
index 476d436..3526937 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -1325,8 +1325,10 @@ impl SymbolicExpr for Pow {
                     A::Pow(self.clone()).into()
                 }
             }
-            //TODO: rule?
-            (A::Pow(pow), _) => {
+            // (b^e1)^e2 = b^(e1*e2) needs e2 to be an integer, or b^e1 to only exist for b >= 0
+            (A::Pow(pow), e)
+                if e.is_int() || pow.exponent().is_rational_and(Rational::is_fraction) =>
+            {
                 let mut pow = pow.clone();
                 pow.args[1] *= self.exponent();
                 pow.reduce()
-- 
2.43.0


From c7bc3cebf4878f3e109fce6a10381b73c9836ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:14 +0000
Subject: [PATCH 05/21] fix: contract_trig_arg starts the fold over a sum at
 zero

---
 src/algos.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algos.rs b/src/algos.rs
index 7b698ab..5e2d33b 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -1478,7 +1478,7 @@ fn contract_trig_arg(e: &Expr) -> Expr {
             }
         }
 
-        Atom::Sum(s) => s.iter_args().fold(Expr::one(), |lhs, rhs| {
+        Atom::Sum(s) => s.iter_args().fold(Expr::zero(), |lhs, rhs| {
             if rhs.is_prod() || rhs.is_pow() {
                 lhs + contract_trig_arg(rhs)
             } else {
-- 
2.43.0


From 76e2914b07d1750ee52d487d5625a02731d07749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:17 +0000
Subject: [PATCH 06/21] fix: contract_trig_pow leaves everything but positive
 integer powers of sin and cos alone

---
 src/algos.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algos.rs b/src/algos.rs
index 5e2d33b..54c4cc7 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -1499,7 +1499,7 @@ fn contract_trig_pow(p: &Expr) -> Expr {
     let f = p.base();
     let n = p.exponent();
 
-    if !(n.is_int() && n.is_pos()) && !(f.is_sin() || f.is_cos()) {
+    if !(n.is_int() && n.is_pos()) || !(f.is_sin() || f.is_cos()) {
         return p.clone();
     }
 
-- 
2.43.0


From a7e36e12caed91f2ed8b79f25c593733eebdb405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:20 +0000
Subject: [PATCH 07/21] fix: Expr::div of zero by zero is undefined

---
 src/algos.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algos.rs b/src/algos.rs
index 54c4cc7..6589d2a 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -706,7 +706,7 @@ impl Expr {
 
         if lhs.is_undef() || rhs.is_undef() {
             Expr::undef()
-        } else if lhs == rhs {
+        } else if lhs == rhs && !rhs.is_zero() {
             Expr::one()
         } else {
             let min_one = Expr::from(-1);
-- 
2.43.0


From 6e283c2597ed4e1c1f910b35d43f7c7570e69f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:23 +0000
Subject: [PATCH 08/21] fix: try_as_div of b^-1 is (1, b)

---
 src/atom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atom.rs b/src/atom.rs
index 3526937..1392eed 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -928,7 +928,7 @@ impl Expr {
 
     pub fn try_as_div(&self) -> Option<(Expr, Expr)> {
         if self.is_pow() && self.exponent().is_min_one() {
-            Some((Expr::min_one(), self.base().clone()))
+            Some((Expr::one(), self.base().clone()))
         } else if self.is_prod() {
             Some(
                 self.iter_args()
-- 
2.43.0


From c158fa0c56582fdc741029aa3087475c740ea8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:38 +0000
Subject: [PATCH 09/21] fix: Ord for Atom terminates on undef

---
 src/atom.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/atom.rs b/src/atom.rs
index 1392eed..08221ce 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -218,6 +218,9 @@ impl Ord for Atom {
         }
 
         match (lhs, rhs) {
+            (A::Undef, A::Undef) => cmp::Ordering::Equal,
+            (A::Undef, _) => cmp::Ordering::Greater,
+            (_, A::Undef) => cmp::Ordering::Less,
             (A::Var(l), A::Var(r)) => l.cmp(r),
             (A::Prod(_), A::Prod(_)) | (A::Sum(_), A::Sum(_)) => {
                 cmp_slice_rev(lhs.args(), rhs.args())
-- 
2.43.0


From f0cf10a29185abc0cb2c2bb7c575693c751416de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:54 +0000
Subject: [PATCH 10/21] fix: comparing sums, products and powers is
 antisymmetric

---
 src/atom.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/atom.rs b/src/atom.rs
index 08221ce..f083ebe 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -240,6 +240,10 @@ impl Ord for Atom {
                     cmp_slice(f1.args(), f2.args())
                 }
             }
+            // antisymmetry: products decide before powers and sums, powers before sums
+            (A::Sum(_), A::Prod(_) | A::Pow(_)) | (A::Pow(_), A::Prod(_)) => {
+                rhs.cmp(lhs).reverse()
+            }
             (A::Prod(_) | A::Sum(_), _) => {
                 if lhs.n_args() == 0 {
                     cmp::Ordering::Less
-- 
2.43.0


From 4974f8e8ce19dde0d8e8f4a391b4e4991f2be19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:35 +0000
Subject: [PATCH 11/21] fix: equal sums and products have equal hashes

---
 src/atom.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/atom.rs b/src/atom.rs
index f083ebe..a92fc28 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -488,7 +488,7 @@ impl Func {
     }
 }
 
-#[derive(Clone, PartialOrd, Ord, Hash, Serialize, Deserialize)]
+#[derive(Clone, PartialOrd, Ord, Serialize, Deserialize)]
 pub struct Sum {
     pub args: Vec<Expr>,
 }
@@ -513,6 +513,15 @@ impl fmt::Debug for Sum {
     }
 }
 
+impl hash::Hash for Sum {
+    /// agrees with [PartialEq], which ignores the order of the arguments
+    fn hash<H: hash::Hasher>(&self, state: &mut H) {
+        let mut args = self.args.clone();
+        args.sort();
+        args.hash(state);
+    }
+}
+
 impl Eq for Sum {}
 impl PartialEq for Sum {
     fn eq(&self, other: &Self) -> bool {
@@ -567,7 +576,7 @@ impl Sum {
     }
 }
 
-#[derive(Clone, PartialOrd, Ord, Hash, Serialize, Deserialize)]
+#[derive(Clone, PartialOrd, Ord, Serialize, Deserialize)]
 pub struct Prod {
     pub args: Vec<Expr>,
 }
@@ -592,6 +601,15 @@ impl fmt::Debug for Prod {
     }
 }
 
+impl hash::Hash for Prod {
+    /// agrees with [PartialEq], which ignores the order of the arguments
+    fn hash<H: hash::Hasher>(&self, state: &mut H) {
+        let mut args = self.args.clone();
+        args.sort();
+        args.hash(state);
+    }
+}
+
 impl Eq for Prod {}
 impl PartialEq for Prod {
     fn eq(&self, other: &Self) -> bool {
-- 
2.43.0


From f850e944989319d5d6940404aece891a573a9d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:49 +0000
Subject: [PATCH 12/21] fix: expanding a power splits its base only for integer
 or symbolic exponents

---
 src/algos.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/algos.rs b/src/algos.rs
index 6589d2a..c17789d 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -574,7 +574,8 @@ impl Pow {
                     &expand_pow(self.base(), &Expr::from(rem)),
                 );
             }
-            (A::Prod(_), _) => {
+            // not for literal fractions: ((-1) * (-1))^(1/2) is 1
+            (A::Prod(_), e) if e.is_int() || !e.is_number() => {
                 return self
                     .base()
                     .clone()
-- 
2.43.0


From 764d408a5e1bf029ad1eaddf9ff969eef44cdf43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:11 +0000
Subject: [PATCH 13/21] fix: powers of zero have no common factor to divide by

---
 src/algos.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/algos.rs b/src/algos.rs
index c17789d..6ff6f6c 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -1169,7 +1169,10 @@ impl Expr {
             }
             (_, _) => match (lhs.exponent().atom(), rhs.exponent().atom()) {
                 (A::Rational(r1), A::Rational(r2))
-                    if r1.is_pos() && r2.is_pos() && rhs.base() == lhs.base() =>
+                    if r1.is_pos()
+                        && r2.is_pos()
+                        && rhs.base() == lhs.base()
+                        && !lhs.base().is_zero() =>
                 {
                     let e = std::cmp::min(r1, r2).clone();
                     let b = rhs.base();
-- 
2.43.0


From 7720169171f7a50d861a7cf8cf501831fe7a198e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:14 +0000
Subject: [PATCH 14/21] fix: seq_substitude does not substitute inside what it
 put in

---
 src/algos.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/algos.rs b/src/algos.rs
index 6ff6f6c..2379b26 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -1266,10 +1266,12 @@ impl Expr {
     {
         let mut res = self.clone();
         subs.into_iter().for_each(|(from, to)| {
-            res.for_each_compl_sub_expr(|sub_expr| {
+            res.try_for_each_compl_sub_expr(|sub_expr| {
                 if sub_expr == from {
                     *sub_expr = to.clone();
+                    return ops::ControlFlow::Break(());
                 }
+                ops::ControlFlow::Continue(())
             });
         });
         res
-- 
2.43.0


From 76b03c3c19b5e88ede21120b783486957a3d3e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:08 +0000
Subject: [PATCH 15/21] fix: expanding a sum to a fraction above one terminates

---
 src/algos.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/algos.rs b/src/algos.rs
index 2379b26..e80465a 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -569,7 +569,8 @@ impl Pow {
             }
             (A::Sum(sum), A::Rational(r)) if r > &Rational::ONE && sum.args.len() > 1 => {
                 let (div, rem) = r.div_rem();
-                return expand_mul(
+                // distribute: a product of both would merge back to the power it came from
+                return Prod::expand_mul(
                     &expand_pow(self.base(), &Expr::from(div)),
                     &expand_pow(self.base(), &Expr::from(rem)),
                 );
-- 
2.43.0


From 4c0c14093541db9e3667a473183e750f8f32abae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:13 +0000
Subject: [PATCH 16/21] fix: rationalize terminates on an undefined summand

---
 src/algos.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algos.rs b/src/algos.rs
index e80465a..d423df1 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -1059,7 +1059,7 @@ impl Expr {
         let c = rhs.numerator();
         let d = rhs.denominator();
         let bd = &b * &d;
-        if bd.is_one() {
+        if bd.is_one() || bd.is_undef() {
             lhs + rhs
         } else {
             Self::rationalize_add(&(&a * &d), &(&c * &b)) / bd
-- 
2.43.0


From 2a07423c9c65d342dc82d2f2c0804718d0ace54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:32 +0000
Subject: [PATCH 17/21] fix: compare rationals exactly when ordering numbers

Distinct rationals with the same f64 approximation compared as equal, so
sums with these numbers in different orders were sorted differently and
compared as different.
---
 src/atom.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/atom.rs b/src/atom.rs
index a92fc28..d067f96 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -292,7 +292,14 @@ impl PartialOrd for Real {
 impl Ord for Real {
     fn cmp(&self, other: &Self) -> cmp::Ordering {
         use ordered_float::OrderedFloat;
-        OrderedFloat(self.f64_approx()).cmp(&OrderedFloat(other.f64_approx()))
+        let approx = || OrderedFloat(self.f64_approx()).cmp(&OrderedFloat(other.f64_approx()));
+        // distinct numbers with the same approximation are not equal
+        match (self, other) {
+            (Real::Rational(l), Real::Rational(r)) => l.cmp(r),
+            (Real::Rational(_), Real::Irrational(_)) => approx().then(cmp::Ordering::Less),
+            (Real::Irrational(_), Real::Rational(_)) => approx().then(cmp::Ordering::Greater),
+            (Real::Irrational(_), Real::Irrational(_)) => approx(),
+        }
     }
 }
 
-- 
2.43.0


From b7445801df7d4a1358ff92b82cf253144499efb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:53 +0000
Subject: [PATCH 18/21] fix: x^1 is not x, so they must not compare as equal

---
 src/atom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atom.rs b/src/atom.rs
index d067f96..7d9aa00 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -257,7 +257,7 @@ impl Ord for Atom {
                 if p.base().atom() != rhs {
                     p.base().atom().cmp(rhs)
                 } else {
-                    p.exponent().atom().cmp(&A::ONE)
+                    p.exponent().atom().cmp(&A::ONE).then(cmp::Ordering::Greater)
                 }
             }
             (A::Func(f), A::Var(v)) => {
-- 
2.43.0


From ac1a90929db0b18c8202808e334ab01f8063614f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:38 +0000
Subject: [PATCH 19/21] fix: a sum that is a generalized variable has degree
 one in itself, not zero

---
 src/polynomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 9ca0afa..be21e97 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -336,7 +336,7 @@ impl<'a> PolynomialView<'a> {
         if let A::Sum(Sum { args }) = self.poly.atom() {
             if self.vars.has(self.poly) {
                 let v = self.poly;
-                coeffs.insert([(v.clone(), 0)].into(), Expr::one());
+                coeffs.insert([(v.clone(), 1)].into(), Expr::one());
                 return coeffs;
             }
 
-- 
2.43.0


From d14743c9238cd11fb68505fb50a4d6927cd3618b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:42 +0000
Subject: [PATCH 20/21] fix: collect_terms keeps a monomial and rejects a term
 that is none

---
 src/polynomial.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index be21e97..7b7f33e 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -375,9 +375,9 @@ impl<'a> PolynomialView<'a> {
         } else {
             // self.poly != A::Sum(_)
             if self.poly.as_monomial_view(self.vars).check() {
-                return None;
-            } else {
                 return Some(self.poly.clone());
+            } else {
+                return None;
             }
         };
 
-- 
2.43.0


From eaf4af0b2c457c5160a7f0913a2f33a0b7779009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:48 +0000
Subject: [PATCH 21/21] fix: reducing a product of a number and a power of a
 product with that number does not panic

---
 src/algos.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/algos.rs b/src/algos.rs
index d423df1..f2763e2 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -475,7 +475,8 @@ impl Prod {
                     //assert!(q1 == &h[0], "{:?} != {:?}", q1, h[0]);
                     Prod::merge_args(p, q_rest)
                 } else {
-                    panic!("Illegal reduction: {q:?} * {p:?} -> h")
+                    // p1 and q1 were combined to other factors, e.g. 4 * (4*x)^2 -> 64 * x^2
+                    Prod::merge_args(&h[1..], &Prod::merge_args(p_rest, q_rest).args)
                 };
 
                 Prod::flat_merge(&h[0], rhs)
-- 
2.43.0

