From 52eeaf88c862e1af61fab3d9d57168b7337c2a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:36 +0000
Subject: [PATCH 1/5] fix: build ratios of isize::MIN without negation overflow

---
 src/lib.rs            | 4 ++--
 src/strategy/ratio.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c1adac3..4bab521 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -87,8 +87,8 @@ impl Number {
     pub fn ratio(num: isize, den: isize) -> Number {
         Number::ratio_u(
             (num >= 0 && den >= 0) || (num < 0 && den < 0),
-            if num >= 0 { num } else { -num } as usize,
-            if den >= 0 { den } else { -den } as usize,
+            num.unsigned_abs(),
+            den.unsigned_abs(),
         )
     }
 
diff --git a/src/strategy/ratio.rs b/src/strategy/ratio.rs
index d322086..8935831 100644
--- a/src/strategy/ratio.rs
+++ b/src/strategy/ratio.rs
@@ -240,8 +240,8 @@ pub fn new_i(
 ) {
     new(
         (num >= 0 && den >= 0) || (num < 0 && den < 0),
-        if num >= 0 { num } else { -num } as usize,
-        if den >= 0 { den } else { -den } as usize,
+        num.unsigned_abs(),
+        den.unsigned_abs(),
     )
 }
 
-- 
2.43.0


From 306b75ca7ce12a880ec092c5f9fd392f80d0b1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:47 +0000
Subject: [PATCH 2/5] fix: panic instead of wrapping when negating the smallest
 integer

---
 src/strategy/combine.rs     | 16 ++++++++--------
 src/strategy/homographic.rs |  8 ++++----
 src/strategy/support.rs     | 12 ++++++------
 3 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/strategy/combine.rs b/src/strategy/combine.rs
index 01420b3..3148393 100644
--- a/src/strategy/combine.rs
+++ b/src/strategy/combine.rs
@@ -727,19 +727,19 @@ pub fn new(
 
     macro_rules! reflect_x {
         () => {
-            a *= -1;
-            b *= -1;
-            e *= -1;
-            f *= -1;
+            a = a.checked_neg().unwrap();
+            b = b.checked_neg().unwrap();
+            e = e.checked_neg().unwrap();
+            f = f.checked_neg().unwrap();
         };
     }
 
     macro_rules! reflect_y {
         () => {
-            a *= -1;
-            c *= -1;
-            e *= -1;
-            g *= -1;
+            a = a.checked_neg().unwrap();
+            c = c.checked_neg().unwrap();
+            e = e.checked_neg().unwrap();
+            g = g.checked_neg().unwrap();
         };
     }
 
diff --git a/src/strategy/homographic.rs b/src/strategy/homographic.rs
index f5f8da3..1d0ac87 100644
--- a/src/strategy/homographic.rs
+++ b/src/strategy/homographic.rs
@@ -885,12 +885,12 @@ pub fn new(
             swap(&mut dx, &mut d);
         }
         Some(protocol::Primer::Reflect) => {
-            nx = -nx;
-            dx = -dx;
+            nx = nx.checked_neg().unwrap();
+            dx = dx.checked_neg().unwrap();
         }
         Some(protocol::Primer::Ground) => {
-            nx = -nx;
-            dx = -dx;
+            nx = nx.checked_neg().unwrap();
+            dx = dx.checked_neg().unwrap();
             swap(&mut nx, &mut n);
             swap(&mut dx, &mut d);
         }
diff --git a/src/strategy/support.rs b/src/strategy/support.rs
index bbbcb00..5f75e6b 100644
--- a/src/strategy/support.rs
+++ b/src/strategy/support.rs
@@ -155,16 +155,16 @@ pub fn updated_range(
     }
 
     if dmin < 0 {
-        nmin *= -1;
-        dmin *= -1;
+        nmin = nmin.checked_neg().unwrap();
+        dmin = dmin.checked_neg().unwrap();
     }
     if dmax < 0 {
-        nmax *= -1;
-        dmax *= -1;
+        nmax = nmax.checked_neg().unwrap();
+        dmax = dmax.checked_neg().unwrap();
     }
     if dnew < 0 {
-        nnew *= -1;
-        dnew *= -1;
+        nnew = nnew.checked_neg().unwrap();
+        dnew = dnew.checked_neg().unwrap();
     }
 
     if nmin == 0 {
-- 
2.43.0


From 2a2537f15a700c341584a4ae92f2481cadbf7925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:47 +0000
Subject: [PATCH 3/5] fix: report division by zero for an all-zero homographic
 denominator

---
 src/strategy/homographic.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/strategy/homographic.rs b/src/strategy/homographic.rs
index 1d0ac87..1e72d77 100644
--- a/src/strategy/homographic.rs
+++ b/src/strategy/homographic.rs
@@ -862,6 +862,10 @@ pub fn new(
         (special, primer, ratio, None)
     }
 
+    if dx == 0 && d == 0 {
+        panic!("division by zero");
+    }
+
     if nx == 0 && dx == 0 {
         return as_ratio(n, d);
     }
-- 
2.43.0


From 8bf0934ce12280cb1fae99d6d18e2a5d42ca924c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:47 +0000
Subject: [PATCH 4/5] fix: stop writing homographic state to standard output

---
 src/strategy/homographic.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/strategy/homographic.rs b/src/strategy/homographic.rs
index 1e72d77..3838a74 100644
--- a/src/strategy/homographic.rs
+++ b/src/strategy/homographic.rs
@@ -1088,8 +1088,6 @@ impl Homographic {
         Option<Ratio>,
         Option<Homographic>,
     ) {
-        // FIXME: debug
-        println!("{} {} {} {}", self.nx, self.n, self.dx, self.d);
         if self.are_singularities_outside_domain() {
             if let Ok(primer) = self.primer_egest() {
                 return (None, primer, None, Some(self));
@@ -1141,8 +1139,6 @@ impl Homographic {
 
 impl Strategy for Homographic {
     fn egest(&mut self) -> Result<Option<protocol::Reduction>, Box<dyn Strategy>> {
-        // FIXME: debug
-        println!("{} {} {} {}", self.nx, self.n, self.dx, self.d);
         if self.are_singularities_outside_domain() {
             if let Ok(reduction) = self.reduction_egest() {
                 return Ok(reduction);
-- 
2.43.0


From 7e5e4e3f7836341dd92202cd25bcf5ef91c88e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:32 +0000
Subject: [PATCH 5/5] fix: recognise a negative pole at the end of a
 homographic domain

The image of a domain end where the denominator vanishes was always taken
as positive, so -1/x written as 1/-x kept ingesting until the coefficients
overflowed.
---
 src/strategy/homographic.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/strategy/homographic.rs b/src/strategy/homographic.rs
index 3838a74..b43b2eb 100644
--- a/src/strategy/homographic.rs
+++ b/src/strategy/homographic.rs
@@ -988,14 +988,21 @@ impl Homographic {
     }
 
     fn image_extremes(&self) -> (isize, isize, isize, isize) {
-        let (n0, d0) = self.value_at_zero();
+        let (mut n0, d0) = self.value_at_zero();
         if n0 == 0 && d0 == 0 {
             return (0, 0, 0, 0);
         }
-        let (n1, d1) = self.value_at_one();
+        let (mut n1, d1) = self.value_at_one();
         if n1 == 0 && d1 == 0 {
             return (0, 0, 0, 0);
         }
+        // A pole at one end of the domain has the sign of the denominator at the other end.
+        if d0 == 0 && d1 < 0 {
+            n0 = -n0.signum();
+        }
+        if d1 == 0 && d0 < 0 {
+            n1 = -n1.signum();
+        }
         support::updated_range(n0, d0, n0, d0, n1, d1)
     }
 
-- 
2.43.0

