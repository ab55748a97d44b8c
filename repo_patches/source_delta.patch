From 76e6d4068a2cd795a880619d90e770c106b7d95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:36 +0000
Subject: [PATCH 1/6] fix: rotate every point in
 BoundingOrientedBox::CreateFromPoints

Only the first point was brought into the rotated space before the
min/max fold, so the resulting box did not enclose its points unless the
axes happened to be the identity.
---
 src/collision.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index a7f8cfc..c22b5f1 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -3273,11 +3273,11 @@ impl BoundingOrientedBox {
         //for (let i: size_t = 1; i < Count; ++i)
         for (i, point) in pPoints.enumerate()
         {
-            let Point: XMVECTOR = XMLoadFloat3(point);
+            let Point: XMVECTOR = XMVector3TransformNormal(XMLoadFloat3(point), InverseR);
 
             if i == 0 {
-                vMin = XMVector3TransformNormal(Point, InverseR);
-                vMax = vMin;
+                vMin = Point;
+                vMax = Point;
             } else {
                 vMin = XMVectorMin(vMin, Point);
                 vMax = XMVectorMax(vMax, Point);
-- 
2.43.0


From b50a0bfdb17f23ca969e8943da28ffe4d8c956e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:19 +0000
Subject: [PATCH 2/6] fix: no NaN box from CreateFromPoints when the cubic
 solver leaves the range of f32

SolveCubic divided by d = 0 (coincident or nearly coincident points) or used
an infinite d (spread above about 1000 units), so BoundingOrientedBox::
CreateFromPoints produced a NaN orientation. Report 'no roots' instead; the
caller then uses an arbitrary orthonormal basis, as it already does when
there is only one real root.
---
 src/collision.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/collision.rs b/src/collision.rs
index c22b5f1..4f30511 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -258,6 +258,15 @@ mod internal {
         }
 
         d = sqrtf(q * q / 4.0 - h);
+        if (!(d > 0.0 && d < f32::INFINITY))
+        {
+            // the products above left the range of f32
+            *t = 0.0;
+            *u = 0.0;
+            *v = 0.0;
+            return false;
+        }
+
         if (d < 0.0) {
             rc = -powf(-d, 1.0 / 3.0);
         }
-- 
2.43.0


From 4047c6ed6093c1a47c23caa65806e83ab86bad82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:04 +0000
Subject: [PATCH 3/6] fix: docs tool ends at end of input in every state

The tool looped for ever on a file that ended before its Remarks section.
Leave the state machine at end of input, keeping the parameter read last.
---
 tools/docs/src/bin/docs.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/tools/docs/src/bin/docs.rs b/tools/docs/src/bin/docs.rs
index bed2420..0c0889c 100644
--- a/tools/docs/src/bin/docs.rs
+++ b/tools/docs/src/bin/docs.rs
@@ -28,7 +28,10 @@ fn main() {
             State::Start => {
                 loop {
                     match lines.next() {
-                        None => break,
+                        None => {
+                            state = State::End;
+                            break;
+                        }
                         Some(line) => {
                             if "parameters" == line.trim().to_ascii_lowercase() {
                                 state = State::Parameters;
@@ -41,7 +44,14 @@ fn main() {
             State::Parameters => {
                 loop {
                     match lines.next() {
-                        None => break,
+                        None => {
+                            if let Some(name) = parameter_name.clone() {
+                                parameters.push((name.to_string(), parameter_desc.clone()));
+                                parameter_desc.clear();
+                            }
+                            state = State::End;
+                            break;
+                        }
                         Some(line) => {
                             let trimmed = line.trim();
                             if !trimmed.is_empty() && trimmed.split_whitespace().count() == 1 {
@@ -67,7 +77,10 @@ fn main() {
             State::ReturnValue => {
                 loop {
                     match lines.next() {
-                        None => break,
+                        None => {
+                            state = State::End;
+                            break;
+                        }
                         Some(line) => {
                             let trimmed = line.trim();
                             if trimmed.to_ascii_lowercase() == "remarks" {
-- 
2.43.0


From 830276659ac2fc108b99d825c54f27325fea24e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:04 +0000
Subject: [PATCH 4/6] fix: neon_intrinsics fails when the index cannot be
 downloaded

curl's exit status was ignored, HTTP errors were accepted as the index, and
the file of an earlier run was reported on when the download failed.
---
 tools/neon_intrinsics/src/main.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tools/neon_intrinsics/src/main.rs b/tools/neon_intrinsics/src/main.rs
index fcf64ae..2f53e76 100644
--- a/tools/neon_intrinsics/src/main.rs
+++ b/tools/neon_intrinsics/src/main.rs
@@ -23,13 +23,18 @@ fn main() -> Result<(), Box<dyn std::error::Error>> {
         }
     }
 
-    let _ = Command::new("curl")
+    // Never report on the index of an earlier run.
+    let _ = fs::remove_file("target/index.html");
+    let output = Command::new("curl")
         .args(&[
-            "-LRJo",
+            "-fLRJo",
             "target/index.html",
             "https://doc.rust-lang.org/core/arch/aarch64/index.html",
         ])
         .output()?;
+    if !output.status.success() {
+        return Err(format!("curl failed: {}", output.status).into());
+    }
 
     let index = fs::read_to_string("target/index.html")?;
     let mut status = Vec::new();
-- 
2.43.0


From 02c68089ef9ee8583c6fa1e72b30ff71f05a7cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:31 +0000
Subject: [PATCH 5/6] fix: neon_intrinsics fails when the index of an earlier
 run cannot be removed

If the old target/index.html could not be removed and the download wrote
nothing, the tool reported success on the stale index.
---
 tools/neon_intrinsics/src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tools/neon_intrinsics/src/main.rs b/tools/neon_intrinsics/src/main.rs
index 2f53e76..6d9796c 100644
--- a/tools/neon_intrinsics/src/main.rs
+++ b/tools/neon_intrinsics/src/main.rs
@@ -24,7 +24,11 @@ fn main() -> Result<(), Box<dyn std::error::Error>> {
     }
 
     // Never report on the index of an earlier run.
-    let _ = fs::remove_file("target/index.html");
+    if let Err(e) = fs::remove_file("target/index.html") {
+        if e.kind() != std::io::ErrorKind::NotFound {
+            return Err(e.into());
+        }
+    }
     let output = Command::new("curl")
         .args(&[
             "-fLRJo",
-- 
2.43.0


From 8a94eb41bf52f4064cfd8d243689f0769966e8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:17 +0000
Subject: [PATCH 6/6] fix: no NaN box from CreateFromPoints when an eigenvector
 leaves the range of f32

---
 src/collision.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/collision.rs b/src/collision.rs
index 4f30511..7d92c44 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -347,6 +347,12 @@ mod internal {
             }
         }
 
+        if (!(XMVectorGetX(XMVector3LengthSq(vTmp)) < f32::INFINITY))
+        {
+            // the quotients above left the range of f32: no direction, like the zero vector
+            return XMVectorZero();
+        }
+
         if (XMVectorGetX(XMVector3LengthSq(vTmp)) > 1e-5)
         {
             return XMVector3Normalize(vTmp);
-- 
2.43.0

