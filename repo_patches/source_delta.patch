From a5719c10704ec8c1f9cafa9634c9ba580c254122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:01 +0000
Subject: [PATCH 01/13] fix: shift fingerprint mask counter bytes right, so
 that masks differ after 256 values

---
 src/anonymizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/anonymizer.rs b/src/anonymizer.rs
index a3d4d50..ce23a43 100644
--- a/src/anonymizer.rs
+++ b/src/anonymizer.rs
@@ -22,7 +22,7 @@ impl ToBytesVec for u64 {
         let mut val = *self;
         for _ in 0..8 {
             bytes.push(val as u8);
-            val <<= 8;
+            val >>= 8;
         }
         bytes.reverse();
         bytes
-- 
2.43.0


From bc9bac7f0e3f17e3b005ed816c2d48fa9f918c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:44 +0000
Subject: [PATCH 02/13] fix: keep the media sections in a masked copy of a
 session

---
 src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 967ab22..c2bb806 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -391,6 +391,9 @@ impl AnonymizingClone for SdpSession {
         for i in &self.attribute {
             masked.attribute.push(i.masked_clone(anon));
         }
+        for i in &self.media {
+            masked.media.push(i.masked_clone(anon));
+        }
         masked
     }
 }
-- 
2.43.0


From a4d2802276de6cf62791b1d5b5e369fa40e6af48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:44 +0000
Subject: [PATCH 03/13] fix: mask the connection address in a masked copy of a
 media section

---
 src/media_type.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/media_type.rs b/src/media_type.rs
index 91a11c6..1d28662 100644
--- a/src/media_type.rs
+++ b/src/media_type.rs
@@ -300,7 +300,10 @@ impl AnonymizingClone for SdpMedia {
         let mut masked = SdpMedia {
             media: self.media.clone(),
             bandwidth: self.bandwidth.clone(),
-            connection: self.connection.clone(),
+            connection: self
+                .connection
+                .as_ref()
+                .map(|con| con.masked_clone(anon)),
             attribute: Vec::new(),
         };
         for i in &self.attribute {
-- 
2.43.0


From f217e71a2b52f746839c4feb21d2b0a8e235bcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:06 +0000
Subject: [PATCH 04/13] fix: mask the address of the rtcp attribute

---
 src/attribute_type.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index b3de496..8629447 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -463,6 +463,18 @@ impl fmt::Display for SdpAttributeRtcp {
     }
 }
 
+impl AnonymizingClone for SdpAttributeRtcp {
+    fn masked_clone(&self, anon: &mut StatefulSdpAnonymizer) -> Self {
+        SdpAttributeRtcp {
+            port: self.port,
+            unicast_addr: self
+                .unicast_addr
+                .as_ref()
+                .map(|addr| anon.mask_typed_address(addr)),
+        }
+    }
+}
+
 #[derive(Clone)]
 #[cfg_attr(feature = "serialize", derive(Serialize))]
 #[cfg_attr(feature = "enhanced_debug", derive(Debug))]
@@ -1581,6 +1593,7 @@ impl AnonymizingClone for SdpAttribute {
             SdpAttribute::IcePwd(i) => SdpAttribute::IcePwd(anon.mask_ice_password(i)),
             SdpAttribute::IceUfrag(i) => SdpAttribute::IceUfrag(anon.mask_ice_user(i)),
             SdpAttribute::RemoteCandidate(i) => SdpAttribute::RemoteCandidate(i.masked_clone(anon)),
+            SdpAttribute::Rtcp(i) => SdpAttribute::Rtcp(i.masked_clone(anon)),
             SdpAttribute::Ssrc(i) => SdpAttribute::Ssrc(i.masked_clone(anon)),
             _ => self.clone(),
         }
-- 
2.43.0


From 2e830e0be5b368f3840cc494820ad308e0c94a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:06 +0000
Subject: [PATCH 05/13] fix: mask the ICE user fragment of a candidate

---
 src/attribute_type.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 8629447..9ae79bb 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -298,6 +298,10 @@ impl AnonymizingClone for SdpAttributeCandidate {
             .clone()
             .map(|addr| anonymizer.mask_address(&addr));
         masked.rport = self.rport.map(|port| anonymizer.mask_port(port));
+        masked.ufrag = self
+            .ufrag
+            .as_ref()
+            .map(|ufrag| anonymizer.mask_ice_user(ufrag));
         masked
     }
 }
-- 
2.43.0


From 0c148b59cf1c9e84705b68900da5ad8cc2522471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:06 +0000
Subject: [PATCH 06/13] fix: print unknown fmtp parameters separated by
 semicolons

---
 src/attribute_type.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 9ae79bb..840d67b 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -716,7 +716,7 @@ impl fmt::Display for SdpAttributeFmtpParameters {
                 maybe_print_bool_param("stereo", self.stereo, false),
                 maybe_print_bool_param("useinbandfec", self.useinbandfec, false),
                 maybe_print_bool_param("cbr", self.cbr, false),
-                maybe_vector_to_string!("{}", self.unknown_tokens, ",")
+                maybe_vector_to_string!("{}", self.unknown_tokens, ";")
             ]
             .join(";")
         )
-- 
2.43.0


From fde23c31036fe71b049ee8c748d0310fbab002f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:20 +0000
Subject: [PATCH 07/13] fix: print no line at all for a list whose elements all
 print as nothing

---
 src/attribute_type.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 840d67b..8902bde 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -39,19 +39,17 @@ macro_rules! write_option_string {
 
 #[macro_export]
 macro_rules! maybe_vector_to_string {
-    ($fmt_str:expr, $vec:expr, $sep:expr) => {
-        match $vec.len() {
+    ($fmt_str:expr, $vec:expr, $sep:expr) => {{
+        let strings = $vec
+            .iter()
+            .map(ToString::to_string)
+            .filter(|s| !s.is_empty())
+            .collect::<Vec<String>>();
+        match strings.len() {
             0 => "".to_string(),
-            _ => format!(
-                $fmt_str,
-                $vec.iter()
-                    .map(ToString::to_string)
-                    .filter(|s| !s.is_empty())
-                    .collect::<Vec<String>>()
-                    .join($sep)
-            ),
+            _ => format!($fmt_str, strings.join($sep)),
         }
-    };
+    }};
 }
 
 #[macro_export]
-- 
2.43.0


From 3e71140e00bcc02587e2957df8f292647ae69c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:34 +0000
Subject: [PATCH 08/13] fix: reject negative frame rates

---
 src/attribute_type.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 8902bde..02d3d75 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -2387,9 +2387,9 @@ fn parse_framerate(to_parse: &str) -> Result<SdpAttribute, SdpParserInternalErro
         ));
     }
 
-    if framerate == 0.0 {
+    if framerate <= 0.0 {
         return Err(SdpParserInternalError::Generic(
-            "FrameRate attribute cannot be zero".to_string(),
+            "FrameRate attribute must be positive".to_string(),
         ));
     }
 
-- 
2.43.0


From d23360b7280dc8a61bd8385c49db4e1be84556ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:36 +0000
Subject: [PATCH 09/13] fix: do not drop the rest of an imageattr after an
 unbalanced bracket

---
 src/attribute_type.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 02d3d75..a39e403 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -2489,6 +2489,10 @@ fn parse_imageattr_tokens(to_parse: &str, separator: char) -> Vec<String> {
         }
     }
 
+    if !current_tokens.is_empty() {
+        tokens.push(current_tokens.join(&separator.to_string()));
+    }
+
     tokens
 }
 
-- 
2.43.0


From 1b430609e6b2c1876c567caf80dfaed259bdf1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:02 +0000
Subject: [PATCH 10/13] fix: reject a bracketed imageattr sar value that is no
 range and no list

---
 src/attribute_type.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index a39e403..0c2ce43 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -2650,6 +2650,10 @@ fn parse_image_attr_set(
                         last_value = *value;
                     }
                     sar = Some(SdpAttributeImageAttrSRange::DiscreteValues(values))
+                } else {
+                    return Err(SdpParserInternalError::Generic(
+                        "imageattr's sar value in brackets must be a range or a list".to_string(),
+                    ));
                 }
             } else {
                 sar = Some(SdpAttributeImageAttrSRange::DiscreteValues(vec![
-- 
2.43.0


From abeb4b95fe915b42f758802e332f52f31ac35481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:05 +0000
Subject: [PATCH 11/13] fix: print the other fmtp parameters next to the rtx
 ones

---
 src/attribute_type.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 0c2ce43..407a2e9 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -655,10 +655,6 @@ pub struct SdpAttributeFmtpParameters {
 
 impl fmt::Display for SdpAttributeFmtpParameters {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        if let Some(ref rtx) = self.rtx {
-            // rtx
-            return write!(f, "{rtx}");
-        }
         if !self.dtmf_tones.is_empty() {
             // telephone-event
             return write!(f, "{}", self.dtmf_tones);
@@ -676,6 +672,7 @@ impl fmt::Display for SdpAttributeFmtpParameters {
             f,
             "{}",
             non_empty_string_vec![
+                option_to_string!("{}", self.rtx),
                 maybe_print_param(
                     "profile-level-id=",
                     format!("{:06x}", self.profile_level_id),
-- 
2.43.0


From 766ab8b7fdfd06f7035b5282c99e7a226ffaf8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:08 +0000
Subject: [PATCH 12/13] fix: print simulcast lists with empty or '=' containing
 entries so that they can be parsed

---
 src/attribute_type.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 407a2e9..4047229 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -424,11 +424,31 @@ pub struct SdpAttributeSimulcast {
     pub receive: Vec<SdpAttributeSimulcastVersion>,
 }
 
+fn simulcast_versions_to_string(
+    direction: &str,
+    versions: &[SdpAttributeSimulcastVersion],
+) -> String {
+    if versions.is_empty() {
+        return "".to_string();
+    }
+    let list = versions
+        .iter()
+        .map(ToString::to_string)
+        .collect::<Vec<String>>()
+        .join(";");
+    // Without its descriptor such a list would not be read back as a list
+    if list.is_empty() || list.contains('=') {
+        format!("{direction} rid={list}")
+    } else {
+        format!("{direction} {list}")
+    }
+}
+
 impl fmt::Display for SdpAttributeSimulcast {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         non_empty_string_vec![
-            maybe_vector_to_string!("send {}", self.send, ";"),
-            maybe_vector_to_string!("recv {}", self.receive, ";")
+            simulcast_versions_to_string("send", &self.send),
+            simulcast_versions_to_string("recv", &self.receive)
         ]
         .join(" ")
         .fmt(f)
-- 
2.43.0


From d22181c8f70300b1b831a8080838e059014ab1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:11 +0000
Subject: [PATCH 13/13] fix: keep empty entries when printing the depends list
 of a rid

---
 src/attribute_type.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 4047229..7e1f5b3 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -1170,7 +1170,10 @@ impl fmt::Display for SdpAttributeRid {
             format = match non_empty_string_vec![
                 maybe_vector_to_string!("pt={}", self.formats, ","),
                 self.params.to_string(),
-                maybe_vector_to_string!("depends={}", self.depends, ",")
+                match self.depends.len() {
+                    0 => "".to_string(),
+                    _ => format!("depends={}", self.depends.join(",")),
+                }
             ]
             .join(";")
             .as_str()
-- 
2.43.0

