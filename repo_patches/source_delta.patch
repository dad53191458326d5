From 4bb97c036527c599bd6690803f67203b31af1d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:23 +0000
Subject: [PATCH 01/10] fix: match validation patterns against the whole value

XML schema patterns are anchored; an unanchored search accepted any value
that merely contained a matching substring (for example a BIC or IBAN
embedded in arbitrary text).
---
 src/validation.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/validation.rs b/src/validation.rs
index 86fd23e..c6d2137 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -96,7 +96,8 @@ pub mod helpers {
         // Trim whitespace before validation
         let trimmed_value = value.trim();
 
-        let regex = match Regex::new(pattern) {
+        // Schema patterns apply to the whole value, not to a part of it
+        let regex = match Regex::new(&format!("^(?:{pattern})$")) {
             Ok(r) => r,
             Err(_) => {
                 collector.add_critical_error(
-- 
2.43.0


From ac5f13d29d6efe5c6477554b2658bc1cf0425043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:24 +0000
Subject: [PATCH 02/10] fix: report only the first error in fail-fast
 validation

The fail-fast configuration promises to stop at the first error, but each
helper only returned from itself, so every later failing field was still
added to the collector.
---
 src/validation.rs | 41 ++++++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/validation.rs b/src/validation.rs
index c6d2137..11e522d 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -54,7 +54,7 @@ pub mod helpers {
             .with_path(path.to_string());
 
             if config.fail_fast {
-                collector.add_critical_error(error);
+                report_first(error, collector);
                 return false;
             } else {
                 collector.add_error(error);
@@ -73,7 +73,7 @@ pub mod helpers {
             .with_path(path.to_string());
 
             if config.fail_fast {
-                collector.add_critical_error(error);
+                report_first(error, collector);
                 return false;
             } else {
                 collector.add_error(error);
@@ -100,14 +100,18 @@ pub mod helpers {
         let regex = match Regex::new(&format!("^(?:{pattern})$")) {
             Ok(r) => r,
             Err(_) => {
-                collector.add_critical_error(
-                    ValidationError::new(
-                        9999,
-                        format!("Invalid regex pattern for {field_name}: {pattern}"),
-                    )
-                    .with_field(field_name.to_string())
-                    .with_path(path.to_string()),
-                );
+                let error = ValidationError::new(
+                    9999,
+                    format!("Invalid regex pattern for {field_name}: {pattern}"),
+                )
+                .with_field(field_name.to_string())
+                .with_path(path.to_string());
+
+                if config.fail_fast {
+                    report_first(error, collector);
+                } else {
+                    collector.add_critical_error(error);
+                }
                 return false;
             }
         };
@@ -121,7 +125,7 @@ pub mod helpers {
             .with_path(path.to_string());
 
             if config.fail_fast {
-                collector.add_critical_error(error);
+                report_first(error, collector);
                 return false;
             } else {
                 collector.add_error(error);
@@ -137,7 +141,7 @@ pub mod helpers {
         value: &Option<T>,
         field_name: &str,
         path: &str,
-        _config: &ParserConfig,
+        config: &ParserConfig,
         collector: &mut ErrorCollector,
     ) -> bool {
         if value.is_none() {
@@ -145,12 +149,23 @@ pub mod helpers {
                 .with_field(field_name.to_string())
                 .with_path(path.to_string());
 
-            collector.add_critical_error(error);
+            if config.fail_fast {
+                report_first(error, collector);
+            } else {
+                collector.add_critical_error(error);
+            }
             return false;
         }
         true
     }
 
+    /// Report an error in fail-fast mode: only the first one is kept
+    fn report_first(error: ValidationError, collector: &mut ErrorCollector) {
+        if !collector.has_errors() {
+            collector.add_critical_error(error);
+        }
+    }
+
     /// Create a child path for nested validation
     pub fn child_path(parent: &str, field: &str) -> String {
         if parent.is_empty() {
-- 
2.43.0


From 11279ba6ae67dcd1a4e30fc0408a64248bdbcc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:46 +0000
Subject: [PATCH 03/10] fix: do not panic when text ends right after the
 Document tag's child '<'

extract_message_type_from_xml indexed one byte past the end for input such
as "<Document><".
---
 src/plugin/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plugin/common.rs b/src/plugin/common.rs
index 9a05c5c..a36b0bd 100644
--- a/src/plugin/common.rs
+++ b/src/plugin/common.rs
@@ -93,7 +93,7 @@ pub fn extract_message_type_from_xml(xml_str: &str) -> Result<String> {
 
             // Find the first element after Document
             if let Some(elem_start) = after_doc.find('<')
-                && after_doc.as_bytes()[elem_start + 1] != b'/'
+                && after_doc.as_bytes().get(elem_start + 1) != Some(&b'/')
             {
                 let elem_name_start = elem_start + 1;
                 // Find the end of the element name (space or >)
-- 
2.43.0


From 7ec42d551f90e07493c35281fb84d92ba0d7368c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:46 +0000
Subject: [PATCH 04/10] fix: do not panic when </Document> precedes <Document>

xml_to_json_via_document sliced with a start beyond its end for such input.
---
 src/xml.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/xml.rs b/src/xml.rs
index a6d2eda..3df5912 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -74,7 +74,9 @@ pub fn xml_to_json_via_document(
     let inner_xml = if let Some(start_idx) = inner_xml.find("<Document") {
         if let Some(end_bracket) = inner_xml[start_idx..].find('>') {
             let content_start = start_idx + end_bracket + 1;
-            if let Some(end_idx) = inner_xml.rfind("</Document>") {
+            if let Some(end_idx) = inner_xml.rfind("</Document>")
+                && content_start <= end_idx
+            {
                 &inner_xml[content_start..end_idx]
             } else {
                 inner_xml
-- 
2.43.0


From c8470ffed8b4c84f66cb434ad32a06fcae9937d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:46 +0000
Subject: [PATCH 05/10] fix: let from_mx_xml_envelope_str accept valid messages

Document-only XML was handed to MxMessage::from_xml, which always refuses
it, and envelopes were deserialized without the custom document dispatch,
which never succeeds; the validate plugin therefore reported every
Document-only message as invalid.
---
 src/xml.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/xml.rs b/src/xml.rs
index 3df5912..13b9d14 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -19,8 +19,8 @@ pub fn from_mx_xml_envelope_str(xml: &str, message_type: &str) -> Result<(), Xml
     let has_envelope = xml.contains("<AppHdr") || xml.contains("<Envelope");
 
     if !has_envelope {
-        // No envelope, validate using MxMessage which handles Document-only
-        MxMessage::from_xml(xml).map_err(|e| {
+        // No envelope, validate with the Document-only parser
+        xml_to_json_via_document(xml, message_type).map_err(|e| {
             MxError::XmlDeserialization(format!(
                 "Failed to validate Document (message_type={}): {}",
                 message_type, e
@@ -31,7 +31,7 @@ pub fn from_mx_xml_envelope_str(xml: &str, message_type: &str) -> Result<(), Xml
 
     // Parse as full envelope with AppHdr - validate by attempting deserialization
     // All message types use the same BusinessApplicationHeaderV02
-    xml_from_str::<MxMessage>(xml).map_err(|e| {
+    MxMessage::from_xml(xml).map_err(|e| {
         MxError::XmlDeserialization(format!("Failed to parse {} envelope: {}", message_type, e))
     })?;
 
-- 
2.43.0


From 6eb64607f18a93e77a45c563675333badcf22d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:46 +0000
Subject: [PATCH 06/10] fix: support every registered message type in
 Document-only parsing

pain.002, camt.055, camt.058, camt.105 and camt.106 are registered and
parsed inside an envelope, but were refused as unsupported without one.
---
 src/xml.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/xml.rs b/src/xml.rs
index 13b9d14..9917833 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -123,6 +123,11 @@ pub fn xml_to_json_via_document(
             pain_001_001_09::CustomerCreditTransferInitiationV09,
             "pain.001"
         ),
+        "pain.002" => xml_to_json_doc!(
+            inner_xml,
+            pain_002_001_10::CustomerPaymentStatusReportV10,
+            "pain.002"
+        ),
         "pain.008" => xml_to_json_doc!(
             inner_xml,
             pain_008_001_08::CustomerDirectDebitInitiationV08,
@@ -149,6 +154,11 @@ pub fn xml_to_json_via_document(
             camt_054_001_08::BankToCustomerDebitCreditNotificationV08,
             "camt.054"
         ),
+        "camt.055" => xml_to_json_doc!(
+            inner_xml,
+            camt_055_001_08::CustomerPaymentCancellationRequestV08,
+            "camt.055"
+        ),
         "camt.056" => xml_to_json_doc!(
             inner_xml,
             camt_056_001_08::FIToFIPaymentCancellationRequestV08,
@@ -159,11 +169,26 @@ pub fn xml_to_json_via_document(
             camt_057_001_06::NotificationToReceiveV06,
             "camt.057"
         ),
+        "camt.058" => xml_to_json_doc!(
+            inner_xml,
+            camt_058_001_08::NotificationToReceiveCancellationAdviceV08,
+            "camt.058"
+        ),
         "camt.060" => xml_to_json_doc!(
             inner_xml,
             camt_060_001_05::AccountReportingRequestV05,
             "camt.060"
         ),
+        "camt.105" => xml_to_json_doc!(
+            inner_xml,
+            camt_105_001_02::ChargesPaymentNotificationV02,
+            "camt.105"
+        ),
+        "camt.106" => xml_to_json_doc!(
+            inner_xml,
+            camt_106_001_02::ChargesPaymentRequestV02,
+            "camt.106"
+        ),
         "camt.107" => xml_to_json_doc!(
             inner_xml,
             camt_107_001_01::ChequePresentmentNotificationV01,
-- 
2.43.0


From 08623ce18b9e63bad4604fb4d85ac6fa73f96434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:18 +0000
Subject: [PATCH 07/10] fix: return an error when message data or metadata is
 not an object

The parse and validate handlers panicked on such messages; the generate
handler already reports a validation error.
---
 src/plugin/parse.rs    | 24 ++++++++++++++++--------
 src/plugin/validate.rs | 24 ++++++++++++++++--------
 2 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/src/plugin/parse.rs b/src/plugin/parse.rs
index c6dfa3a..1b47938 100644
--- a/src/plugin/parse.rs
+++ b/src/plugin/parse.rs
@@ -110,20 +110,28 @@ impl Parse {
 
         debug!(message_type = %message_type, "Successfully parsed XML to JSON");
 
+        if !message.metadata().is_object() {
+            return Err(DataflowError::Validation(
+                "Message metadata must be an object".to_string(),
+            ));
+        }
+
         // Store the parsed result in message data
         message
             .data_mut()
             .as_object_mut()
-            .unwrap()
+            .ok_or_else(|| DataflowError::Validation("Message data must be an object".to_string()))?
             .insert(target_field.to_string(), parsed_data.clone());
 
-        message.metadata_mut().as_object_mut().unwrap().insert(
-            target_field.to_string(),
-            json!({
-                "message_type": message_type,
-                "format": "json",
-            }),
-        );
+        if let Some(metadata) = message.metadata_mut().as_object_mut() {
+            metadata.insert(
+                target_field.to_string(),
+                json!({
+                    "message_type": message_type,
+                    "format": "json",
+                }),
+            );
+        }
 
         debug!(
             message_type = %message_type,
diff --git a/src/plugin/validate.rs b/src/plugin/validate.rs
index a124c8e..89c0655 100644
--- a/src/plugin/validate.rs
+++ b/src/plugin/validate.rs
@@ -55,21 +55,29 @@ impl AsyncFunctionHandler for Validate {
         // Perform XML validation
         let validation_result = self.validate_xml(&xml_content)?;
 
+        if !message.metadata().is_object() {
+            return Err(DataflowError::Validation(
+                "Message metadata must be an object".to_string(),
+            ));
+        }
+
         // Store validation result
         message
             .data_mut()
             .as_object_mut()
-            .unwrap()
+            .ok_or_else(|| DataflowError::Validation("Message data must be an object".to_string()))?
             .insert(target_field.to_string(), validation_result.clone());
 
         // Update metadata with validation summary
-        message.metadata_mut().as_object_mut().unwrap().insert(
-            "validation".to_string(),
-            json!({
-                "validated": true,
-                "timestamp": chrono::Utc::now().to_rfc3339(),
-            }),
-        );
+        if let Some(metadata) = message.metadata_mut().as_object_mut() {
+            metadata.insert(
+                "validation".to_string(),
+                json!({
+                    "validated": true,
+                    "timestamp": chrono::Utc::now().to_rfc3339(),
+                }),
+            );
+        }
 
         message.invalidate_context_cache();
 
-- 
2.43.0


From d464f3718c23b0384e89660cb59a731bdd92ab54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:18 +0000
Subject: [PATCH 08/10] fix: record the previous target value in parse and
 validate audit changes

Both handlers always reported Null as the old value, even when they
overwrote an existing field; publish and generate report the real one.
---
 src/plugin/parse.rs    | 8 +++++++-
 src/plugin/validate.rs | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/plugin/parse.rs b/src/plugin/parse.rs
index 1b47938..dd3ba3e 100644
--- a/src/plugin/parse.rs
+++ b/src/plugin/parse.rs
@@ -116,6 +116,12 @@ impl Parse {
             ));
         }
 
+        let old_value = message
+            .data()
+            .get(target_field)
+            .cloned()
+            .unwrap_or(Value::Null);
+
         // Store the parsed result in message data
         message
             .data_mut()
@@ -146,7 +152,7 @@ impl Parse {
             200,
             vec![Change {
                 path: Arc::from(format!("data.{}", target_field)),
-                old_value: Arc::new(Value::Null),
+                old_value: Arc::new(old_value),
                 new_value: Arc::new(parsed_data),
             }],
         ))
diff --git a/src/plugin/validate.rs b/src/plugin/validate.rs
index 89c0655..91aab65 100644
--- a/src/plugin/validate.rs
+++ b/src/plugin/validate.rs
@@ -61,6 +61,12 @@ impl AsyncFunctionHandler for Validate {
             ));
         }
 
+        let old_value = message
+            .data()
+            .get(target_field)
+            .cloned()
+            .unwrap_or(Value::Null);
+
         // Store validation result
         message
             .data_mut()
@@ -85,7 +91,7 @@ impl AsyncFunctionHandler for Validate {
             200,
             vec![Change {
                 path: Arc::from(format!("data.{}", target_field)),
-                old_value: Arc::new(Value::Null),
+                old_value: Arc::new(old_value),
                 new_value: Arc::new(validation_result),
             }],
         ))
-- 
2.43.0


From 577bc85d5ef0c09b30c4a5adfdfaa88f03abac7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:15 +0000
Subject: [PATCH 09/10] fix: report a pattern with unbalanced parentheses as
 invalid

---
 src/validation.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/validation.rs b/src/validation.rs
index 11e522d..dac3e25 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -97,7 +97,8 @@ pub mod helpers {
         let trimmed_value = value.trim();
 
         // Schema patterns apply to the whole value, not to a part of it
-        let regex = match Regex::new(&format!("^(?:{pattern})$")) {
+        let regex = match Regex::new(pattern).and_then(|_| Regex::new(&format!("^(?:{pattern})$")))
+        {
             Ok(r) => r,
             Err(_) => {
                 let error = ValidationError::new(
-- 
2.43.0


From 5829b32fbf7b15b43392981c95a5f9c299e96ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:59 +0000
Subject: [PATCH 10/10] fix: end the root element name at any XML white space
 when extracting the message type

---
 src/plugin/common.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plugin/common.rs b/src/plugin/common.rs
index a36b0bd..7e2c9e6 100644
--- a/src/plugin/common.rs
+++ b/src/plugin/common.rs
@@ -96,9 +96,9 @@ pub fn extract_message_type_from_xml(xml_str: &str) -> Result<String> {
                 && after_doc.as_bytes().get(elem_start + 1) != Some(&b'/')
             {
                 let elem_name_start = elem_start + 1;
-                // Find the end of the element name (space or >)
+                // Find the end of the element name (white space, > or /)
                 let elem_name_end = after_doc[elem_name_start..]
-                    .find([' ', '>', '/'])
+                    .find([' ', '\t', '\r', '\n', '>', '/'])
                     .map(|i| elem_name_start + i)
                     .unwrap_or(after_doc.len());
 
-- 
2.43.0

