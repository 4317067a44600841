From 9d060d1ed61faeef47021f5547ee34469b2d676a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:05 +0000
Subject: [PATCH 01/17] fix: report truncated messages as UnexpectedEndOfFile
 instead of parsing zero-filled data

---
 core/src/parser.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index f9623d6..52b25f7 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -150,6 +150,12 @@ impl<R: Read> ULogParser<R> {
     pub(crate) fn read_message(&mut self, msg_size: usize) -> Result<MessageBuf, ULogError> {
         let mut message: Vec<u8> = vec![0; msg_size];
         self.datastream.read_exact(&mut message)?;
+
+        // The datastream signals EOF without filling the buffer, so a truncated message must not be parsed.
+        if self.datastream.eof {
+            return Err(ULogError::UnexpectedEndOfFile);
+        }
+
         Ok(MessageBuf::from_vec(message))
     }
 
@@ -372,6 +378,11 @@ impl<R: Read> ULogParser<R> {
         }
 
         let msg_type = ULogMessageType::from(self.datastream.read_u8()?);
+
+        if self.datastream.eof {
+            return Err(ULogError::UnexpectedEndOfFile);
+        }
+
         log::trace!("MSG HEADER: {msg_size} {msg_type:?}");
 
         Ok(Some(ULogMessageHeader { msg_size, msg_type }))
@@ -565,6 +576,10 @@ impl<R: Read> ULogParser<R> {
         let mut msg_header = [0; 16];
         self.datastream.read_exact(&mut msg_header)?;
 
+        if self.datastream.eof {
+            return Err(ULogError::UnexpectedEndOfFile);
+        }
+
         if msg_header[0..7] != MAGIC {
             return Err(ULogError::InvalidMagicBits);
         }
-- 
2.43.0


From 2d4f58247d8854547c3d5d185cafd9880e8479a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:05 +0000
Subject: [PATCH 02/17] fix: do not panic on array sizes which overflow usize

---
 core/src/tokenizer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/src/tokenizer.rs b/core/src/tokenizer.rs
index e74ba33..481690b 100644
--- a/core/src/tokenizer.rs
+++ b/core/src/tokenizer.rs
@@ -76,7 +76,12 @@ pub fn tokenize(input: &str) -> VecDeque<Token<'_>> {
         if let Some(identifier) = caps.name("identifier") {
             tokens.push_back(Token::Identifier(identifier.as_str()));
         } else if let Some(number) = caps.name("number") {
-            tokens.push_back(Token::Number(number.as_str().parse::<usize>().unwrap()));
+            let number = number.as_str();
+            tokens.push_back(match number.parse::<usize>() {
+                Ok(value) => Token::Number(value),
+                // The number does not fit in a usize, let the caller report it as an unexpected token.
+                Err(_) => Token::Unknown(number.chars().next().unwrap()),
+            });
         } else if caps.name("colon").is_some() {
             tokens.push_back(Token::Colon);
         } else if caps.name("semicolon").is_some() {
-- 
2.43.0


From 99889ddc2d6a3a1fd0ad699434eefaf8fc2ba898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:05 +0000
Subject: [PATCH 03/17] fix: avoid integer overflow in MessageBuf::advance for
 huge sizes

---
 core/src/message_buf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/message_buf.rs b/core/src/message_buf.rs
index a0b8e6c..f3bccd6 100644
--- a/core/src/message_buf.rs
+++ b/core/src/message_buf.rs
@@ -247,7 +247,7 @@ impl MessageBuf {
     /// A `Result` containing a reference to the next slice of bytes or an
     /// error message if there are not enough remaining bytes in the buffer.
     pub fn advance(&mut self, size: usize) -> Result<&[u8], ULogError> {
-        if self.current_index + size > self.buf.len() {
+        if size > self.len() {
             Err(ULogError::ParseError(format!(
                 "MessageBuf: Out of bounds: tried to read {} bytes, but only {} remaining",
                 size,
-- 
2.43.0


From 41f5c0c5fde4b91e824c347c0186d2d357601bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:27 +0000
Subject: [PATCH 04/17] fix: bound nesting depth and allocation by the message
 size when decoding nested formats and arrays

---
 core/src/field_helpers.rs |  3 ++-
 core/src/parser.rs        | 48 +++++++++++++++++++++++++++++++++------
 2 files changed, 43 insertions(+), 8 deletions(-)

diff --git a/core/src/field_helpers.rs b/core/src/field_helpers.rs
index 0ec5638..683cb05 100644
--- a/core/src/field_helpers.rs
+++ b/core/src/field_helpers.rs
@@ -82,7 +82,8 @@ pub fn parse_array<T, F>(
 where
     F: FnMut(&mut MessageBuf) -> Result<T, ULogError>,
 {
-    let mut array = Vec::with_capacity(array_size);
+    // The array size is untrusted, every element takes at least one byte of the message.
+    let mut array = Vec::with_capacity(array_size.min(message_buf.len()));
     for _ in 0..array_size {
         array.push(parse_element(message_buf)?);
     }
diff --git a/core/src/parser.rs b/core/src/parser.rs
index 52b25f7..86a4c5d 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -18,6 +18,9 @@ use crate::model::msg::{
 use crate::model::{def, inst, msg, Shared, MAGIC};
 use crate::tokenizer::TokenList;
 
+/// Maximum nesting depth of message formats, guards against recursive format definitions.
+const MAX_NESTING_DEPTH: usize = 64;
+
 pub struct ULogParser<R: Read> {
     state: State,
     file_header: Option<FileHeader>,
@@ -400,7 +403,7 @@ impl<R: Read> ULogParser<R> {
             return Err(ULogError::MissingTimestamp);
         }
 
-        let mut data_format = self.parse_data_message_sub(format, &mut message_buf)?;
+        let mut data_format = self.parse_data_message_sub(format, &mut message_buf, 0)?;
 
         if self.message_name_with_multi_id.contains(&sub.message_name) {
             data_format.multi_id_index = Some(sub.multi_id);
@@ -426,6 +429,7 @@ impl<R: Read> ULogParser<R> {
         &self,
         format: Shared<def::Format>,
         message_buf: &mut MessageBuf,
+        depth: usize,
     ) -> Result<inst::Format, ULogError> {
         let mut fields: Vec<inst::Field> = Vec::with_capacity(format.fields.len());
         let mut timestamp: Option<u64> = None;
@@ -439,7 +443,7 @@ impl<R: Read> ULogParser<R> {
                 continue;
             }
 
-            let value: inst::FieldValue = self.parse_field_value(field, message_buf)?;
+            let value: inst::FieldValue = self.parse_field_value(field, message_buf, depth)?;
 
             // ⚠️ Extract the timestamp field if present.
             // According to the ULOG spec, the timestamp for a LOGGED_DATA message is the value of
@@ -472,6 +476,34 @@ impl<R: Read> ULogParser<R> {
         })
     }
 
+    fn parse_nested_format(
+        &self,
+        format: Shared<def::Format>,
+        message_buf: &mut MessageBuf,
+        depth: usize,
+    ) -> Result<inst::Format, ULogError> {
+        // Format definitions may refer to each other in a cycle.
+        if depth >= MAX_NESTING_DEPTH {
+            return Err(ULogError::ParseError(format!(
+                "Nesting of format `{}` is too deep.",
+                format.name
+            )));
+        }
+
+        let len_before = message_buf.len();
+        let nested = self.parse_data_message_sub(format, message_buf, depth + 1)?;
+
+        // Without this check the number of nested values would not be limited by the size of the message.
+        if message_buf.len() == len_before {
+            return Err(ULogError::ParseError(format!(
+                "Nested format `{}` contains no data.",
+                nested.name
+            )));
+        }
+
+        Ok(nested)
+    }
+
     fn parse_padding(
         &self,
         field: &def::Field,
@@ -509,6 +541,7 @@ impl<R: Read> ULogParser<R> {
         &self,
         field: &def::Field,
         message_buf: &mut MessageBuf,
+        depth: usize,
     ) -> Result<inst::FieldValue, ULogError> {
         match field.r#type.array_size {
             None => {
@@ -531,13 +564,13 @@ impl<R: Read> ULogParser<R> {
                     OTHER(type_name) => {
                         let child_format = self.get_format(type_name)?;
                         ScalarOther(
-                            self.parse_data_message_sub(child_format, message_buf)?
+                            self.parse_nested_format(child_format, message_buf, depth)?
                                 .into(),
                         )
                     }
                 })
             }
-            Some(array_size) => self.parse_array_field(field, array_size, message_buf),
+            Some(array_size) => self.parse_array_field(field, array_size, message_buf, depth),
         }
     }
 
@@ -546,6 +579,7 @@ impl<R: Read> ULogParser<R> {
         field: &def::Field,
         array_size: usize,
         message_buf: &mut MessageBuf,
+        depth: usize,
     ) -> Result<inst::FieldValue, ULogError> {
         use def::BaseType::*;
         use inst::FieldValue::*;
@@ -566,7 +600,7 @@ impl<R: Read> ULogParser<R> {
             OTHER(type_name) => {
                 let child_format = &self.get_format(type_name)?;
                 ArrayOther(parse_array(array_size, message_buf, |buf| {
-                    self.parse_data_message_sub(child_format.clone(), buf)
+                    self.parse_nested_format(child_format.clone(), buf, depth)
                 })?)
             }
         })
@@ -700,7 +734,7 @@ impl<R: Read> ULogParser<R> {
         let mut tokens = TokenList::from_str(&raw_key);
         let field = parse_field(&mut tokens)?;
 
-        let value: inst::FieldValue = self.parse_field_value(&field, &mut message_buf)?;
+        let value: inst::FieldValue = self.parse_field_value(&field, &mut message_buf, 0)?;
 
         log::debug!("INFO {:?} {}:\t{}", field.r#type, &field.name, value);
 
@@ -721,7 +755,7 @@ impl<R: Read> ULogParser<R> {
         let mut tokens = TokenList::from_str(&raw_key);
         let field = parse_field(&mut tokens)?;
 
-        let value: inst::FieldValue = self.parse_field_value(&field, &mut message_buf)?;
+        let value: inst::FieldValue = self.parse_field_value(&field, &mut message_buf, 0)?;
 
         log::debug!("MULTI_INFO {:?} {}:\t{}", field.r#type, &field.name, value);
         log::debug!("is_continued = {is_continued}");
-- 
2.43.0


From 0296726a501ababbc15d60cf98da85258124fc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:27 +0000
Subject: [PATCH 05/17] fix: encode logged strings which have a tag as tagged
 logging messages

---
 core/src/encode.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/src/encode.rs b/core/src/encode.rs
index fe8b529..925de64 100644
--- a/core/src/encode.rs
+++ b/core/src/encode.rs
@@ -46,8 +46,12 @@ impl UlogMessage {
             UlogMessage::MultiInfo(_) => ULogMessageType::INFO_MULTIPLE,
             UlogMessage::Parameter(_) => ULogMessageType::PARAMETER,
             UlogMessage::DefaultParameter(_) => ULogMessageType::PARAMETER_DEFAULT,
-            UlogMessage::LoggedString(_) => ULogMessageType::LOGGING,
-            UlogMessage::TaggedLoggedString(_) => ULogMessageType::LOGGING_TAGGED,
+            // The parser returns both kinds as `LoggedString`, the tag tells them apart.
+            UlogMessage::LoggedString(logged_string)
+            | UlogMessage::TaggedLoggedString(logged_string) => match logged_string.tag {
+                None => ULogMessageType::LOGGING,
+                Some(_) => ULogMessageType::LOGGING_TAGGED,
+            },
             UlogMessage::DropoutMark(_) => ULogMessageType::DROPOUT,
             UlogMessage::Unhandled { msg_type, .. } | UlogMessage::Ignored { msg_type, .. } => {
                 ULogMessageType::from(*msg_type)
-- 
2.43.0


From 74f9cf00e05e4770393a4ea3a10823c08ac916ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:27 +0000
Subject: [PATCH 06/17] fix: keep the msg_id in the contents of
 REMOVE_SUBSCRIPTION messages

---
 core/src/parser.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index 86a4c5d..ee9de77 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -282,11 +282,13 @@ impl<R: Read> ULogParser<R> {
                 Ok(msg::UlogMessage::AddSubscription(sub))
             }
             ULogMessageType::REMOVE_SUBSCRIPTION => {
-                let msg_id = message_buf.take_u16()?;
+                // The msg_id is part of the message contents, so it must not be consumed.
+                let message_contents = message_buf.into_remaining_bytes();
+                let msg_id = MessageBuf::from_vec(message_contents.clone()).take_u16()?;
                 self.subscriptions.remove(&msg_id);
                 Ok(UlogMessage::Unhandled {
                     msg_type: message_type.into(),
-                    message_contents: message_buf.into_remaining_bytes(),
+                    message_contents,
                 })
             }
             ULogMessageType::DATA => {
-- 
2.43.0


From 20e70a686f55eadab2b07ed00c7c3c7f289a0c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:27 +0000
Subject: [PATCH 07/17] fix: reject unknown bits in the first incompat flags
 byte

---
 core/src/model.rs  | 2 +-
 core/src/parser.rs | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/src/model.rs b/core/src/model.rs
index 08b44dc..414d49e 100644
--- a/core/src/model.rs
+++ b/core/src/model.rs
@@ -64,7 +64,7 @@ pub mod msg {
 
     impl FlagBits {
         const ULOG_COMPAT_FLAG0_DEFAULT_PARAMETERS_MASK: u8 = 0b0000_0001; // Bit 0 indicates presence of DEFAULT_PARAMETERS
-        const ULOG_INCOMPAT_FLAG0_DATA_APPENDED_MASK: u8 = 0b0000_0001; // Bit 0 indicates presence of DATA_APPENDED
+        pub(crate) const ULOG_INCOMPAT_FLAG0_DATA_APPENDED_MASK: u8 = 0b0000_0001; // Bit 0 indicates presence of DATA_APPENDED
 
         // If true, the log contains default parameters message
         // FIXME: Handle default parameters.
diff --git a/core/src/parser.rs b/core/src/parser.rs
index ee9de77..dd0bfb8 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -711,7 +711,10 @@ impl<R: Read> ULogParser<R> {
         let incompat_flags: [u8; 8] = message_buf.advance(8)?.try_into().unwrap();
 
         // Check for any unknown bits in incompat_flags
-        let has_unknown_incompat_bits = incompat_flags.iter().skip(1).any(|&f| f != 0);
+        let has_unknown_incompat_bits = incompat_flags[0]
+            & !FlagBits::ULOG_INCOMPAT_FLAG0_DATA_APPENDED_MASK
+            != 0
+            || incompat_flags.iter().skip(1).any(|&f| f != 0);
 
         if has_unknown_incompat_bits {
             return Err(ULogError::UnknownIncompatBits);
-- 
2.43.0


From b1e2579ce846774679229714dea341ec93e466fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:27 +0000
Subject: [PATCH 08/17] fix: report messages and keys which are too large to
 encode instead of truncating their size

---
 core/src/encode.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/core/src/encode.rs b/core/src/encode.rs
index 925de64..9926af1 100644
--- a/core/src/encode.rs
+++ b/core/src/encode.rs
@@ -24,7 +24,12 @@ impl Encode for UlogMessage {
                 let mut content_buf = Vec::new();
                 other.encode_content(&mut content_buf)?;
 
-                let msg_size = content_buf.len() as u16;
+                let msg_size = u16::try_from(content_buf.len()).map_err(|_| {
+                    io::Error::new(
+                        io::ErrorKind::InvalidInput,
+                        "Message is too large to be encoded.",
+                    )
+                })?;
                 writer.write_all(&msg_size.to_le_bytes())?;
                 writer.write_all(&[u8::from(other.message_type())])?;
                 writer.write_all(&content_buf)?;
@@ -124,7 +129,7 @@ impl Encode for msg::Info {
         key_bytes.push(b' ');
         key_bytes.extend_from_slice(self.key.as_bytes());
 
-        writer.write_all(&[key_bytes.len() as u8])?;
+        writer.write_all(&[key_len(&key_bytes)?])?;
         writer.write_all(&key_bytes)?;
         self.value.encode(writer)?;
         Ok(())
@@ -141,7 +146,7 @@ impl Encode for msg::MultiInfo {
         key_bytes.push(b' ');
         key_bytes.extend_from_slice(self.key.as_bytes());
 
-        writer.write_all(&[key_bytes.len() as u8])?;
+        writer.write_all(&[key_len(&key_bytes)?])?;
         writer.write_all(&key_bytes)?;
         self.value.encode(writer)?;
         Ok(())
@@ -156,7 +161,7 @@ impl Encode for msg::Parameter {
         key_bytes.push(b' ');
         key_bytes.extend_from_slice(self.key.as_bytes());
 
-        writer.write_all(&[key_bytes.len() as u8])?;
+        writer.write_all(&[key_len(&key_bytes)?])?;
         writer.write_all(&key_bytes)?;
         self.value.encode(writer)?;
         Ok(())
@@ -173,7 +178,7 @@ impl Encode for msg::DefaultParameter {
         key_bytes.push(b' ');
         key_bytes.extend_from_slice(self.key.as_bytes());
 
-        writer.write_all(&[key_bytes.len() as u8])?;
+        writer.write_all(&[key_len(&key_bytes)?])?;
         writer.write_all(&key_bytes)?;
         self.value.encode(writer)?;
         Ok(())
@@ -408,6 +413,15 @@ impl<T: Encode> Encode for &T {
     }
 }
 
+fn key_len(key_bytes: &[u8]) -> io::Result<u8> {
+    u8::try_from(key_bytes.len()).map_err(|_| {
+        io::Error::new(
+            io::ErrorKind::InvalidInput,
+            "Key is too long to be encoded.",
+        )
+    })
+}
+
 // Convenience method to encode to Vec<u8>
 trait EncodeToVec {
     fn encode_to_vec(&self) -> io::Result<Vec<u8>>;
-- 
2.43.0


From 46f5d6229a4875ee8043c66c0e3c759f5c163b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:27 +0000
Subject: [PATCH 09/17] fix: apply the allow list to the current subscription
 when a msg_id is reused

---
 core/src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index dd0bfb8..e36e0e2 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -70,6 +70,9 @@ impl SubscriptionFilter {
                     .as_mut()
                     .unwrap()
                     .insert(sub.msg_id);
+            } else if let Some(allowed_ids) = self.allowed_subscription_ids.as_mut() {
+                // The msg_id may have been used earlier by an allowed subscription.
+                allowed_ids.remove(&sub.msg_id);
             }
         }
     }
-- 
2.43.0


From edf9ede47909ba24ccddbb262ba34511f37f6fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:27 +0000
Subject: [PATCH 10/17] fix: forward messages to the annotated variant whatever
 the names of the enum and the variant

---
 macros/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 733d2fd..0c6f89c 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -516,7 +516,7 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
     let extra_logged_msg_conditional = match has_forward_other {
         true => quote! {
             else {
-                return Some(Ok(LoggedMessages::Other(UlogMessage::LoggedData(data))));
+                return Some(Ok(#enum_name::#forward_other_variant_ident(UlogMessage::LoggedData(data))));
             }
         },
         false => quote! {},
@@ -526,7 +526,7 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
         true => quote! {
             // forward unhandled subscription messages when the user requested them.
             if self.forward_subscriptions {
-                return Some(Ok(LoggedMessages::Other(UlogMessage::AddSubscription(sub))));
+                return Some(Ok(#enum_name::#forward_other_variant_ident(UlogMessage::AddSubscription(sub))));
             }
         },
         false => quote! {},
-- 
2.43.0


From d21066ed065b49909ffc417eb20e36365910a5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:27 +0000
Subject: [PATCH 11/17] fix: drop the mapping of a msg_id which is reused by
 another subscription

---
 macros/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 0c6f89c..210f787 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -669,6 +669,9 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
 
                     match msg {
                         UlogMessage::AddSubscription(sub) => {
+                            // The msg_id may have been used earlier by another mapped subscription.
+                            self.subs.remove(&sub.msg_id);
+
                             match (sub.message_name.as_str(), sub.multi_id) {
                                 #( #add_subscription_arms )*
                                 _ => {
-- 
2.43.0


From 08398687b801456ed4113984f0691411f9ea4d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:19 +0000
Subject: [PATCH 12/17] fix: consume the actual size of padding fields which
 are not byte arrays

---
 core/src/parser.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index e36e0e2..ff52cad 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -442,7 +442,7 @@ impl<R: Read> ULogParser<R> {
         for field in &format.fields {
             // Handle padding fields.
             if field.name.starts_with("_padding") {
-                if let Some(padding_field) = self.parse_padding(field, message_buf)? {
+                if let Some(padding_field) = self.parse_padding(field, message_buf, depth)? {
                     fields.push(padding_field);
                 }
                 continue;
@@ -513,12 +513,26 @@ impl<R: Read> ULogParser<R> {
         &self,
         field: &def::Field,
         message_buf: &mut MessageBuf,
+        depth: usize,
     ) -> Result<Option<inst::Field>, ULogError> {
-        let Some(array_size) = field.r#type.array_size else {
-            log::warn!("Encountered padding, and type is scalar. Ignoring.");
-            return Ok(None);
+        let array_size = match (&field.r#type.base_type, field.r#type.array_size) {
+            (BaseType::UINT8, Some(array_size)) => array_size,
+            _ => {
+                // Padding is normally an array of bytes, any other type occupies the size of that type.
+                if message_buf.is_empty() {
+                    return Ok(None);
+                }
+
+                let value = self.parse_field_value(field, message_buf, depth)?;
+
+                return Ok(self.include_padding.then(|| inst::Field {
+                    name: field.name.clone(),
+                    r#type: field.r#type.clone(),
+                    value,
+                }));
+            }
         };
-        
+
         if array_size <= message_buf.len() {
             log::debug!("Encountered padding, and padding <= message.len(). Ok.");
 
-- 
2.43.0


From 2110dd980f8faa1ebb96702ecc000d56251093a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:35 +0000
Subject: [PATCH 13/17] fix: do not panic when a mapped field is absent from a
 message

---
 macros/src/lib.rs | 41 ++++++++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 210f787..74f1737 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -148,6 +148,13 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
         Ident::new(&format!("{name}_index"), name.span())
     }
 
+    fn ulog_name(f: &syn::Field) -> String {
+        // This unwrap is safe because LoggedFieldAttr has the `Default` attribute applied.
+        let attr = LoggedFieldAttr::from_field(f).unwrap();
+        attr.field_name
+            .unwrap_or_else(|| named_ident(f).to_string())
+    }
+
     fn idx_type(f: &syn::Field) -> Type {
         // If the user type is an Option<T>, will generate Option<usize>
         // otherwise usize.
@@ -164,12 +171,7 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
     let accessor_struct = {
         let idx_field_exprs = fields.iter().map(|f| {
             let idx_ident = idx_ident(f);
-            let ulog_name = {
-                // This unwrap is safe because LoggedFieldAttr has the `Default` attribute applied.
-                let attr = LoggedFieldAttr::from_field(f).unwrap();
-                attr.field_name
-                    .unwrap_or_else(|| named_ident(f).to_string())
-            };
+            let ulog_name = ulog_name(f);
 
             if is_option_type(&make_index_type(f)) {
                 quote! {
@@ -230,7 +232,9 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
     // - For any non-optional field `f`, the corresponding index field is `usize` and guaranteed to be present.
     //
     // This invariant is established earlier when generating index fields and validated by construction of the Accessor struct.
-    // Therefore, it is safe to unwrap and index into `format.fields` accordingly.
+    //
+    // A message may still lack trailing fields of its format (padding which is omitted), so the field at
+    // the index is looked up and its name verified.
     //
     // The generated code uses this to:
     // - Return `None` directly when the index is `None` (field missing),
@@ -240,6 +244,7 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
         fields.iter().map(|f| {
             let name = named_ident(f);
             let idx_ident = idx_ident(f);
+            let ulog_name = ulog_name(f);
             let ty = &f.ty;
 
             if is_option_type(ty) {
@@ -247,14 +252,28 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
                 let inner_ty = extract_option_type(ty).expect("Expected Option inner type.");
 
                 quote! {
-                    #name: match self.#idx_ident {
-                        None => None,
-                        Some(idx) => Some(<#inner_ty as #from_field_path>::from_field(&format.fields[idx])?)
+                    #name: match self.#idx_ident.and_then(|idx| format.fields.get(idx)) {
+                        Some(field) if field.name.as_ref() == #ulog_name => {
+                            Some(<#inner_ty as #from_field_path>::from_field(field)?)
+                        }
+                        _ => None,
                     }
                 }
             } else {
                 quote! {
-                    #name: <#ty as #from_field_path>::from_field(&format.fields[self.#idx_ident])?
+                    #name: match format.fields.get(self.#idx_ident) {
+                        Some(field) if field.name.as_ref() == #ulog_name => {
+                            <#ty as #from_field_path>::from_field(field)?
+                        }
+                        _ => {
+                            return Err(yule_log::errors::ULogError::InvalidFieldName(
+                                format!(
+                                    "The field `{}` is not present in a message of subscription `{}`",
+                                    #ulog_name, #subscription
+                                )
+                            ));
+                        }
+                    }
                 }
             }
         });
-- 
2.43.0


From 9a43f476ff110246c6e77f2c5e6f3752418eca48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:28 +0000
Subject: [PATCH 14/17] fix: do not print heartbeat formats to standard output
 while parsing

---
 core/src/parser.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index ff52cad..5ac0c00 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -220,10 +220,6 @@ impl<R: Read> ULogParser<R> {
 
                 match msg {
                     UlogMessage::FormatDefinition(ref format) => {
-                        if format.name.contains("heartbeat") {
-                            println!("Heartbeat {format}");
-                        }
-
                         self.formats.insert(format.name.clone(), Shared::new(format.clone()));
                     }
                     UlogMessage::AddSubscription(ref sub) => {
-- 
2.43.0


From f9f865559f03bf8d60b406c382afd5ed44458f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:02 +0000
Subject: [PATCH 15/17] fix: let structs whose fields are all optional derive
 ULogData

---
 macros/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 74f1737..2760361 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -200,7 +200,8 @@ pub fn derive_logged_struct(input: TokenStream) -> TokenStream {
                         .map(|(i, f)| (f.name.clone(), i))
                         .collect();
 
-                let mut missing = Vec::new();
+                #[allow(unused_mut)]
+                let mut missing: Vec<&str> = Vec::new();
 
                 let result = Self {
                     #( #idx_field_exprs ),*
-- 
2.43.0


From 3d7ef509b275a50fbc7cc9e4c598c5974104ad58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:57 +0000
Subject: [PATCH 16/17] fix: refuse keys of information and parameter messages
 with text after the name

Keys such as `float a/b` or `float a b` were cut at the first character that is
not part of an identifier, so that the message was returned under another key.
---
 core/src/formats.rs | 13 +++++++++++++
 core/src/parser.rs  | 15 +++++----------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/core/src/formats.rs b/core/src/formats.rs
index f9de917..aab3604 100644
--- a/core/src/formats.rs
+++ b/core/src/formats.rs
@@ -79,6 +79,19 @@ pub(crate) fn parse_field(token_list: &mut TokenList) -> Result<def::Field, ULog
     })
 }
 
+/// Parses the key of an information or parameter message, which is a single field definition.
+pub(crate) fn parse_key(raw_key: &str) -> Result<def::Field, ULogError> {
+    let mut token_list = TokenList::from_str(raw_key);
+    let field = parse_field(&mut token_list)?;
+
+    match token_list.peek() {
+        None => Ok(field),
+        Some(token) => Err(ULogError::ParseError(format!(
+            "Invalid key `{raw_key}`. Expected a single field, got: {token:?}"
+        ))),
+    }
+}
+
 impl def::BaseType {
     pub fn from_string(string: &str) -> def::BaseType {
         match string {
diff --git a/core/src/parser.rs b/core/src/parser.rs
index 5ac0c00..82efd99 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -9,14 +9,13 @@ use crate::datastream::DataStream;
 use crate::errors::ULogError;
 use crate::errors::ULogError::{UndefinedFormat, UndefinedSubscription};
 use crate::field_helpers::{parse_array, parse_data_field};
-use crate::formats::{parse_field, parse_format};
+use crate::formats::{parse_format, parse_key};
 use crate::message_buf::MessageBuf;
 use crate::model::def::BaseType;
 use crate::model::msg::{
     Dropout, FileHeader, FlagBits, LogLevel, LoggedData, MultiInfo, Subscription, UlogMessage,
 };
 use crate::model::{def, inst, msg, Shared, MAGIC};
-use crate::tokenizer::TokenList;
 
 /// Maximum nesting depth of message formats, guards against recursive format definitions.
 const MAX_NESTING_DEPTH: usize = 64;
@@ -749,8 +748,7 @@ impl<R: Read> ULogParser<R> {
     pub(crate) fn parse_info(&self, mut message_buf: MessageBuf) -> Result<msg::Info, ULogError> {
         let key_len = message_buf.take_u8()? as usize;
         let raw_key = String::from_utf8(message_buf.advance(key_len)?.to_vec())?;
-        let mut tokens = TokenList::from_str(&raw_key);
-        let field = parse_field(&mut tokens)?;
+        let field = parse_key(&raw_key)?;
 
         let value: inst::FieldValue = self.parse_field_value(&field, &mut message_buf, 0)?;
 
@@ -770,8 +768,7 @@ impl<R: Read> ULogParser<R> {
         let is_continued = message_buf.take_u8()? != 0;
         let key_len = message_buf.take_u8()? as usize;
         let raw_key = String::from_utf8(message_buf.advance(key_len)?.to_vec())?;
-        let mut tokens = TokenList::from_str(&raw_key);
-        let field = parse_field(&mut tokens)?;
+        let field = parse_key(&raw_key)?;
 
         let value: inst::FieldValue = self.parse_field_value(&field, &mut message_buf, 0)?;
 
@@ -791,8 +788,7 @@ impl<R: Read> ULogParser<R> {
     fn parse_parameter(&self, mut message_buf: MessageBuf) -> Result<msg::Parameter, ULogError> {
         let key_len = message_buf.take_u8()? as usize;
         let raw_key = String::from_utf8(message_buf.advance(key_len)?.to_vec())?;
-        let mut tokens = TokenList::from_str(&raw_key);
-        let field = parse_field(&mut tokens)?;
+        let field = parse_key(&raw_key)?;
 
         if field.r#type.is_array() {
             return Err(ULogError::UnknownParameterType(
@@ -827,8 +823,7 @@ impl<R: Read> ULogParser<R> {
         let default_types = message_buf.take_u8()?; // read the default_types bitfield
         let key_len = message_buf.take_u8()? as usize;
         let raw_key = String::from_utf8(message_buf.advance(key_len)?.to_vec())?;
-        let mut tokens = TokenList::from_str(&raw_key);
-        let field = parse_field(&mut tokens)?;
+        let field = parse_key(&raw_key)?;
 
         if field.r#type.is_array() {
             return Err(ULogError::UnknownParameterType(
-- 
2.43.0


From 0d311e9b3b5fcfc189dce3d6cde0b7f87c84fd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:25 +0000
Subject: [PATCH 17/17] fix: let forward_subscriptions(false) undo an earlier
 forward_subscriptions(true)

---
 macros/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 2760361..6c3d24b 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -619,7 +619,9 @@ pub fn derive_logged_enum(input: TokenStream) -> TokenStream {
                         }
                         self.forward_subscriptions = true;
                     }
-                    false => {}
+                    false => {
+                        self.forward_subscriptions = false;
+                    }
                 }
 
                 Ok(self)
-- 
2.43.0

