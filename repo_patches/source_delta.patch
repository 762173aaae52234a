From 5fb856a6dcde5a46201f178099398ef9ad87b652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:06 +0000
Subject: [PATCH 01/80] fix: url-encode string content so it cannot be taken
 for separators

Strings containing '&', '=' or JSON syntax were emitted unescaped and decoded
before splitting, so one parameter's value could add or replace others and
did not survive a round trip.
---
 crates/core/src/urlencode.rs     | 37 +++++++++++++++++++++-----------
 crates/core/src/urlencode/ser.rs | 14 ++++++------
 2 files changed, 33 insertions(+), 18 deletions(-)

diff --git a/crates/core/src/urlencode.rs b/crates/core/src/urlencode.rs
index d77732d..dbc5287 100644
--- a/crates/core/src/urlencode.rs
+++ b/crates/core/src/urlencode.rs
@@ -6,6 +6,7 @@ mod ser;
 use percent_encoding::percent_decode_str;
 pub use ser::{to_string, Serializer};
 use serde::de::DeserializeOwned;
+use serde_json::{Map, Value};
 
 use crate::urlencode::error::{Error, Result};
 
@@ -48,18 +49,30 @@ pub fn from_str<T>(s: &str) -> Result<T>
 where
     T: DeserializeOwned,
 {
-    // HACK: deserializing with `serde_json` makes decoding trivial and takes ~60µs
-    let decoded = percent_decode_str(s).decode_utf8_lossy();
-    let decoded = format!("{{\"{decoded}\"}}");
-    let decoded = decoded
-        .replace('=', "\":\"")
-        .replace('&', "\",\"")
-        .replace("\"[", "[")
-        .replace("]\"", "]")
-        .replace("\"{", "{")
-        .replace("}\"", "}");
-
-    serde_json::from_str(&decoded).map_err(|e| Error::Message(e.to_string()))
+    let mut params = Map::new();
+
+    // split into parameters before decoding so that encoded separators remain
+    // part of the value
+    for param in s.split('&') {
+        let Some((key, value)) = param.split_once('=') else {
+            return Err(Error::Syntax);
+        };
+        let key = percent_decode_str(key).decode_utf8_lossy().into_owned();
+        let value = percent_decode_str(value).decode_utf8_lossy().into_owned();
+
+        // objects and arrays are encoded as JSON, everything else is a string
+        let value = if value.starts_with(['{', '[']) {
+            serde_json::from_str(&value).unwrap_or(Value::String(value))
+        } else {
+            Value::String(value)
+        };
+        if params.insert(key, value).is_some() {
+            return Err(Error::Message("duplicate parameter".to_string()));
+        }
+    }
+
+    // HACK: deserializing with `serde_json` makes decoding trivial
+    serde_json::from_value(Value::Object(params)).map_err(|e| Error::Message(e.to_string()))
 }
 
 #[cfg(test)]
diff --git a/crates/core/src/urlencode/ser.rs b/crates/core/src/urlencode/ser.rs
index 1b1e697..3447539 100644
--- a/crates/core/src/urlencode/ser.rs
+++ b/crates/core/src/urlencode/ser.rs
@@ -5,7 +5,9 @@ use crate::urlencode::error::{Error, Result};
 
 const TOP_LEVEL: usize = 1;
 const UNRESERVED: &AsciiSet =
-    &NON_ALPHANUMERIC.remove(b'&').remove(b'=').remove(b'.').remove(b'_').remove(b'-').remove(b'~');
+    &NON_ALPHANUMERIC.remove(b'.').remove(b'_').remove(b'-').remove(b'~');
+// parameter separators and already encoded strings
+const ENCODED: &AsciiSet = &UNRESERVED.remove(b'&').remove(b'=').remove(b'%');
 
 /// Serializes a value to a url-encoded string.
 ///
@@ -51,7 +53,7 @@ where
     };
     value.serialize(&mut serializer)?;
 
-    let encoded = utf8_percent_encode(&serializer.output, UNRESERVED).to_string();
+    let encoded = utf8_percent_encode(&serializer.output, ENCODED).to_string();
     Ok(encoded)
 }
 
@@ -136,12 +138,12 @@ impl ser::Serializer for &mut Serializer {
     }
 
     fn serialize_str(self, v: &str) -> Result<()> {
+        // encode strings here, where their content can be told apart from separators
         if self.level > TOP_LEVEL {
-            self.output += "\"";
-            self.output += v;
-            self.output += "\"";
+            let json = serde_json::to_string(v).map_err(|e| Error::Message(e.to_string()))?;
+            self.output.extend(utf8_percent_encode(&json, UNRESERVED));
         } else {
-            self.output += v;
+            self.output.extend(utf8_percent_encode(v, UNRESERVED));
         }
         Ok(())
     }
-- 
2.43.0


From 935d584ff3a0cf94e563691725c6c7800e2fd07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:07 +0000
Subject: [PATCH 02/80] fix: url-encode top-level maps and fields that follow a
 tuple

Top-level maps were written with JSON separators, and a tuple raised the
nesting level by two, so the fields after it were no longer parameters.
---
 crates/core/src/urlencode/ser.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/crates/core/src/urlencode/ser.rs b/crates/core/src/urlencode/ser.rs
index 3447539..4b07d23 100644
--- a/crates/core/src/urlencode/ser.rs
+++ b/crates/core/src/urlencode/ser.rs
@@ -244,7 +244,6 @@ impl ser::Serializer for &mut Serializer {
 
     // Tuples look just like sequences in JSON.
     fn serialize_tuple(self, len: usize) -> Result<Self::SerializeTuple> {
-        self.level += 1;
         self.serialize_seq(Some(len))
     }
 
@@ -437,8 +436,12 @@ impl ser::SerializeMap for &mut Serializer {
     where
         T: ?Sized + Serialize,
     {
-        if !self.output.ends_with('{') {
-            self.output += ",";
+        if self.level > TOP_LEVEL {
+            if !self.output.ends_with('{') {
+                self.output += ",";
+            }
+        } else if !self.output.is_empty() {
+            self.output += "&";
         }
         key.serialize(&mut **self)
     }
@@ -447,12 +450,14 @@ impl ser::SerializeMap for &mut Serializer {
     where
         T: ?Sized + Serialize,
     {
-        self.output += ":";
+        self.output += if self.level > TOP_LEVEL { ":" } else { "=" };
         value.serialize(&mut **self)
     }
 
     fn end(self) -> Result<()> {
-        self.output += "}";
+        if self.level > TOP_LEVEL {
+            self.output += "}";
+        }
         self.level -= 1;
         Ok(())
     }
-- 
2.43.0


From a51e032edbd480f9df4e1785ed761e80403b0ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:23 +0000
Subject: [PATCH 03/80] fix: match const filters on string, null and object
 values

A string was compared with the quoted form of the constant and so never
matched, null matched every constant, and an object caused a panic.
---
 crates/dif-exch/src/matcher.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/crates/dif-exch/src/matcher.rs b/crates/dif-exch/src/matcher.rs
index 887443a..74d49ba 100644
--- a/crates/dif-exch/src/matcher.rs
+++ b/crates/dif-exch/src/matcher.rs
@@ -109,13 +109,10 @@ fn match_const(filter_val: &FilterValue, vc_node: &Value) -> Result<bool> {
 
     match vc_node {
         Value::Array(arr_node) => Ok(arr_node.contains(&const_val)),
-        Value::String(str_node) => Ok(str_node == &const_val.to_string()),
+        Value::String(str_node) => Ok(str_node == const_str),
         Value::Number(num_node) => Ok(num_node.to_string() == const_val),
         Value::Bool(bool_node) => Ok(Some(*bool_node) == const_val.as_bool()),
-        Value::Null => Ok(true),
-        Value::Object(_) => {
-            unimplemented!("object matching not implemented")
-        }
+        Value::Null | Value::Object(_) => Ok(false),
     }
 }
 
-- 
2.43.0


From 80d8f2ee239be37cf0e6e41054bf5da2596344ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:24 +0000
Subject: [PATCH 04/80] fix: do not panic on a filter format that is not
 supported

The format comes from the remote party's presentation definition.
---
 crates/dif-exch/src/matcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dif-exch/src/matcher.rs b/crates/dif-exch/src/matcher.rs
index 74d49ba..cec1e5a 100644
--- a/crates/dif-exch/src/matcher.rs
+++ b/crates/dif-exch/src/matcher.rs
@@ -143,7 +143,7 @@ fn match_format(filter_val: &FilterValue, vc_node: &Value) -> Result<bool> {
             Value::String(str_node) => Ok(DateTime::parse_from_rfc3339(str_node).is_ok()),
             _ => Ok(false),
         },
-        _ => unimplemented!("format matching not implemented for {format}"),
+        _ => Err(anyhow!("format matching not implemented for {format}")),
     }
 }
 
-- 
2.43.0


From 17d1f53f7b08e0bbeb986adace75c120450536dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:24 +0000
Subject: [PATCH 05/80] fix: match pattern filters on the content of string
 values

The pattern was applied to the quoted JSON text, so anchored patterns never
matched and escaped characters matched differently.
---
 crates/dif-exch/src/matcher.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/dif-exch/src/matcher.rs b/crates/dif-exch/src/matcher.rs
index cec1e5a..238c966 100644
--- a/crates/dif-exch/src/matcher.rs
+++ b/crates/dif-exch/src/matcher.rs
@@ -125,7 +125,11 @@ fn match_pattern(filter_val: &FilterValue, vc_node: &Value) -> Result<bool> {
         return Err(anyhow!("invalid regex pattern: {pattern}"));
     };
 
-    Ok(re.captures(&vc_node.to_string()).is_some())
+    // match a string's content rather than its (quoted) JSON representation
+    match vc_node {
+        Value::String(str_node) => Ok(re.is_match(str_node)),
+        _ => Ok(re.is_match(&vc_node.to_string())),
+    }
 }
 
 // Check whether JSONPath result format matches that specified by `FilterValue`.
-- 
2.43.0


From ec883113e47398f3e30b69fa99679b9b7fe16a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:25 +0000
Subject: [PATCH 06/80] fix: try the remaining paths of a field when a filter
 does not match

Presentation Exchange requires only one of a field's JSONPath expressions to
match.
---
 crates/dif-exch/src/matcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dif-exch/src/matcher.rs b/crates/dif-exch/src/matcher.rs
index 238c966..3b0d5b3 100644
--- a/crates/dif-exch/src/matcher.rs
+++ b/crates/dif-exch/src/matcher.rs
@@ -74,7 +74,7 @@ impl Field {
             if let Some(node) = nodes.into_iter().next() {
                 match filter.value.matched(node) {
                     Ok(true) => return Ok(true),
-                    Ok(false) => break,
+                    Ok(false) => {}
                     Err(e) => return Err(e),
                 }
             }
-- 
2.43.0


From f434dcbd365f22aeae098c15ba4f5fffbe0efc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:40 +0000
Subject: [PATCH 07/80] fix: apply the filter of an optional field when its
 value is present

As documented on Field::optional, a value found at the field's path must
validate against the filter even when the field is optional.
---
 crates/dif-exch/src/matcher.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/dif-exch/src/matcher.rs b/crates/dif-exch/src/matcher.rs
index 3b0d5b3..b629297 100644
--- a/crates/dif-exch/src/matcher.rs
+++ b/crates/dif-exch/src/matcher.rs
@@ -34,8 +34,8 @@ impl Constraints {
 
         // EVERY field must match
         for field in fields {
-            // if no match AND the field is not optional, constraints are not satisfied
-            if !field.matched(&vc_val).unwrap_or_default() && !field.optional.unwrap_or_default() {
+            // if no match, constraints are not satisfied
+            if !field.matched(&vc_val).unwrap_or_default() {
                 return Ok(false);
             }
         }
@@ -52,6 +52,8 @@ impl Field {
     /// matching JSON path expression for the field to be considered
     /// matched.
     fn matched(&self, vc: &Value) -> Result<bool> {
+        let mut found = false;
+
         // find the FIRST matching JSON path expression for field
         for path in &self.path {
             // execute JSONPath query
@@ -64,6 +66,7 @@ impl Field {
             if nodes.is_empty() {
                 continue;
             }
+            found = true;
 
             // no filter == match(?)
             let Some(filter) = &self.filter else {
@@ -80,7 +83,8 @@ impl Field {
             }
         }
 
-        Ok(false)
+        // an optional field may be absent, but a value found must match its filter
+        Ok(!found && self.optional.unwrap_or_default())
     }
 }
 
-- 
2.43.0


From 6271ddc3cca9740b084a72806a01d9b131cc1986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:12 +0000
Subject: [PATCH 08/80] fix: separate the items of generated vectors

More than one grant type or authorization detail expanded to `vec![a b]`.
---
 crates/macros/src/authorization.rs | 2 +-
 crates/macros/src/create_offer.rs  | 4 ++--
 crates/macros/src/token.rs         | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/macros/src/authorization.rs b/crates/macros/src/authorization.rs
index eb6726f..d97e1e4 100644
--- a/crates/macros/src/authorization.rs
+++ b/crates/macros/src/authorization.rs
@@ -93,7 +93,7 @@ fn authorization_details(details: &Value) -> Result<TokenStream> {
                 type_: #path::AuthorizationDetailType::OpenIdCredential,
                 credential: #credential,
                 locations: None
-            }
+            },
         });
     }
 
diff --git a/crates/macros/src/create_offer.rs b/crates/macros/src/create_offer.rs
index fbda8b5..46a6ea7 100644
--- a/crates/macros/src/create_offer.rs
+++ b/crates/macros/src/create_offer.rs
@@ -58,10 +58,10 @@ fn grant_types(input: Option<Value>) -> Result<TokenStream> {
         for gt in gts.as_array().unwrap() {
             match gt.as_str().unwrap() {
                 "urn:ietf:params:oauth:grant-type:pre-authorized_code" => {
-                    tokens.extend(quote! {#path::GrantType::PreAuthorizedCode});
+                    tokens.extend(quote! {#path::GrantType::PreAuthorizedCode,});
                 }
                 "authorization_code" => {
-                    tokens.extend(quote! {#path::GrantType::AuthorizationCode});
+                    tokens.extend(quote! {#path::GrantType::AuthorizationCode,});
                 }
                 _ => {
                     return Err(Error::new(
diff --git a/crates/macros/src/token.rs b/crates/macros/src/token.rs
index 8124144..19d04cb 100644
--- a/crates/macros/src/token.rs
+++ b/crates/macros/src/token.rs
@@ -118,7 +118,7 @@ fn authorization_details(details: &Value) -> Result<TokenStream> {
                 type_: #path::AuthorizationDetailType::OpenIdCredential,
                 credential: #configuration,
                 locations: None
-            }
+            },
         });
     }
 
-- 
2.43.0


From 8b643d2d7d8b7410908e648a235a7702de7c28ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:12 +0000
Subject: [PATCH 09/80] fix: qualify the default send type and name the missing
 field

The default only compiled where the caller had imported `SendType`.
---
 crates/macros/src/create_offer.rs | 2 +-
 crates/macros/src/parse.rs        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/macros/src/create_offer.rs b/crates/macros/src/create_offer.rs
index 46a6ea7..007b278 100644
--- a/crates/macros/src/create_offer.rs
+++ b/crates/macros/src/create_offer.rs
@@ -31,7 +31,7 @@ pub fn request(input: &Json) -> Result<TokenStream> {
 
     let tx_code_required = input.get("tx_code_required").unwrap_or(Value::Bool(false));
     let send_type =
-        input.get("send_type").map_or_else(|| quote! {SendType::ByVal}, |v| quote! {#v.into()});
+        input.get("send_type").map_or_else(|| quote! {#path::SendType::ByVal}, |v| quote! {#v.into()});
 
     // return error for any unexpected fields
     input.check_consumed()?;
diff --git a/crates/macros/src/parse.rs b/crates/macros/src/parse.rs
index 5a8ca84..f57d6ca 100644
--- a/crates/macros/src/parse.rs
+++ b/crates/macros/src/parse.rs
@@ -20,7 +20,7 @@ impl Json {
     /// Expect the key to be present and return the value or an error.
     pub fn expect(&mut self, key: &str) -> Result<Value> {
         let Some(v) = self.fields.remove(key) else {
-            return Err(Error::new(Span::call_site(), "`{key}` is not set"));
+            return Err(Error::new(Span::call_site(), format!("`{key}` is not set")));
         };
         Ok(Value::Tokens(quote! {Into::into(#v)}))
     }
-- 
2.43.0


From 806f5af0dd11025d997a37165af3a804004077a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:13 +0000
Subject: [PATCH 10/80] fix: generate the types a token request's authorization
 details have

`credential_definition` expanded to types that do not exist or do not fit.
---
 crates/macros/src/authorization.rs |  2 +-
 crates/macros/src/token.rs         | 14 ++++----------
 2 files changed, 5 insertions(+), 11 deletions(-)

diff --git a/crates/macros/src/authorization.rs b/crates/macros/src/authorization.rs
index d97e1e4..4a7d697 100644
--- a/crates/macros/src/authorization.rs
+++ b/crates/macros/src/authorization.rs
@@ -219,7 +219,7 @@ fn subject(definition: &HashMap<String, Value>) -> Result<TokenStream> {
     }
 }
 
-fn claims(claimset: &HashMap<String, Value>) -> TokenStream {
+pub fn claims(claimset: &HashMap<String, Value>) -> TokenStream {
     let path = quote! {vercre_issuer};
 
     let claims = claimset.iter().map(|(k, v)| {
diff --git a/crates/macros/src/token.rs b/crates/macros/src/token.rs
index 19d04cb..3a2a3ac 100644
--- a/crates/macros/src/token.rs
+++ b/crates/macros/src/token.rs
@@ -4,6 +4,7 @@ use proc_macro2::{Span, TokenStream};
 use quote::quote;
 use syn::parse::{Error, Result};
 
+use crate::authorization::claims;
 use crate::parse::{Json, Value};
 
 pub fn request(input: &Json) -> Result<TokenStream> {
@@ -134,9 +135,7 @@ fn credential_configuration(detail: &HashMap<String, Value>) -> Result<TokenStre
         // credential_definition is optional
         let claims = if let Some(defn_value) = detail.get("credential_definition") {
             let credential_definition = configuration_definition(defn_value)?;
-            quote! {Some(#path::ProfileW3c{
-                credential_definition:#credential_definition
-            })}
+            quote! {Some(#path::ProfileClaims::W3c(#credential_definition))}
         } else {
             quote! {None}
         };
@@ -227,7 +226,6 @@ fn format_definition(defn_value: &Value) -> Result<TokenStream> {
 
 fn subject(definition: &HashMap<String, Value>) -> Result<TokenStream> {
     let span = Span::call_site();
-    let path = quote! {vercre_issuer};
 
     if let Some(subject_value) = definition.get("credentialSubject") {
         let Some(credential_subject) = subject_value.as_object() else {
@@ -235,13 +233,9 @@ fn subject(definition: &HashMap<String, Value>) -> Result<TokenStream> {
         };
 
         // build claims map
-        let claims = credential_subject.iter().map(|(k, _)| {
-            quote! {(#k.to_string(), #path::ClaimDefinition::Claim(#path::ClaimDefinition::default()))}
-        });
+        let claims = claims(credential_subject);
 
-        Ok(quote! {
-            Some(std::collections::HashMap::from([#(#claims),*]))
-        })
+        Ok(quote! {#claims})
     } else {
         Ok(quote! {None})
     }
-- 
2.43.0


From d8d93d67df51ce05017ebac2390a10f2b381ac2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:13 +0000
Subject: [PATCH 11/80] fix: keep the locations of authorization details

They were accepted and silently dropped.
---
 crates/macros/src/authorization.rs | 5 ++++-
 crates/macros/src/token.rs         | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/macros/src/authorization.rs b/crates/macros/src/authorization.rs
index 4a7d697..5023e4f 100644
--- a/crates/macros/src/authorization.rs
+++ b/crates/macros/src/authorization.rs
@@ -87,12 +87,15 @@ fn authorization_details(details: &Value) -> Result<TokenStream> {
 
         // credential_configuration_id or format?
         let credential = credential_authorization(detail)?;
+        let locations = detail
+            .get("locations")
+            .map_or_else(|| quote! {None}, |locations| quote! {Some(#locations)});
 
         tokens.extend(quote! {
             #path::AuthorizationDetail {
                 type_: #path::AuthorizationDetailType::OpenIdCredential,
                 credential: #credential,
-                locations: None
+                locations: #locations
             },
         });
     }
diff --git a/crates/macros/src/token.rs b/crates/macros/src/token.rs
index 3a2a3ac..d2a59fb 100644
--- a/crates/macros/src/token.rs
+++ b/crates/macros/src/token.rs
@@ -113,12 +113,15 @@ fn authorization_details(details: &Value) -> Result<TokenStream> {
 
         // credential_configuration_id or format?
         let configuration = credential_configuration(detail)?;
+        let locations = detail
+            .get("locations")
+            .map_or_else(|| quote! {None}, |locations| quote! {Some(#locations)});
 
         tokens.extend(quote! {
             #path::AuthorizationDetail {
                 type_: #path::AuthorizationDetailType::OpenIdCredential,
                 credential: #configuration,
-                locations: None
+                locations: #locations
             },
         });
     }
-- 
2.43.0


From 63c88c38c856985d4744ba92ab5605e58e2be195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:23 +0000
Subject: [PATCH 12/80] fix: keep the credentialSubject of a credential request

It was accepted and silently dropped.
---
 crates/macros/src/authorization.rs | 2 +-
 crates/macros/src/credential.rs    | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/macros/src/authorization.rs b/crates/macros/src/authorization.rs
index 5023e4f..0189eed 100644
--- a/crates/macros/src/authorization.rs
+++ b/crates/macros/src/authorization.rs
@@ -205,7 +205,7 @@ fn format_definition(defn_value: &Value) -> Result<TokenStream> {
     })
 }
 
-fn subject(definition: &HashMap<String, Value>) -> Result<TokenStream> {
+pub fn subject(definition: &HashMap<String, Value>) -> Result<TokenStream> {
     let span = Span::call_site();
 
     if let Some(subject_value) = definition.get("credentialSubject") {
diff --git a/crates/macros/src/credential.rs b/crates/macros/src/credential.rs
index 72a33a0..e015877 100644
--- a/crates/macros/src/credential.rs
+++ b/crates/macros/src/credential.rs
@@ -2,6 +2,7 @@ use proc_macro2::{Span, TokenStream};
 use quote::quote;
 use syn::parse::{Error, Result};
 
+use crate::authorization::subject;
 use crate::parse::{Json, Value};
 
 // Create strongly typed `CredentialRequest` from JSON-like input,
@@ -79,11 +80,11 @@ fn format_definition(defn_value: &Value) -> Result<TokenStream> {
         return Err(Error::new(span, "`type` is not set"));
     };
 
-    // let subject = subject(credential_definition)?;
+    let subject = subject(credential_definition)?;
 
     Ok(quote! {
         #path::CredentialDefinition {
-            credential_subject: None,
+            credential_subject: #subject,
             context: None,
             type_: Some(#type_array),
         }
-- 
2.43.0


From 5cb01117d598c0ab0a37d538c35802675f6f72fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:28 +0000
Subject: [PATCH 13/80] fix: match const filters on boolean values

---
 crates/dif-exch/src/matcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dif-exch/src/matcher.rs b/crates/dif-exch/src/matcher.rs
index b629297..7575df5 100644
--- a/crates/dif-exch/src/matcher.rs
+++ b/crates/dif-exch/src/matcher.rs
@@ -115,7 +115,7 @@ fn match_const(filter_val: &FilterValue, vc_node: &Value) -> Result<bool> {
         Value::Array(arr_node) => Ok(arr_node.contains(&const_val)),
         Value::String(str_node) => Ok(str_node == const_str),
         Value::Number(num_node) => Ok(num_node.to_string() == const_val),
-        Value::Bool(bool_node) => Ok(Some(*bool_node) == const_val.as_bool()),
+        Value::Bool(bool_node) => Ok(bool_node.to_string() == const_val),
         Value::Null | Value::Object(_) => Ok(false),
     }
 }
-- 
2.43.0


From f6a867c1276190a189eb33ef41444133e6b0d485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:35 +0000
Subject: [PATCH 14/80] fix: require at least one proof when a credential needs
 proof of possession

---
 vercre-issuer/src/credential.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vercre-issuer/src/credential.rs b/vercre-issuer/src/credential.rs
index 7d424f0..08e7fda 100644
--- a/vercre-issuer/src/credential.rs
+++ b/vercre-issuer/src/credential.rs
@@ -122,6 +122,10 @@ impl Context {
                 },
             };
 
+            if proof_jwts.is_empty() {
+                return Err(self.invalid_proof(provider, "proof not set").await?);
+            }
+
             for proof_jwt in proof_jwts {
                 // TODO: check proof is signed with supported algorithm (from proof_type)
                 let jwt: jws::Jwt<ProofClaims> =
-- 
2.43.0


From 85350e560d83cff12e6a1ec33b8f129eb792a17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:38 +0000
Subject: [PATCH 15/80] fix: allow anonymous pre-authorized token requests
 where supported

---
 vercre-issuer/src/token.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/vercre-issuer/src/token.rs b/vercre-issuer/src/token.rs
index 909e2a8..0ea2c8b 100644
--- a/vercre-issuer/src/token.rs
+++ b/vercre-issuer/src/token.rs
@@ -94,9 +94,8 @@ impl Context {
                 }
 
                 // anonymous access allowed?
-                if request.client_id.as_ref().is_none()
-                    || request.client_id.as_ref().is_some_and(String::is_empty)
-                        && !server.pre_authorized_grant_anonymous_access_supported
+                if request.client_id.as_ref().map_or(true, String::is_empty)
+                    && !server.pre_authorized_grant_anonymous_access_supported
                 {
                     return Err(Error::InvalidClient("anonymous access is not supported".into()));
                 }
-- 
2.43.0


From 94f794324bec8b19612dce9826236b9436dcdd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:40 +0000
Subject: [PATCH 16/80] fix: keep access token state for the advertised token
 lifetime

---
 vercre-issuer/src/token.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vercre-issuer/src/token.rs b/vercre-issuer/src/token.rs
index 0ea2c8b..75dfd5e 100644
--- a/vercre-issuer/src/token.rs
+++ b/vercre-issuer/src/token.rs
@@ -212,6 +212,7 @@ impl Context {
 
         // update state
         let mut state = self.state.clone();
+        state.expires_at = Utc::now() + Expire::Access.duration();
         state.stage = Stage::Validated(Token {
             access_token: access_token.clone(),
             credentials: authorized,
-- 
2.43.0


From 9509bb3e5bc5dc179f31f088cab9d4c915cb7f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:43 +0000
Subject: [PATCH 17/80] fix: accept pushed authorization requests when the
 server requires them

---
 vercre-issuer/src/par.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vercre-issuer/src/par.rs b/vercre-issuer/src/par.rs
index 443699f..e65c0cf 100644
--- a/vercre-issuer/src/par.rs
+++ b/vercre-issuer/src/par.rs
@@ -48,6 +48,7 @@ async fn verify(provider: &impl Provider, request: &PushedAuthorizationRequest)
     };
     let mut ctx = authorize::Context {
         issuer,
+        is_par: true,
         ..authorize::Context::default()
     };
     ctx.verify(provider, &request.request).await?;
-- 
2.43.0


From 9ff80a72982fdaa43b09706581ca5ac9139e3e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:45 +0000
Subject: [PATCH 18/80] fix: register clients only with an unexpired access
 token

---
 vercre-issuer/src/register.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/vercre-issuer/src/register.rs b/vercre-issuer/src/register.rs
index 8aa7875..94275e1 100644
--- a/vercre-issuer/src/register.rs
+++ b/vercre-issuer/src/register.rs
@@ -5,7 +5,7 @@ use vercre_openid::issuer::{Provider, RegistrationRequest, RegistrationResponse,
 use vercre_openid::{Error, Result};
 
 // use crate::shell;
-use crate::state::State;
+use crate::state::{Stage, State};
 
 /// Registration request handler.
 ///
@@ -25,10 +25,17 @@ async fn verify(provider: &impl Provider, request: &RegistrationRequest) -> Resu
     tracing::debug!("register::verify");
 
     // verify state is still accessible (has not expired)
-    match StateStore::get::<State>(provider, &request.access_token).await {
-        Ok(_) => Ok(()),
-        Err(e) => Err(Error::ServerError(format!("State not found: {e}"))),
+    let state = match StateStore::get::<State>(provider, &request.access_token).await {
+        Ok(state) => state,
+        Err(e) => return Err(Error::ServerError(format!("State not found: {e}"))),
+    };
+
+    // state must belong to an access token
+    if state.is_expired() || !matches!(state.stage, Stage::Validated(_)) {
+        return Err(Error::AccessDenied("invalid access token".into()));
     }
+
+    Ok(())
 }
 
 async fn process(
-- 
2.43.0


From d8f9a7c891932d62e73549ada2edfddd4f10c33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:48 +0000
Subject: [PATCH 19/80] fix: accept only an offer as the issuer_state of an
 authorization request

---
 vercre-issuer/src/authorize.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vercre-issuer/src/authorize.rs b/vercre-issuer/src/authorize.rs
index fc19b45..048714e 100644
--- a/vercre-issuer/src/authorize.rs
+++ b/vercre-issuer/src/authorize.rs
@@ -208,6 +208,10 @@ impl Context {
                 return Err(Error::InvalidRequest("issuer state expired".into()));
             }
 
+            if !matches!(state.stage, Stage::Offered(_)) {
+                return Err(Error::InvalidRequest("invalid `issuer_state`".into()));
+            }
+
             if state.subject_id.as_ref() != Some(&request.subject_id) {
                 return Err(Error::InvalidRequest(
                     "request `subject_id` does not match offer".into(),
-- 
2.43.0


From 58d47426cf8bab2ab64b4334dd0f851a5ff2f818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:50 +0000
Subject: [PATCH 20/80] fix: reject authorization for unknown credential
 configurations

---
 vercre-issuer/src/authorize.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/vercre-issuer/src/authorize.rs b/vercre-issuer/src/authorize.rs
index 048714e..9396772 100644
--- a/vercre-issuer/src/authorize.rs
+++ b/vercre-issuer/src/authorize.rs
@@ -304,14 +304,15 @@ impl Context {
                 }
             };
 
+            let Some(config) = self.issuer.credential_configurations_supported.get(config_id)
+            else {
+                return Err(Error::InvalidAuthorizationDetails(
+                    "invalid credential_configuration_id".into(),
+                ));
+            };
+
             // check claims are supported and include all mandatory claims
             if let Some(requested) = &claims {
-                let Some(config) = self.issuer.credential_configurations_supported.get(config_id)
-                else {
-                    return Err(Error::InvalidAuthorizationDetails(
-                        "invalid credential_configuration_id".into(),
-                    ));
-                };
                 config
                     .verify_claims(requested)
                     .map_err(|e| Error::InvalidRequest(e.to_string()))?;
-- 
2.43.0


From 8b6b86fc5693c77a330847dca811627cdfbfc669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:53 +0000
Subject: [PATCH 21/80] fix: authorize every scope item requested

---
 vercre-issuer/src/authorize.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vercre-issuer/src/authorize.rs b/vercre-issuer/src/authorize.rs
index 9396772..50a53d3 100644
--- a/vercre-issuer/src/authorize.rs
+++ b/vercre-issuer/src/authorize.rs
@@ -328,7 +328,7 @@ impl Context {
     // Verify Credentials requested in `scope` are supported.
     // N.B. has side effect of saving valid scope items into context for later use.
     fn verify_scope(&mut self, scope: &str) -> Result<()> {
-        if let Some(item) = scope.split_whitespace().next() {
+        for item in scope.split_whitespace() {
             let mut scope_map = HashMap::new();
 
             // find supported configurations that has the requested scope
-- 
2.43.0


From 10e7642c9c5ae1f0216032cd3f8617b784f7dffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:55 +0000
Subject: [PATCH 22/80] fix: narrow an authorization code token to the
 requested authorization_details

---
 vercre-issuer/src/token.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vercre-issuer/src/token.rs b/vercre-issuer/src/token.rs
index 75dfd5e..174f736 100644
--- a/vercre-issuer/src/token.rs
+++ b/vercre-issuer/src/token.rs
@@ -201,8 +201,11 @@ impl Context {
                 let Stage::Authorized(auth_state) = &self.state.stage else {
                     return Err(Error::ServerError("authorization state not set".into()));
                 };
-                let authorized_details = authorized_details(&auth_state.items);
-                let authorized = authorized_credentials(&auth_state.items);
+
+                // get the subset of requested credentials from those previously authorized
+                let retained_items = retain_details(provider, &request, &auth_state.items).await?;
+                let authorized_details = authorized_details(&retained_items);
+                let authorized = authorized_credentials(&retained_items);
                 (authorized_details, authorized)
             }
         };
-- 
2.43.0


From 7407e154dedd80fa6e3ce566d777cd1ee5ffb3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:57 +0000
Subject: [PATCH 23/80] fix: verify the audience of a key proof

---
 vercre-issuer/src/credential.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/vercre-issuer/src/credential.rs b/vercre-issuer/src/credential.rs
index 08e7fda..f13e9d7 100644
--- a/vercre-issuer/src/credential.rs
+++ b/vercre-issuer/src/credential.rs
@@ -145,6 +145,13 @@ impl Context {
                         .await?);
                 }
 
+                // proof is intended for this issuer
+                if jwt.claims.aud != self.issuer.credential_issuer {
+                    return Err(self
+                        .invalid_proof(provider, "Proof JWT audience claim is invalid")
+                        .await?);
+                }
+
                 // previously issued c_nonce
                 if jwt.claims.nonce.as_ref() != Some(&token_state.c_nonce) {
                     return Err(self
-- 
2.43.0


From fc3bcddaa74eff3a07a31fec74f4e64b5d75e24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:00 +0000
Subject: [PATCH 24/80] fix: look up status for the credential being issued

---
 vercre-issuer/src/credential.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vercre-issuer/src/credential.rs b/vercre-issuer/src/credential.rs
index f13e9d7..5efff57 100644
--- a/vercre-issuer/src/credential.rs
+++ b/vercre-issuer/src/credential.rs
@@ -271,7 +271,7 @@ impl Context {
         let Some(subject_id) = &self.state.subject_id else {
             return Err(Error::AccessDenied("invalid subject id".into()));
         };
-        let status = Status::status(provider, subject_id, "credential_identifier")
+        let status = Status::status(provider, subject_id, &self.authorized.credential_identifier)
             .await
             .map_err(|e| Error::ServerError(format!("issue populating credential status: {e}")))?;
 
-- 
2.43.0


From 73173bfdd6a6f3c7b6afec3f44193c39ec786c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:03 +0000
Subject: [PATCH 25/80] fix: return an error for credential formats that cannot
 be issued

---
 vercre-issuer/src/credential.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vercre-issuer/src/credential.rs b/vercre-issuer/src/credential.rs
index 5efff57..dd8140e 100644
--- a/vercre-issuer/src/credential.rs
+++ b/vercre-issuer/src/credential.rs
@@ -213,9 +213,9 @@ impl Context {
             Format::IsoMdl(_) => self.mso_mdoc(dataset, signer).await?,
 
             // TODO: remaining credential formats
-            Format::JwtVcJsonLd(_) => todo!(),
-            Format::LdpVc(_) => todo!(),
-            Format::VcSdJwt(_) => todo!(),
+            Format::JwtVcJsonLd(_) | Format::LdpVc(_) | Format::VcSdJwt(_) => {
+                return Err(Error::UnsupportedFormat("credential format is not supported".into()));
+            }
         };
 
         // update token state with new `c_nonce`
-- 
2.43.0


From e6e0df5df19f055b24b0361791e4e4d247f096a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:05 +0000
Subject: [PATCH 26/80] fix: keep a deferred transaction while issuance is
 pending

---
 vercre-issuer/src/deferred.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/vercre-issuer/src/deferred.rs b/vercre-issuer/src/deferred.rs
index 901bac6..88f1310 100644
--- a/vercre-issuer/src/deferred.rs
+++ b/vercre-issuer/src/deferred.rs
@@ -48,11 +48,6 @@ async fn process(
         return Err(Error::ServerError("Deferred state not found.".into()));
     };
 
-    // remove deferred state item
-    StateStore::purge(provider, &request.transaction_id)
-        .await
-        .map_err(|e| Error::ServerError(format!("issue purging state: {e}")))?;
-
     // make credential request
     let mut cred_req = deferred_state.credential_request;
     cred_req.credential_issuer.clone_from(&request.credential_issuer);
@@ -61,11 +56,21 @@ async fn process(
     let response = credential(provider.clone(), cred_req).await?;
 
     // is issuance still pending?
-    if let CredentialResponseType::TransactionId(_) = response.response {
+    if let CredentialResponseType::TransactionId(txn_id) = &response.response {
+        // Wallet will retry using the existing transaction
+        StateStore::purge(provider, txn_id)
+            .await
+            .map_err(|e| Error::ServerError(format!("issue purging state: {e}")))?;
+
         // TODO: make retry interval configurable
         return Err(Error::IssuancePending(5));
     };
 
+    // remove deferred state item
+    StateStore::purge(provider, &request.transaction_id)
+        .await
+        .map_err(|e| Error::ServerError(format!("issue purging state: {e}")))?;
+
     Ok(DeferredCredentialResponse {
         credential_response: response,
     })
-- 
2.43.0


From f43e7971458a653f0823cd1f1b4909c334c8c63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:07 +0000
Subject: [PATCH 27/80] fix: save issued credential state for the notification
 endpoint

---
 vercre-issuer/src/credential.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/vercre-issuer/src/credential.rs b/vercre-issuer/src/credential.rs
index dd8140e..67a4325 100644
--- a/vercre-issuer/src/credential.rs
+++ b/vercre-issuer/src/credential.rs
@@ -27,7 +27,7 @@ use vercre_w3c_vc::model::{CredentialSubject, VerifiableCredential};
 use vercre_w3c_vc::proof::{self, Payload, W3cFormat};
 use vercre_w3c_vc::verify_key;
 
-use crate::state::{Authorized, Deferrance, Expire, Stage, State};
+use crate::state::{Authorized, Credential, Deferrance, Expire, Stage, State};
 
 /// Credential request handler.
 ///
@@ -205,12 +205,14 @@ impl Context {
             .map_err(|e| Error::ServerError(format!("issue  resolving signer: {e}")))?;
 
         // determine credential format
-        let response = match &self.configuration.format {
+        let (response, vc) = match &self.configuration.format {
             Format::JwtVcJson(w3c) => {
                 let vc = self.w3c_vc(provider, &w3c.credential_definition, dataset).await?;
-                self.jwt_vc_json(vc, signer, issuance_date).await?
+                (self.jwt_vc_json(vc.clone(), signer, issuance_date).await?, vc)
+            }
+            Format::IsoMdl(_) => {
+                (self.mso_mdoc(dataset, signer).await?, VerifiableCredential::default())
             }
-            Format::IsoMdl(_) => self.mso_mdoc(dataset, signer).await?,
 
             // TODO: remaining credential formats
             Format::JwtVcJsonLd(_) | Format::LdpVc(_) | Format::VcSdJwt(_) => {
@@ -234,9 +236,8 @@ impl Context {
             .map_err(|e| Error::ServerError(format!("issue saving state: {e}")))?;
 
         // create issuance state for notification endpoint
-        // TODO: save credential in state !!
-        // state.stage = Stage::Issued(Credential { credential: vc, issuance:
-        // issuance_dt });
+        // TODO: save `mso_mdoc` credentials in state
+        state.stage = Stage::Issued(Credential { credential: vc });
         let notification_id = gen::notification_id();
 
         StateStore::put(provider, &notification_id, &state, state.expires_at)
-- 
2.43.0


From e1bc3fc2eee41c315d94954970c7bff16461bec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:13 +0000
Subject: [PATCH 28/80] fix: reject claims the credential configuration does
 not support

---
 crates/openid/src/issuer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/openid/src/issuer.rs b/crates/openid/src/issuer.rs
index 61baef1..47ff32e 100644
--- a/crates/openid/src/issuer.rs
+++ b/crates/openid/src/issuer.rs
@@ -1707,7 +1707,7 @@ impl CredentialConfiguration {
         // ensure `claimset` claims exist in the supported claims
         if !claimset.is_empty() {
             if let Some(claims) = &self.format.claims() {
-                let _ = Self::claims_supported(claimset, claims);
+                Self::claims_supported(claimset, claims)?;
             }
         }
 
-- 
2.43.0


From 9db0a755e0a7b5ea7084b02835a39770a53d83b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:18 +0000
Subject: [PATCH 29/80] fix: parse authorization requests by their syntax

---
 crates/openid/src/issuer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/openid/src/issuer.rs b/crates/openid/src/issuer.rs
index 47ff32e..db03938 100644
--- a/crates/openid/src/issuer.rs
+++ b/crates/openid/src/issuer.rs
@@ -434,10 +434,10 @@ impl FromStr for AuthorizationRequest {
     type Err = anyhow::Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        if s.contains('=') && s.contains('&') {
-            Ok(urlencode::from_str(s)?)
+        if s.trim_start().starts_with('{') {
+            Ok(serde_json::from_str(s)?)
         } else {
-            Ok(Self::Object(serde_json::from_str(s)?))
+            Ok(urlencode::from_str(s)?)
         }
     }
 }
-- 
2.43.0


From e4a6db85b207dc3191b7730e0d4a8d1e47f3f0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:24 +0000
Subject: [PATCH 30/80] fix: use the registered identifier of the ldp_vc format

---
 crates/openid/src/issuer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/openid/src/issuer.rs b/crates/openid/src/issuer.rs
index db03938..b2e627f 100644
--- a/crates/openid/src/issuer.rs
+++ b/crates/openid/src/issuer.rs
@@ -732,7 +732,7 @@ pub enum Format {
     /// used by the Wallet to check whether it supports a certain VC. If
     /// necessary, the Wallet could apply JSON-LD processing to the
     /// Credential issued.
-    #[serde(rename = "ldp-vc")]
+    #[serde(rename = "ldp_vc")]
     LdpVc(ProfileW3c),
 
     /// A W3C Verifiable Credential.
-- 
2.43.0


From 69fa1217a77568947c34ce71a3d09603cdb6966c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:29 +0000
Subject: [PATCH 31/80] fix: escape error descriptions in OpenID error
 responses

---
 crates/openid/src/error.rs | 48 +++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/crates/openid/src/error.rs b/crates/openid/src/error.rs
index 8acb9ce..3402d81 100644
--- a/crates/openid/src/error.rs
+++ b/crates/openid/src/error.rs
@@ -21,7 +21,7 @@ pub enum Error {
     /// parameter value, repeats a parameter, includes multiple credentials,
     /// utilizes more than one mechanism for authenticating the client, or is
     /// otherwise malformed.
-    #[error(r#"{{"error": "invalid_request", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_request", "error_description": {}}}"#, quote(.0))]
     InvalidRequest(String),
 
     /// Client authentication failed (e.g., unknown client, no client
@@ -39,7 +39,7 @@ pub enum Error {
     ///
     /// Verifier's pre-registered metadata has been found based on the Client
     /// Identifier, but `client_metadata` parameter is also set.
-    #[error(r#"{{"error": "invalid_client", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_client", "error_description": {}}}"#, quote(.0))]
     InvalidClient(String),
 
     /// The provided authorization grant (e.g., authorization code,
@@ -49,60 +49,60 @@ pub enum Error {
     ///
     /// The Authorization Server expects a PIN in the pre-authorized flow but
     /// the client provides the wrong PIN.
-    #[error(r#"{{"error": "invalid_grant", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_grant", "error_description": {}}}"#, quote(.0))]
     InvalidGrant(String),
 
     /// The client is not authorized to request an authorization code using this
     /// method.
-    #[error(r#"{{"error": "unauthorized_client", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "unauthorized_client", "error_description": {}}}"#, quote(.0))]
     UnauthorizedClient(String),
 
     /// The authorization grant type is not supported by the authorization
     /// server.
-    #[error(r#"{{"error": "unsupported_grant_type", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "unsupported_grant_type", "error_description": {}}}"#, quote(.0))]
     UnsupportedGrantType(String),
 
     /// The requested scope is invalid, unknown, malformed, or exceeds the scope
     /// granted.
-    #[error(r#"{{"error": "invalid_scope", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_scope", "error_description": {}}}"#, quote(.0))]
     InvalidScope(String),
 
     /// Unknown authorization details type or authorization details not
     /// conforming to the respective type definition
-    #[error(r#"{{"error": "invalid_authorization_details", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_authorization_details", "error_description": {}}}"#, quote(.0))]
     InvalidAuthorizationDetails(String),
 
     /// The resource owner or authorization server denied the request.
-    #[error(r#"{{"error": "access_denied", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "access_denied", "error_description": {}}}"#, quote(.0))]
     AccessDenied(String),
 
     /// The authorization server does not support obtaining an authorization
     /// code using this method.
-    #[error(r#"{{"error": "unsupported_response_type", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "unsupported_response_type", "error_description": {}}}"#, quote(.0))]
     UnsupportedResponseType(String),
 
     /// The authorization server encountered an unexpected condition that
     /// prevented it from fulfilling the request.
-    #[error(r#"{{"error": "server_error", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "server_error", "error_description": {}}}"#, quote(.0))]
     ServerError(String),
 
     /// The authorization server is unable to handle the request due to
     /// temporary overloading or maintenance.
-    #[error(r#"{{"error": "temporarily_unavailable", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "temporarily_unavailable", "error_description": {}}}"#, quote(.0))]
     TemporarilyUnavailable(String),
 
     /// The Credential Request is missing a required parameter, includes an
     /// unsupported parameter or parameter value, repeats the same
     /// parameter, or is otherwise malformed.
-    #[error(r#"{{"error": "invalid_credential_request", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_credential_request", "error_description": {}}}"#, quote(.0))]
     InvalidCredentialRequest(String),
 
     /// Requested credential type is not supported.
-    #[error(r#"{{"error": "unsupported_credential_type", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "unsupported_credential_type", "error_description": {}}}"#, quote(.0))]
     UnsupportedCredentialType(String),
 
     /// Requested credential format is not supported.
-    #[error(r#"{{"error": "unsupported_credential_format", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "unsupported_credential_format", "error_description": {}}}"#, quote(.0))]
     UnsupportedFormat(String),
 
     /// Credential Request did not contain a proof, or proof was invalid, i.e.
@@ -111,7 +111,7 @@ pub enum Error {
     /// `c_nonce_expires_in` values to be used by the Wallet when creating
     /// another proof of possession of key material.
     #[allow(missing_docs)]
-    #[error(r#"{{"error": "invalid_proof", "error_description": "{hint}", "c_nonce": "{c_nonce}", "c_nonce_expires_in": {c_nonce_expires_in}}}"#)]
+    #[error(r#"{{"error": "invalid_proof", "error_description": {}, "c_nonce": {}, "c_nonce_expires_in": {c_nonce_expires_in}}}"#, quote(.hint), quote(.c_nonce))]
     InvalidProof { hint: String, c_nonce: String, c_nonce_expires_in: i64 },
 
     /// This error occurs when the encryption parameters in the Credential
@@ -119,7 +119,7 @@ pub enum Error {
     /// indicates that the Credential Issuer requires the Credential
     /// Response to be sent encrypted, but the Credential Request does not
     /// contain the necessary encryption parameters.
-    #[error(r#"{{"error": "invalid_encryption_parameters", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_encryption_parameters", "error_description": {}}}"#, quote(.0))]
     InvalidEncryptionParameters(String),
 
     /// The Credential issuance is still pending. The error response SHOULD also
@@ -135,23 +135,24 @@ pub enum Error {
     /// This error occurs when the `transaction_id` was not issued by the
     /// respective Credential Issuer or it was already used to obtain the
     /// Credential.
-    #[error(r#"{{"error": "invalid_transaction_id", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_transaction_id", "error_description": {}}}"#, quote(.0))]
     InvalidTransactionId(String),
 
     /// The Wallet does not support any of the formats requested by the
     /// Verifier, such as those included in the `vp_formats` registration
     /// parameter.
-    #[error(r#"{{"error": "vp_formats_not_supported", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "vp_formats_not_supported", "error_description": {}}}"#, quote(.0))]
     VpFormatsNotSupported(String),
 
     /// The Presentation Definition URL cannot be reached.
-    #[error(r#"{{"error": "invalid_presentation_definition_uri", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_presentation_definition_uri", "error_description": {}}}"#, quote(.0))]
     InvalidPresentationDefinitionUri(String),
 
     /// The Presentation Definition URL can be reached, but the specified
     /// `presentation_definition` cannot be found at the URL.
     #[error(
-        r#"{{"error": "invalid_presentation_definition_reference", "error_description": "{0}"}}"#
+        r#"{{"error": "invalid_presentation_definition_reference", "error_description": {}}}"#,
+        quote(.0)
     )]
     InvalidPresentationDefinitionReference(String),
 
@@ -160,10 +161,15 @@ pub enum Error {
     /// Use when the User Agent cannot invoke the Wallet and another component
     /// receives the request while the End-User wishes to continue the journey
     /// on the Verifier website.
-    #[error(r#"{{"error": "wallet_unavailable", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "wallet_unavailable", "error_description": {}}}"#, quote(.0))]
     WalletUnavailable(String),
 }
 
+// Quote (and escape) a string for use as a JSON value.
+fn quote(s: &str) -> String {
+    serde_json::Value::from(s).to_string()
+}
+
 /// Error response for `OpenID` for Verifiable Credentials.
 #[allow(clippy::module_name_repetitions)]
 #[derive(Deserialize, Serialize)]
-- 
2.43.0


From e056180e264f077d77903543dd9d04a5d79cf5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:35 +0000
Subject: [PATCH 32/80] fix: serialize issuance_pending errors

---
 crates/openid/src/error.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/openid/src/error.rs b/crates/openid/src/error.rs
index 3402d81..8d8b909 100644
--- a/crates/openid/src/error.rs
+++ b/crates/openid/src/error.rs
@@ -178,6 +178,7 @@ pub struct OidError {
     pub error: String,
 
     /// Error description.
+    #[serde(default, skip_serializing_if = "String::is_empty")]
     pub error_description: String,
 
     /// Optional client-state parameter.
@@ -191,6 +192,10 @@ pub struct OidError {
     /// The expiry time of the `c_nonce`.
     #[serde(skip_serializing_if = "Option::is_none")]
     pub c_nonce_expires_in: Option<i64>,
+
+    /// The minimum number of seconds to wait before retrying a deferred request.
+    #[serde(skip_serializing_if = "Option::is_none")]
+    pub interval: Option<i64>,
 }
 
 impl Serialize for Error {
-- 
2.43.0


From 6bab0cbb383ed433b141b6b9ee8d2d73caceb90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:47 +0000
Subject: [PATCH 33/80] fix: use a pushed authorization request only once

The `request_uri` returned by the PAR endpoint is a single-use reference to
the pushed request, but it could be presented to the authorization endpoint
any number of times, each time yielding another authorization code.
---
 vercre-issuer/src/authorize.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vercre-issuer/src/authorize.rs b/vercre-issuer/src/authorize.rs
index 50a53d3..ae68a83 100644
--- a/vercre-issuer/src/authorize.rs
+++ b/vercre-issuer/src/authorize.rs
@@ -106,6 +106,11 @@ pub async fn authorize(
             if par.expires_at < Utc::now() {
                 return Err(Error::InvalidRequest("`request_uri` has expired".into()));
             }
+
+            // `request_uri` is one-time use
+            StateStore::purge(&provider, &uri.request_uri)
+                .await
+                .map_err(|e| Error::ServerError(format!("issue purging state: {e}")))?;
             par.request.clone()
         }
     };
-- 
2.43.0


From 1e59a25f31f98ebc53d6245d7a0e82f3ee87ac14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:53 +0000
Subject: [PATCH 34/80] fix: create offers when the list of authorization
 servers is empty

Issuer metadata with an empty `authorization_servers` list made create_offer
panic.
---
 vercre-issuer/src/create_offer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vercre-issuer/src/create_offer.rs b/vercre-issuer/src/create_offer.rs
index 0228e40..066bb59 100644
--- a/vercre-issuer/src/create_offer.rs
+++ b/vercre-issuer/src/create_offer.rs
@@ -233,7 +233,7 @@ impl Context {
         // TODO: determine how to select correct server?
         // select `authorization_server`, if specified
         let authorization_server =
-            self.issuer.authorization_servers.as_ref().map(|servers| servers[0].clone());
+            self.issuer.authorization_servers.as_ref().and_then(|servers| servers.first().cloned());
 
         let mut grants = Grants {
             authorization_code: None,
-- 
2.43.0


From 4f6a2a241fe8c48d18d7b01bd5b497ac66f555f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:31 +0000
Subject: [PATCH 35/80] fix: give the wallet a new c_nonce when the current one
 has expired

An access token is valid for 15 minutes but its c_nonce for 10. Once the nonce
had expired every credential request was refused with access_denied, without a
way to obtain another nonce (and even when no key proof is required). Respond
with invalid_proof and a new nonce instead, as for any other unusable nonce.
---
 vercre-issuer/src/credential.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vercre-issuer/src/credential.rs b/vercre-issuer/src/credential.rs
index 67a4325..126feb7 100644
--- a/vercre-issuer/src/credential.rs
+++ b/vercre-issuer/src/credential.rs
@@ -97,16 +97,16 @@ impl Context {
             return Err(Error::AccessDenied("invalid access token state".into()));
         };
 
-        if token_state.c_nonce_expired() {
-            return Err(Error::AccessDenied("c_nonce has expired".into()));
-        }
-
         // TODO: refactor into separate function.
         if let Some(supported_types) = &self.configuration.proof_types_supported {
             let Some(proof) = &request.proof else {
                 return Err(self.invalid_proof(provider, "proof not set").await?);
             };
 
+            if token_state.c_nonce_expired() {
+                return Err(self.invalid_proof(provider, "c_nonce has expired").await?);
+            }
+
             // TODO: cater for non-JWT proofs - use w3c-vc::decode method
             let _ = supported_types.get("jwt").ok_or_else(|| {
                 Error::InvalidCredentialRequest("proof type not supported".into())
-- 
2.43.0


From 94f79dd431d2d27941ade0fa9e83bc2b78fdd953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:52 +0000
Subject: [PATCH 36/80] fix: parse presentations without slicing the first byte

`VerifiablePresentation::from_str` panicked on an empty string and on a string
that starts with a multi-byte character.
---
 crates/w3c-vc/src/model/vp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/w3c-vc/src/model/vp.rs b/crates/w3c-vc/src/model/vp.rs
index 83918b8..99b8118 100644
--- a/crates/w3c-vc/src/model/vp.rs
+++ b/crates/w3c-vc/src/model/vp.rs
@@ -168,7 +168,7 @@ impl FromStr for VerifiablePresentation {
     type Err = anyhow::Error;
 
     fn from_str(s: &str) -> anyhow::Result<Self, Self::Err> {
-        if &s[0..1] != "{" {
+        if !s.starts_with('{') {
             // base64 encoded string
             let dec = Base64UrlUnpadded::decode_vec(s)?;
             return Ok(serde_json::from_slice(dec.as_slice())?);
-- 
2.43.0


From 107bf0e1418824b47627445dce890f4f725868ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:00 +0000
Subject: [PATCH 37/80] fix: use the specified member names in bitstring status
 entries

`rename_all` has no effect on a newtype variant, so the members of a
BitstringStatusListEntry were written as `status_purpose`,
`status_list_index`, ... instead of `statusPurpose`, `statusListIndex`, ...
---
 crates/w3c-vc/src/model/vc.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/w3c-vc/src/model/vc.rs b/crates/w3c-vc/src/model/vc.rs
index 6dbd03c..960caa6 100644
--- a/crates/w3c-vc/src/model/vc.rs
+++ b/crates/w3c-vc/src/model/vc.rs
@@ -211,7 +211,7 @@ pub struct CredentialStatus {
 pub enum CredentialStatusType {
     /// A bitstring credential status list method for checking credential
     /// status.
-    #[serde(rename = "BitstringStatusListEntry", rename_all = "camelCase")]
+    #[serde(rename = "BitstringStatusListEntry")]
     Bitstring(Bitstring),
 }
 
@@ -232,6 +232,7 @@ impl Default for CredentialStatusType {
 ///
 /// [Bitstring Status List v1.0](https://www.w3.org/TR/vc-bitstring-status-list/)
 #[derive(Clone, Debug, Deserialize, Serialize, PartialEq, Eq)]
+#[serde(rename_all = "camelCase")]
 pub struct Bitstring {
     /// The purpose of the status declaration stored in the bitstring.
     pub status_purpose: StatusPurpose,
-- 
2.43.0


From 7d938f9fbf13a5bf982a1e866eb1ca7a13131803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:03 +0000
Subject: [PATCH 38/80] fix: issue credentials with every type of their
 definition

A credential configuration can list several types besides
`VerifiableCredential`; only the first of them was added to the credential.
---
 vercre-issuer/src/credential.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vercre-issuer/src/credential.rs b/vercre-issuer/src/credential.rs
index 126feb7..ec72b95 100644
--- a/vercre-issuer/src/credential.rs
+++ b/vercre-issuer/src/credential.rs
@@ -280,11 +280,15 @@ impl Context {
         let (name, description) =
             self.configuration.display.as_ref().map_or((None, None), create_names);
 
-        VerifiableCredential::builder()
+        let mut builder = VerifiableCredential::builder();
+        for type_ in &types[1..] {
+            builder = builder.add_type(type_);
+        }
+
+        builder
             .add_context(Kind::String(format!("{credential_issuer}/credentials/v1")))
             // TODO: generate credential id
             .id(format!("{credential_issuer}/credentials/{credential_type}"))
-            .add_type(credential_type)
             .add_name(name)
             .add_description(description)
             .issuer(credential_issuer)
-- 
2.43.0


From ea26eea5b27aa088d7582f9f4fdc1c9ceeb3139d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:17 +0000
Subject: [PATCH 39/80] fix: refuse responses and lookups for expired
 presentation requests

---
 vercre-verifier/src/request_object.rs |  3 +++
 vercre-verifier/src/response.rs       |  3 +++
 vercre-verifier/src/state.rs          | 12 ++++++------
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/vercre-verifier/src/request_object.rs b/vercre-verifier/src/request_object.rs
index 38033ed..ac0df34 100644
--- a/vercre-verifier/src/request_object.rs
+++ b/vercre-verifier/src/request_object.rs
@@ -46,6 +46,9 @@ async fn process(
     let state = StateStore::get::<State>(&provider, &request.id)
         .await
         .map_err(|e| Error::ServerError(format!("issue fetching state: {e}")))?;
+    if state.is_expired() {
+        return Err(Error::InvalidRequest("state expired".into()));
+    }
     let req_obj = state.request_object;
 
     // verify client_id (perhaps should use 'verify' method?)
diff --git a/vercre-verifier/src/response.rs b/vercre-verifier/src/response.rs
index d3e08a1..55a9995 100644
--- a/vercre-verifier/src/response.rs
+++ b/vercre-verifier/src/response.rs
@@ -63,6 +63,9 @@ async fn verify(provider: impl Provider, request: &ResponseRequest) -> Result<()
     let Ok(state) = StateStore::get::<State>(&provider, state_key).await else {
         return Err(Error::InvalidRequest("state not found".into()));
     };
+    if state.is_expired() {
+        return Err(Error::InvalidRequest("state expired".into()));
+    }
     let saved_req = &state.request_object;
 
     let Some(vp_token) = request.vp_token.clone() else {
diff --git a/vercre-verifier/src/state.rs b/vercre-verifier/src/state.rs
index 701c59d..9818d03 100644
--- a/vercre-verifier/src/state.rs
+++ b/vercre-verifier/src/state.rs
@@ -30,9 +30,9 @@ pub struct State {
     pub request_object: RequestObject,
 }
 
-// impl State {
-//     /// Determines whether state has expired or not.
-//     pub fn expired(&self) -> bool {
-//         self.expires_at.signed_duration_since(Utc::now()).num_seconds() < 0
-//     }
-// }
+impl State {
+    /// Determines whether state has expired or not.
+    pub fn is_expired(&self) -> bool {
+        self.expires_at.signed_duration_since(Utc::now()).num_seconds() < 0
+    }
+}
-- 
2.43.0


From e1844fe92b11a95d628f5754ee4cec4c26c1979f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:17 +0000
Subject: [PATCH 40/80] fix: verify the audience of a JWT presentation

---
 vercre-verifier/src/response.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/vercre-verifier/src/response.rs b/vercre-verifier/src/response.rs
index 55a9995..4cc014e 100644
--- a/vercre-verifier/src/response.rs
+++ b/vercre-verifier/src/response.rs
@@ -76,11 +76,12 @@ async fn verify(provider: impl Provider, request: &ResponseRequest) -> Result<()
 
     // check nonce matches
     for vp_val in &vp_token {
-        let (vp, nonce) = match vercre_w3c_vc::proof::verify(Verify::Vp(vp_val), &provider).await {
-            Ok(Payload::Vp { vp, nonce, .. }) => (vp, nonce),
-            Ok(_) => return Err(Error::InvalidRequest("proof payload is invalid".into())),
-            Err(e) => return Err(Error::ServerError(format!("issue verifying VP proof: {e}"))),
-        };
+        let (vp, client_id, nonce) =
+            match vercre_w3c_vc::proof::verify(Verify::Vp(vp_val), &provider).await {
+                Ok(Payload::Vp { vp, client_id, nonce }) => (vp, client_id, nonce),
+                Ok(_) => return Err(Error::InvalidRequest("proof payload is invalid".into())),
+                Err(e) => return Err(Error::ServerError(format!("issue verifying VP proof: {e}"))),
+            };
 
         // else {
         //     return Err(Error::InvalidRequest("invalid vp_token".into()));
@@ -88,6 +89,10 @@ async fn verify(provider: impl Provider, request: &ResponseRequest) -> Result<()
         if nonce != saved_req.nonce {
             return Err(Error::InvalidRequest("nonce does not match".into()));
         }
+        // a presentation made for another Verifier (JWT only, embedded proofs have no audience)
+        if matches!(vp_val, Kind::String(_)) && client_id != saved_req.client_id {
+            return Err(Error::InvalidRequest("audience does not match".into()));
+        }
         vps.push(vp);
     }
 
-- 
2.43.0


From 71e1f1c1fb7fa974b8c961af621e8653212320f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:24 +0000
Subject: [PATCH 41/80] fix: sign a fresh proof for every credential request of
 a wallet flow

---
 vercre-holder/src/issuance/credentials.rs | 54 +++++++++++------------
 1 file changed, 26 insertions(+), 28 deletions(-)

diff --git a/vercre-holder/src/issuance/credentials.rs b/vercre-holder/src/issuance/credentials.rs
index 0370577..e785e87 100644
--- a/vercre-holder/src/issuance/credentials.rs
+++ b/vercre-holder/src/issuance/credentials.rs
@@ -85,37 +85,21 @@ pub async fn credentials(
         return Err(e);
     }
 
-    // Construct a proof to be used in the credential requests.
-    let claims = ProofClaims {
-        iss: Some(issuance.client_id.clone()),
-        aud: issuance.offer.credential_issuer.clone(),
-        iat: chrono::Utc::now().timestamp(),
-        nonce: issuance.token.c_nonce.clone(),
-    };
-    let jwt = jws::encode(Type::Proof, &claims, provider.clone()).await.map_err(|e| {
-        tracing::error!(target: "Endpoint::credentials", ?e);
-        e
-    })?;
-
     // If the flow is scope-based then we can't examine authorization details
     // but proceed instead to request credentials by format.
     if issuance.scope.is_some() {
-        credential_by_format(provider.clone(), &mut issuance, request, &jwt).await.map_err(
-            |e| {
-                tracing::error!(target: "Endpoint::credentials", ?e);
-                e
-            },
-        )?;
+        credential_by_format(provider.clone(), &mut issuance, request).await.map_err(|e| {
+            tracing::error!(target: "Endpoint::credentials", ?e);
+            e
+        })?;
     }
     // Otherwise the flow is definition or format based and we make a request
     // for each authorized credential identifier.
     else {
-        credential_by_identifier(provider.clone(), &mut issuance, request, &jwt).await.map_err(
-            |e| {
-                tracing::error!(target: "Endpoint::credentials", ?e);
-                e
-            },
-        )?;
+        credential_by_identifier(provider.clone(), &mut issuance, request).await.map_err(|e| {
+            tracing::error!(target: "Endpoint::credentials", ?e);
+            e
+        })?;
     }
 
     // Stash the state for the next step (save or cancel or deferred).
@@ -135,9 +119,21 @@ pub async fn credentials(
     })
 }
 
+// Construct a proof to be used in a credential request. The issuer renews the
+// nonce with every credential issued, so each request needs a proof of its own.
+async fn proof_jwt(provider: impl HolderProvider, issuance: &Issuance) -> anyhow::Result<String> {
+    let claims = ProofClaims {
+        iss: Some(issuance.client_id.clone()),
+        aud: issuance.offer.credential_issuer.clone(),
+        iat: chrono::Utc::now().timestamp(),
+        nonce: issuance.token.c_nonce.clone(),
+    };
+    jws::encode(Type::Proof, &claims, provider).await
+}
+
 // Make a credential request by format based on the flow being by scope.
 async fn credential_by_format(
-    provider: impl HolderProvider, issuance: &mut Issuance, request: &CredentialsRequest, jwt: &str,
+    provider: impl HolderProvider, issuance: &mut Issuance, request: &CredentialsRequest,
 ) -> anyhow::Result<()> {
     if request.credential_identifiers.is_some() {
         bail!("credential identifiers must be `None` for scope-based issuance");
@@ -153,12 +149,13 @@ async fn credential_by_format(
     let Some((cfg_id, config)) = config else {
         bail!("credential configuration not found for scope and format");
     };
+    let jwt = proof_jwt(provider.clone(), issuance).await?;
     let request = CredentialRequest {
         credential_issuer: issuance.issuer.credential_issuer.clone(),
         access_token: issuance.token.access_token.clone(),
         credential: CredentialIssuance::Format(config.format.clone()),
         proof: Some(Proof::Single {
-            proof_type: SingleProof::Jwt { jwt: jwt.into() },
+            proof_type: SingleProof::Jwt { jwt },
         }),
         ..Default::default()
     };
@@ -185,7 +182,7 @@ async fn credential_by_format(
 
 // Make a credential request by identifier.
 async fn credential_by_identifier(
-    provider: impl HolderProvider, issuance: &mut Issuance, request: &CredentialsRequest, jwt: &str,
+    provider: impl HolderProvider, issuance: &mut Issuance, request: &CredentialsRequest,
 ) -> anyhow::Result<()> {
     let Some(authorized) = &issuance.token.authorization_details else {
         bail!("no authorization details in token response");
@@ -217,13 +214,14 @@ async fn credential_by_identifier(
                     continue;
                 }
             }
+            let jwt = proof_jwt(provider.clone(), issuance).await?;
             let request = credential_request!({
                 "credential_issuer": issuance.issuer.credential_issuer.clone(),
                 "access_token": issuance.token.access_token.clone(),
                 "credential_identifier": cred_id.to_string(),
                 "proof": {
                     "proof_type": "jwt",
-                    "jwt": jwt.to_string()
+                    "jwt": jwt
                 }
             });
             let cred_res = Issuer::credential(&provider, request).await?;
-- 
2.43.0


From 7de19bf2c963ad7579d3a09b7c9f68aedb32ba8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:26 +0000
Subject: [PATCH 42/80] fix: address wallet proofs to the issuer the credential
 is requested from

---
 vercre-holder/src/issuance/credentials.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vercre-holder/src/issuance/credentials.rs b/vercre-holder/src/issuance/credentials.rs
index e785e87..fa5c987 100644
--- a/vercre-holder/src/issuance/credentials.rs
+++ b/vercre-holder/src/issuance/credentials.rs
@@ -124,7 +124,7 @@ pub async fn credentials(
 async fn proof_jwt(provider: impl HolderProvider, issuance: &Issuance) -> anyhow::Result<String> {
     let claims = ProofClaims {
         iss: Some(issuance.client_id.clone()),
-        aud: issuance.offer.credential_issuer.clone(),
+        aud: issuance.issuer.credential_issuer.clone(),
         iat: chrono::Utc::now().timestamp(),
         nonce: issuance.token.c_nonce.clone(),
     };
-- 
2.43.0


From 38274d6cbd3bc1e82591c0a79f5479cae8dcc3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:27 +0000
Subject: [PATCH 43/80] fix: keep the notification id and the renewed nonce of
 a credential response

---
 vercre-holder/src/issuance.rs             | 16 +++++++++++++++-
 vercre-holder/src/issuance/credentials.rs | 20 +++++++++-----------
 vercre-holder/src/issuance/deferred.rs    |  2 ++
 3 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/vercre-holder/src/issuance.rs b/vercre-holder/src/issuance.rs
index 737bf4e..040488b 100644
--- a/vercre-holder/src/issuance.rs
+++ b/vercre-holder/src/issuance.rs
@@ -28,7 +28,7 @@ use serde::{Deserialize, Serialize};
 pub use token::{token, AuthorizedCredentials};
 use uuid::Uuid;
 use vercre_issuer::{
-    AuthorizationDetail, CredentialOffer, MetadataRequest, OAuthServerRequest, TokenResponse,
+    AuthorizationDetail, CredentialOffer, CredentialResponse, MetadataRequest, OAuthServerRequest, TokenResponse,
 };
 use vercre_openid::issuer::{Issuer, Server};
 
@@ -139,6 +139,20 @@ impl Issuance {
     pub fn add_credential(&mut self, credential: Credential) {
         self.credentials.push(credential);
     }
+
+    /// Keeps what a credential response has for subsequent requests: the
+    /// renewed nonce and the identifier to notify the issuer with.
+    fn update(&mut self, response: &CredentialResponse) {
+        if response.c_nonce.is_some() {
+            self.token.c_nonce.clone_from(&response.c_nonce);
+        }
+        if response.c_nonce_expires_in.is_some() {
+            self.token.c_nonce_expires_in.clone_from(&response.c_nonce_expires_in);
+        }
+        if response.notification_id.is_some() {
+            self.notification_id.clone_from(&response.notification_id);
+        }
+    }
 }
 
 /// Issuance flow status values.
diff --git a/vercre-holder/src/issuance/credentials.rs b/vercre-holder/src/issuance/credentials.rs
index fa5c987..07f0847 100644
--- a/vercre-holder/src/issuance/credentials.rs
+++ b/vercre-holder/src/issuance/credentials.rs
@@ -177,6 +177,7 @@ async fn credential_by_format(
             return Err(e);
         }
     };
+    issuance.update(&cred_res);
     Ok(())
 }
 
@@ -184,11 +185,11 @@ async fn credential_by_format(
 async fn credential_by_identifier(
     provider: impl HolderProvider, issuance: &mut Issuance, request: &CredentialsRequest,
 ) -> anyhow::Result<()> {
-    let Some(authorized) = &issuance.token.authorization_details else {
+    let Some(authorized) = issuance.token.authorization_details.clone() else {
         bail!("no authorization details in token response");
     };
 
-    for auth in authorized {
+    for auth in &authorized {
         let cfg_id = match &auth.authorization_detail.credential {
             CredentialAuthorization::ConfigurationId {
                 credential_configuration_id,
@@ -196,7 +197,7 @@ async fn credential_by_identifier(
             } => credential_configuration_id,
             CredentialAuthorization::Format(format_identifier) => {
                 match issuance.issuer.credential_configuration_id(format_identifier) {
-                    Ok(cfg_id) => cfg_id,
+                    Ok(cfg_id) => &cfg_id.clone(),
                     Err(e) => {
                         tracing::error!(target: "Endpoint::credentials", ?e);
                         return Err(e);
@@ -204,7 +205,9 @@ async fn credential_by_identifier(
                 }
             }
         };
-        let Some(config) = issuance.issuer.credential_configurations_supported.get(cfg_id) else {
+        let Some(config) =
+            issuance.issuer.credential_configurations_supported.get(cfg_id).cloned()
+        else {
             bail!("authorized credential configuration not found in issuer metadata");
         };
         for cred_id in &auth.credential_identifiers {
@@ -225,7 +228,7 @@ async fn credential_by_identifier(
                 }
             });
             let cred_res = Issuer::credential(&provider, request).await?;
-            match process_credential_response(provider.clone(), config, &cred_res).await {
+            match process_credential_response(provider.clone(), &config, &cred_res).await {
                 Ok((credentials, transaction_id)) => {
                     if let Some(credentials) = credentials {
                         issuance.credentials.extend(credentials);
@@ -238,12 +241,7 @@ async fn credential_by_identifier(
                     return Err(e);
                 }
             };
-            if cred_res.c_nonce.is_some() {
-                issuance.token.c_nonce.clone_from(&cred_res.c_nonce);
-            }
-            if cred_res.c_nonce_expires_in.is_some() {
-                issuance.token.c_nonce_expires_in.clone_from(&cred_res.c_nonce_expires_in);
-            }
+            issuance.update(&cred_res);
         }
     }
     Ok(())
diff --git a/vercre-holder/src/issuance/deferred.rs b/vercre-holder/src/issuance/deferred.rs
index baa4dde..275a828 100644
--- a/vercre-holder/src/issuance/deferred.rs
+++ b/vercre-holder/src/issuance/deferred.rs
@@ -91,6 +91,8 @@ pub async fn deferred(
         }
     };
 
+    issuance.update(&deferred_response.credential_response);
+
     // Release issuance state if no more deferred credentials and no
     // credentials to save, otherwise stash the state.
     if issuance.deferred.is_empty() && issuance.credentials.is_empty() {
-- 
2.43.0


From 4b244b39e9d60f86925310c54d0b94d526f70ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:29 +0000
Subject: [PATCH 44/80] fix: do not save the same credentials again when a
 wallet flow stays open

---
 vercre-holder/src/issuance/save.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/vercre-holder/src/issuance/save.rs b/vercre-holder/src/issuance/save.rs
index 6acb2e8..59405b8 100644
--- a/vercre-holder/src/issuance/save.rs
+++ b/vercre-holder/src/issuance/save.rs
@@ -5,6 +5,7 @@
 //!
 //! The converse of this endpoint is the `cancel` endpoint.
 
+use chrono::{DateTime, Utc};
 use serde::{Deserialize, Serialize};
 use tracing::instrument;
 use vercre_issuer::{NotificationEvent, NotificationRequest};
@@ -68,7 +69,7 @@ pub async fn save(provider: impl HolderProvider, request: &SaveRequest) -> anyho
     issuance.credentials.clear();
 
     // Notify issuer if we have been given a notification ID.
-    if let Some(notification_id) = issuance.notification_id {
+    if let Some(notification_id) = issuance.notification_id.take() {
         if let Err(e) = Issuer::notification(
             &provider,
             NotificationRequest {
@@ -95,5 +96,13 @@ pub async fn save(provider: impl HolderProvider, request: &SaveRequest) -> anyho
         return Ok(request.issuance_id.clone());
     }
 
+    // Otherwise, what has been saved is no longer part of the flow.
+    if let Err(e) =
+        StateStore::put(&provider, &issuance.id, &issuance, DateTime::<Utc>::MAX_UTC).await
+    {
+        tracing::error!(target: "Endpoint::save", ?e);
+        return Err(e);
+    }
+
     Ok(request.issuance_id.clone())
 }
-- 
2.43.0


From aad3b0c2082aaa804a1e6f8bae66d18ea06c7eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:30 +0000
Subject: [PATCH 45/80] fix: accept only credentials that were offered

---
 vercre-holder/src/issuance/accept.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/vercre-holder/src/issuance/accept.rs b/vercre-holder/src/issuance/accept.rs
index 30f5b5c..5f80b63 100644
--- a/vercre-holder/src/issuance/accept.rs
+++ b/vercre-holder/src/issuance/accept.rs
@@ -81,12 +81,12 @@ pub async fn accept(
         }
     };
 
-    issuance.accepted =
-        narrow_scope(&issuance.issuer.credential_configurations_supported, request.accept.as_ref())
-            .map_err(|e| {
-                tracing::error!(target: "Endpoint::accept", ?e);
-                e
-            })?;
+    let mut offered = issuance.issuer.credential_configurations_supported.clone();
+    offered.retain(|id, _| issuance.offer.credential_configuration_ids.contains(id));
+    issuance.accepted = narrow_scope(&offered, request.accept.as_ref()).map_err(|e| {
+        tracing::error!(target: "Endpoint::accept", ?e);
+        e
+    })?;
 
     issuance.status = Status::Accepted;
 
@@ -118,14 +118,12 @@ fn narrow_scope(
     };
     let mut auth_details = Vec::new();
     for auth_spec in accept {
+        let Some(credential_configuration) = offered.get(&auth_spec.credential_configuration_id)
+        else {
+            bail!("credential configuration accepted not found in offer");
+        };
         let claims: Option<ProfileClaims> = match &auth_spec.claims {
             Some(claims) => {
-                let Some(credential_configuration) =
-                    offered.get(&auth_spec.credential_configuration_id)
-                else {
-                    bail!("credential configuration accepted not found in offer");
-                };
-
                 let profile = match &credential_configuration.format {
                     Format::JwtVcJson(_) | Format::JwtVcJsonLd(_) | Format::LdpVc(_) => {
                         ProfileClaims::W3c(CredentialDefinition {
-- 
2.43.0


From 6cc66a2731f53173cf6e029f284bd9e1184ff8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:32 +0000
Subject: [PATCH 46/80] fix: keep what the holder accepted when an offer is
 authorized

---
 vercre-holder/src/issuance/authorize.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vercre-holder/src/issuance/authorize.rs b/vercre-holder/src/issuance/authorize.rs
index 34a1002..673fa53 100644
--- a/vercre-holder/src/issuance/authorize.rs
+++ b/vercre-holder/src/issuance/authorize.rs
@@ -167,7 +167,9 @@ pub async fn authorize(
             issuance
         }
     };
-    issuance.accepted.clone_from(&request.authorization_details);
+    if request.authorization_details.is_some() {
+        issuance.accepted.clone_from(&request.authorization_details);
+    }
 
     // PKCE pair
     let verifier = pkce::code_verifier();
-- 
2.43.0


From e82f7fd39b797accc7c4a88d77e6bd04bb8a7736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:34 +0000
Subject: [PATCH 47/80] fix: do not open a wallet flow for an offer that is
 refused

---
 vercre-holder/src/issuance/offer.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/vercre-holder/src/issuance/offer.rs b/vercre-holder/src/issuance/offer.rs
index e24b74e..04334c0 100644
--- a/vercre-holder/src/issuance/offer.rs
+++ b/vercre-holder/src/issuance/offer.rs
@@ -118,14 +118,6 @@ pub async fn offer(
 
     issuance.status = Status::Ready;
 
-    // Stash the state for the next step.
-    if let Err(e) =
-        StateStore::put(&provider, &issuance.id, &issuance, DateTime::<Utc>::MAX_UTC).await
-    {
-        tracing::error!(target: "Endpoint::offer", ?e);
-        return Err(e);
-    };
-
     // Trim the supported credentials to just those on offer so that the holder
     // can decide which to accept.
     let mut offered = HashMap::<String, CredentialConfiguration>::new();
@@ -140,6 +132,14 @@ pub async fn offer(
         offered.insert(cfg_id.clone(), found.clone());
     }
 
+    // Stash the state for the next step.
+    if let Err(e) =
+        StateStore::put(&provider, &issuance.id, &issuance, DateTime::<Utc>::MAX_UTC).await
+    {
+        tracing::error!(target: "Endpoint::offer", ?e);
+        return Err(e);
+    };
+
     let res = OfferResponse {
         issuance_id: issuance.id,
         issuer: request.offer.credential_issuer.clone(),
-- 
2.43.0


From bea594e916d7afabe3dd02f0cf2a54234a1e3f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:35 +0000
Subject: [PATCH 48/80] fix: do not panic on issuer metadata with empty lists

---
 vercre-holder/src/issuance/authorize.rs   | 12 ++++++++++--
 vercre-holder/src/issuance/credentials.rs |  4 ++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/vercre-holder/src/issuance/authorize.rs b/vercre-holder/src/issuance/authorize.rs
index 673fa53..b35a12f 100644
--- a/vercre-holder/src/issuance/authorize.rs
+++ b/vercre-holder/src/issuance/authorize.rs
@@ -266,14 +266,22 @@ fn authorization_request(
         return Err(anyhow!("code challenge methods missing from authorization server metadata"));
     };
 
+    let Some(code_challenge_method) = code_challenge_methods.first() else {
+        return Err(anyhow!("code challenge methods missing from authorization server metadata"));
+    };
+    let Some(response_type) = issuance.authorization_server.oauth.response_types_supported.first()
+    else {
+        return Err(anyhow!("response types missing from authorization server metadata"));
+    };
+
     Ok(AuthorizationRequest::Object(RequestObject {
         credential_issuer: issuance.issuer.credential_issuer.clone(),
-        response_type: issuance.authorization_server.oauth.response_types_supported[0].clone(),
+        response_type: response_type.clone(),
         client_id: issuance.client_id.clone(),
         redirect_uri: request.redirect_uri.clone(),
         state: Some(issuance.id.clone()),
         code_challenge,
-        code_challenge_method: code_challenge_methods[0].clone(),
+        code_challenge_method: code_challenge_method.clone(),
         authorization_details: auth_details,
         scope,
         resource: Some(issuance.issuer.credential_issuer.clone()),
diff --git a/vercre-holder/src/issuance/credentials.rs b/vercre-holder/src/issuance/credentials.rs
index 07f0847..e90f55d 100644
--- a/vercre-holder/src/issuance/credentials.rs
+++ b/vercre-holder/src/issuance/credentials.rs
@@ -312,9 +312,9 @@ async fn credential(
     };
 
     // Base64-encoded logo if possible.
-    if let Some(display) = &config.display {
+    if let Some(display) = config.display.as_ref().and_then(|display| display.first()) {
         // TODO: Locale?
-        if let Some(logo_info) = &display[0].logo {
+        if let Some(logo_info) = &display.logo {
             if let Some(uri) = &logo_info.uri {
                 if let Ok(logo) = Issuer::logo(provider, uri).await {
                     storable_credential.logo = Some(logo);
-- 
2.43.0


From 8ff810e63ed102da6b039009cf966a26df594900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:37 +0000
Subject: [PATCH 49/80] fix: do not panic on a failed presentation status
 without a message

---
 vercre-holder/src/presentation.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vercre-holder/src/presentation.rs b/vercre-holder/src/presentation.rs
index c238758..0108533 100644
--- a/vercre-holder/src/presentation.rs
+++ b/vercre-holder/src/presentation.rs
@@ -84,8 +84,8 @@ impl FromStr for Status {
     type Err = anyhow::Error;
 
     fn from_str(s: &str) -> anyhow::Result<Self> {
-        if s.starts_with("Failed") {
-            return Ok(Self::Failed(s[8..].to_string()));
+        if let Some(e) = s.strip_prefix("Failed: ") {
+            return Ok(Self::Failed(e.to_string()));
         }
         match s {
             "Inactive" => Ok(Self::Inactive),
-- 
2.43.0


From 60afeea78106f555d96fd8f2656615f4fa2d0700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:44 +0000
Subject: [PATCH 50/80] fix: allow presentations of no more specific type

---
 crates/w3c-vc/src/model/vp.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/crates/w3c-vc/src/model/vp.rs b/crates/w3c-vc/src/model/vp.rs
index 99b8118..498910f 100644
--- a/crates/w3c-vc/src/model/vp.rs
+++ b/crates/w3c-vc/src/model/vp.rs
@@ -156,9 +156,6 @@ impl VpBuilder {
         if self.vp.context.len() < 2 {
             bail!("context is required");
         }
-        if let Quota::One(_) = self.vp.type_ {
-            bail!("type is required");
-        }
 
         Ok(self.vp)
     }
-- 
2.43.0


From b8f1ccba459a2a6953c0c9faa4e7f1de6e06cc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:37 +0000
Subject: [PATCH 51/80] fix: leave out absent members when a credential is
 serialized

---
 crates/w3c-vc/src/model/vc.rs   | 2 ++
 crates/w3c-vc/src/proof/jose.rs | 1 +
 2 files changed, 3 insertions(+)

diff --git a/crates/w3c-vc/src/model/vc.rs b/crates/w3c-vc/src/model/vc.rs
index 960caa6..0d2ccf1 100644
--- a/crates/w3c-vc/src/model/vc.rs
+++ b/crates/w3c-vc/src/model/vc.rs
@@ -42,6 +42,7 @@ pub struct VerifiableCredential {
     /// in the id be one which, if dereferenceable, results in a document
     /// containing machine-readable information about the id. For example,
     /// "`http://example.edu/credentials/3732`".
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub id: Option<String>,
 
     /// The type property is used to determine whether or not a provided
@@ -83,6 +84,7 @@ pub struct VerifiableCredential {
     /// e.g. 2010-01-01T19:23:24Z.
     ///
     /// Note: this is not necessarily the date the credential was issued.
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub valid_from: Option<DateTime<Utc>>,
 
     /// An XMLSCHEMA11-2 (RFC3339) date-time the credential ceases to be valid.
diff --git a/crates/w3c-vc/src/proof/jose.rs b/crates/w3c-vc/src/proof/jose.rs
index d25fde6..2889d20 100644
--- a/crates/w3c-vc/src/proof/jose.rs
+++ b/crates/w3c-vc/src/proof/jose.rs
@@ -62,6 +62,7 @@ pub struct VcClaims {
     /// represent the validity of the data that is being secured. Use of the nbf
     /// (Not Before) claim is NOT RECOMMENDED, as it makes little sense to
     /// attempt to assign a future date to a signature.
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub nbf: Option<i64>,
 
     /// MUST be the `issuer` property of the Credential.
-- 
2.43.0


From 82425f5a98fb472b0a691d7cb0280a99b9915856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:09 +0000
Subject: [PATCH 52/80] fix: leave an absent client_id out of the token request

---
 crates/openid/src/issuer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/openid/src/issuer.rs b/crates/openid/src/issuer.rs
index b2e627f..2db6830 100644
--- a/crates/openid/src/issuer.rs
+++ b/crates/openid/src/issuer.rs
@@ -959,6 +959,7 @@ pub struct TokenRequest {
     /// OPTIONAL, as described in Section 3.2.1 of OAuth 2.0 [RFC6749], and,
     /// consequently, the `client_id` parameter is only needed when a form
     /// of Client Authentication that relies on this parameter is used.
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub client_id: Option<String>,
 
     /// Authorization grant type.
-- 
2.43.0


From c81d95643be45b2878834fb7f1d719091284de47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:14 +0000
Subject: [PATCH 53/80] fix: write a request object response in the form it is
 read

---
 crates/openid/src/verifier.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/openid/src/verifier.rs b/crates/openid/src/verifier.rs
index ef5a885..acc3bfc 100644
--- a/crates/openid/src/verifier.rs
+++ b/crates/openid/src/verifier.rs
@@ -440,9 +440,9 @@ impl Serialize for RequestObjectResponse {
         S: Serializer,
     {
         match &self.request_object {
-            RequestObjectType::Object(_) => {
+            RequestObjectType::Object(object) => {
                 let mut map = serializer.serialize_map(Some(1))?;
-                map.serialize_entry("request_object", &self.request_object)?;
+                map.serialize_entry("request_object", object)?;
                 map.end()
             }
             RequestObjectType::Jwt(jwt) => jwt.serialize(serializer),
-- 
2.43.0


From 77c586ae2061d634a104097592ba15eff21c4c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:02 +0000
Subject: [PATCH 54/80] fix: confine a status message to the bits of its own
 entry

---
 crates/status/src/bitstring.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/status/src/bitstring.rs b/crates/status/src/bitstring.rs
index 4593791..dfb57ec 100644
--- a/crates/status/src/bitstring.rs
+++ b/crates/status/src/bitstring.rs
@@ -150,8 +150,9 @@ pub fn bitstring(config: &ListConfig, issued: &[StatusLogEntry]) -> anyhow::Resu
                 continue;
             }
 
-            let position = status.list_index * config.size;
-            if position >= bits.len() {
+            // every entry occupies `size` bits
+            let position = status.list_index.saturating_mul(config.size);
+            if position.saturating_add(config.size) > bits.len() {
                 return Err(anyhow!("status index out of range"));
             }
             match config.purpose {
@@ -160,8 +161,11 @@ pub fn bitstring(config: &ListConfig, issued: &[StatusLogEntry]) -> anyhow::Resu
                 }
                 StatusPurpose::Message => {
                     let value = status.value.view_bits::<Lsb0>();
-                    for (i, bit) in value.iter().enumerate() {
-                        bits.set(position + i, *bit);
+                    if value.iter().skip(config.size).any(|bit| *bit) {
+                        return Err(anyhow!("status value out of range"));
+                    }
+                    for i in 0..config.size {
+                        bits.set(position + i, value.get(i).is_some_and(|bit| *bit));
                     }
                 }
             }
-- 
2.43.0


From 72d9d96d7e2978f089d28631534dbfdf1e9bfaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:08 +0000
Subject: [PATCH 55/80] fix: encode a status list as a multibase, compressed
 bitstring

---
 crates/status/src/bitstring.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/status/src/bitstring.rs b/crates/status/src/bitstring.rs
index dfb57ec..a3d270e 100644
--- a/crates/status/src/bitstring.rs
+++ b/crates/status/src/bitstring.rs
@@ -8,7 +8,8 @@ use std::io::Write;
 use anyhow::anyhow;
 use base64ct::{Base64UrlUnpadded, Encoding};
 use bitvec::bits;
-use bitvec::order::Lsb0;
+use bitvec::order::{Lsb0, Msb0};
+use bitvec::vec::BitVec;
 use bitvec::view::BitView;
 use chrono::Utc;
 use flate2::write::GzEncoder;
@@ -172,15 +173,17 @@ pub fn bitstring(config: &ListConfig, issued: &[StatusLogEntry]) -> anyhow::Resu
         }
     }
 
-    let uncompressed = bits.into_iter().map(|b| if *b { '1' } else { '0' }).collect::<String>();
+    // index zero is the left-most bit
+    let uncompressed = bits.iter().by_vals().collect::<BitVec<u8, Msb0>>().into_vec();
 
     let mut gz_encoder = GzEncoder::new(Vec::new(), flate2::Compression::default());
-    gz_encoder.write_all(uncompressed.as_bytes())?;
+    gz_encoder.write_all(&uncompressed)?;
     let compressed = gz_encoder.finish()?;
 
+    // 'u' is the multibase prefix for base64url without padding
     let encoded = Base64UrlUnpadded::encode_string(&compressed);
 
-    Ok(encoded)
+    Ok(format!("u{encoded}"))
 }
 
 /// Generates a bitstring status list credential for the given status type.
-- 
2.43.0


From 782184c53a4bdae7f72b646c17c6263c8d74b9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:14 +0000
Subject: [PATCH 56/80] fix: build status list credentials

---
 crates/status/src/bitstring.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/status/src/bitstring.rs b/crates/status/src/bitstring.rs
index a3d270e..ef0b1cd 100644
--- a/crates/status/src/bitstring.rs
+++ b/crates/status/src/bitstring.rs
@@ -16,6 +16,7 @@ use flate2::write::GzEncoder;
 use serde::{Deserialize, Serialize};
 use serde_json::{Map, Value};
 use thiserror::Error;
+use vercre_core::Kind;
 use vercre_infosec::Signer;
 use vercre_w3c_vc::model::{CredentialStatus, CredentialSubject, StatusPurpose, VcBuilder};
 use vercre_w3c_vc::proof::{self, Payload, W3cFormat};
@@ -210,11 +211,11 @@ pub async fn credential(
     if !base_url.ends_with('/') {
         base_url.push('/');
     }
-    let id = format!("{base_url}/{}", config.list);
+    let id = format!("{base_url}{}", config.list);
 
     let mut claims = Map::new();
     claims.insert("type".into(), Value::String("BitstringStatusList".into()));
-    claims.insert("purpose".into(), Value::String(config.purpose.to_string()));
+    claims.insert("statusPurpose".into(), Value::String(config.purpose.to_string()));
     claims.insert("encodedList".into(), Value::String(bitstring.into()));
 
     let cache_time = ttl.unwrap_or(DEFAULT_TTL);
@@ -223,6 +224,7 @@ pub async fn credential(
     let issued_at = Utc::now().timestamp();
 
     let vc = VcBuilder::new()
+        .add_context(Kind::String("https://www.w3.org/ns/credentials/status/v1".into()))
         .id(id.clone())
         .add_type("BitstringStatusListCredential")
         .issuer(credential_issuer)
-- 
2.43.0


From bc2c298bb57c7448f3682d1f33e51ac8e80bb5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:19 +0000
Subject: [PATCH 57/80] fix: escape the details of status list errors

---
 crates/status/src/bitstring.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/crates/status/src/bitstring.rs b/crates/status/src/bitstring.rs
index ef0b1cd..0971e59 100644
--- a/crates/status/src/bitstring.rs
+++ b/crates/status/src/bitstring.rs
@@ -49,23 +49,28 @@ pub const DEFAULT_TTL: u64 = 300_000;
 #[derive(Error, Debug, Deserialize)]
 pub enum Error {
     /// Retrievel of the status list failed.
-    #[error(r#"{{"type": "https://www.w3.org/ns/credentials/status-list#-128", "code": -128, "title": "status retrieval error", "detail": "{0}"}}"#)]
+    #[error(r#"{{"type": "https://www.w3.org/ns/credentials/status-list#-128", "code": -128, "title": "status retrieval error", "detail": {}}}"#, quote(.0))]
     Retrieval(String),
 
     /// Validation of the status entry failed.
-    #[error(r#"{{"type": "https://www.w3.org/ns/credentials/status-list#-129", "code": -129, "title": "status verification error", "detail": "{0}"}}"#)]
+    #[error(r#"{{"type": "https://www.w3.org/ns/credentials/status-list#-129", "code": -129, "title": "status verification error", "detail": {}}}"#, quote(.0))]
     Verification(String),
 
     /// The status list length does not satisfy the minimum length required for
     /// herd privacy.
-    #[error(r#"{{"type": "https://www.w3.org/ns/credentials/status-list#-130", "code": -130, "title": "status list length error", "detail": "{0}"}}"#)]
+    #[error(r#"{{"type": "https://www.w3.org/ns/credentials/status-list#-130", "code": -130, "title": "status list length error", "detail": {}}}"#, quote(.0))]
     ListLength(String),
 
     /// The index into the status list is larger than the length of the list.
-    #[error(r#"{{"type": "https://www.w3.org/ns/credentials/status-list#-67", "code": -67, "title": "range error", "detail": "{0}"}}"#)]
+    #[error(r#"{{"type": "https://www.w3.org/ns/credentials/status-list#-67", "code": -67, "title": "range error", "detail": {}}}"#, quote(.0))]
     Range(String),
 }
 
+// Quote (and escape) a string for use as a JSON value.
+fn quote(s: &str) -> String {
+    Value::from(s).to_string()
+}
+
 impl Serialize for Error {
     fn serialize<S: serde::Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
         use serde::ser::Error as SerdeError;
-- 
2.43.0


From 428af66efe412db18d8d97ce468417d54133942a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:50 +0000
Subject: [PATCH 58/80] fix: do not panic on the smallest random digest id

---
 crates/iso-mdl/src/mso.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/iso-mdl/src/mso.rs b/crates/iso-mdl/src/mso.rs
index 72f6c45..f7b2dbe 100644
--- a/crates/iso-mdl/src/mso.rs
+++ b/crates/iso-mdl/src/mso.rs
@@ -190,7 +190,7 @@ impl DigestIdGenerator {
     pub fn gen(&mut self) -> DigestId {
         let mut digest_id;
         loop {
-            digest_id = i32::abs(rand::thread_rng().gen());
+            digest_id = rand::thread_rng().gen::<DigestId>() & DigestId::MAX;
             if self.used.insert(digest_id) {
                 return digest_id;
             }
-- 
2.43.0


From 32f201dbb73ad4ff7ff25eba08a0f802fd22dc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:53 +0000
Subject: [PATCH 59/80] fix: use the specified member names in issuer signed
 items

---
 crates/iso-mdl/src/mdoc.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/iso-mdl/src/mdoc.rs b/crates/iso-mdl/src/mdoc.rs
index 9af4ba4..7722310 100644
--- a/crates/iso-mdl/src/mdoc.rs
+++ b/crates/iso-mdl/src/mdoc.rs
@@ -55,8 +55,10 @@ pub type IssuerSignedItemBytes = Tag24<IssuerSignedItem>;
 
 /// Issuer-signed data element
 #[derive(Clone, Debug, Deserialize, Serialize)]
+#[serde(rename_all = "camelCase")]
 pub struct IssuerSignedItem {
     /// Id of the digest as added to the MSO `value_digests` parameter.
+    #[serde(rename = "digestID")]
     pub digest_id: mso::DigestId,
 
     /// Random hexadecimal value for issuer data authentication.
-- 
2.43.0


From e69ea1979e6663adf1550edce6f0c438c83d30be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:59 +0000
Subject: [PATCH 60/80] fix: do not panic on a credential with an empty list of
 subjects

---
 crates/w3c-vc/src/proof/jose.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/w3c-vc/src/proof/jose.rs b/crates/w3c-vc/src/proof/jose.rs
index 2889d20..43a0886 100644
--- a/crates/w3c-vc/src/proof/jose.rs
+++ b/crates/w3c-vc/src/proof/jose.rs
@@ -88,8 +88,8 @@ pub struct VcClaims {
 impl VcClaims {
     pub fn from_vc(vc: VerifiableCredential, issued_at: i64) -> Self {
         let subject = match &vc.credential_subject {
-            Quota::One(sub) => sub,
-            Quota::Many(subs) => &subs[0],
+            Quota::One(sub) => Some(sub),
+            Quota::Many(subs) => subs.first(),
         };
 
         let issuer_id = match &vc.issuer {
@@ -99,7 +99,7 @@ impl VcClaims {
 
         Self {
             // TODO: find better way to set sub (shouldn't need to be in vc)
-            sub: subject.id.clone().unwrap_or_default(),
+            sub: subject.and_then(|s| s.id.clone()).unwrap_or_default(),
             nbf: None,
             iss: issuer_id.clone(),
             iat: issued_at,
-- 
2.43.0


From b23e2b21ec922fb6523ca65d165ec7629f3c6637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:32 +0000
Subject: [PATCH 61/80] fix: return an error when an mdoc cannot be signed

---
 crates/iso-mdl/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/iso-mdl/src/lib.rs b/crates/iso-mdl/src/lib.rs
index 2a8c3c5..49acef1 100644
--- a/crates/iso-mdl/src/lib.rs
+++ b/crates/iso-mdl/src/lib.rs
@@ -74,7 +74,7 @@ pub async fn to_credential(
 
     // sign
     let mso_bytes = Tag24(mso).to_vec()?;
-    let signature = signer.sign(&mso_bytes).await;
+    let signature = signer.try_sign(&mso_bytes).await?;
 
     // build COSE_Sign1
     let algorithm = match signer.algorithm() {
-- 
2.43.0


From fc672e552bc0874389d26bcde7097ef89d578d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:42 +0000
Subject: [PATCH 62/80] fix: reject authorization details whose type is not a
 string

---
 crates/macros/src/authorization.rs | 4 +---
 crates/macros/src/token.rs         | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/crates/macros/src/authorization.rs b/crates/macros/src/authorization.rs
index 0189eed..09aa6a7 100644
--- a/crates/macros/src/authorization.rs
+++ b/crates/macros/src/authorization.rs
@@ -76,9 +76,7 @@ fn authorization_details(details: &Value) -> Result<TokenStream> {
 
         // check type is set and is `openid_credential`
         if let Some(type_) = detail.get("type") {
-            if let Some(t) = type_.as_str()
-                && t != "openid_credential"
-            {
+            if type_.as_str() != Some("openid_credential") {
                 return Err(Error::new(span, "`type` must be `openid_credential`"));
             }
         } else {
diff --git a/crates/macros/src/token.rs b/crates/macros/src/token.rs
index d2a59fb..2cfa2cc 100644
--- a/crates/macros/src/token.rs
+++ b/crates/macros/src/token.rs
@@ -102,9 +102,7 @@ fn authorization_details(details: &Value) -> Result<TokenStream> {
 
         // check type is set and is `openid_credential`
         if let Some(type_) = detail.get("type") {
-            if let Some(t) = type_.as_str()
-                && t != "openid_credential"
-            {
+            if type_.as_str() != Some("openid_credential") {
                 return Err(Error::new(span, "`type` must be `openid_credential`"));
             }
         } else {
-- 
2.43.0


From b86af970f870deeddf6769621c30b78a63dfd76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:42 +0000
Subject: [PATCH 63/80] fix: reject members that are set twice

---
 crates/macros/src/parse.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/macros/src/parse.rs b/crates/macros/src/parse.rs
index f57d6ca..68aa624 100644
--- a/crates/macros/src/parse.rs
+++ b/crates/macros/src/parse.rs
@@ -78,8 +78,11 @@ impl Parse for Json {
         // parse key-value pairs into fields
         let fields = Punctuated::<Field, token::Comma>::parse_terminated(&content)?;
         for field in fields.into_pairs() {
-            let field = field.into_value();
-            json.fields.insert(field.lhs, field.rhs);
+            let Field { lhs, rhs } = field.into_value();
+            if json.fields.contains_key(&lhs) {
+                return Err(content.error(format!("`{lhs}` is set more than once")));
+            }
+            json.fields.insert(lhs, rhs);
         }
 
         Ok(json)
@@ -119,8 +122,11 @@ impl Parse for Value {
             braced!(content in input);
             let fields = Punctuated::<Field, token::Comma>::parse_terminated(&content)?;
             for field in fields.into_pairs() {
-                let field = field.into_value();
-                data.insert(field.lhs, field.rhs);
+                let Field { lhs, rhs } = field.into_value();
+                if data.contains_key(&lhs) {
+                    return Err(content.error(format!("`{lhs}` is set more than once")));
+                }
+                data.insert(lhs, rhs);
             }
             Self::Object(data)
         } else if l.peek(token::Bracket) {
-- 
2.43.0


From 6a53317123194316557f0a99d97d78ae98925b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:43 +0000
Subject: [PATCH 64/80] fix: reject claims that are not objects

---
 crates/macros/src/authorization.rs | 32 +++++++++++++++++-------------
 crates/macros/src/token.rs         |  2 +-
 2 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/crates/macros/src/authorization.rs b/crates/macros/src/authorization.rs
index 09aa6a7..cf79567 100644
--- a/crates/macros/src/authorization.rs
+++ b/crates/macros/src/authorization.rs
@@ -212,7 +212,7 @@ pub fn subject(definition: &HashMap<String, Value>) -> Result<TokenStream> {
         };
 
         // build claims map
-        let claims = claims(credential_subject);
+        let claims = claims(credential_subject)?;
 
         Ok(quote! {#claims})
     } else {
@@ -220,21 +220,25 @@ pub fn subject(definition: &HashMap<String, Value>) -> Result<TokenStream> {
     }
 }
 
-pub fn claims(claimset: &HashMap<String, Value>) -> TokenStream {
+pub fn claims(claimset: &HashMap<String, Value>) -> Result<TokenStream> {
     let path = quote! {vercre_issuer};
 
-    let claims = claimset.iter().map(|(k, v)| {
-        if let Some(nested) = v.as_object()
-            && !nested.is_empty()
-        {
-            let claims = claims(nested);
-            quote! {(#k.to_string(), #path::Claim::Set(#claims.unwrap()))}
-        } else {
-            quote! {(#k.to_string(), #path::Claim::Entry(#path::ClaimDefinition::default()))}
-        }
-    });
+    let claims = claimset
+        .iter()
+        .map(|(k, v)| {
+            let Some(nested) = v.as_object() else {
+                return Err(Error::new(Span::call_site(), format!("`{k}` must be an object")));
+            };
+            if nested.is_empty() {
+                Ok(quote! {(#k.to_string(), #path::Claim::Entry(#path::ClaimDefinition::default()))})
+            } else {
+                let claims = claims(nested)?;
+                Ok(quote! {(#k.to_string(), #path::Claim::Set(#claims.unwrap()))})
+            }
+        })
+        .collect::<Result<Vec<_>>>()?;
 
-    quote! {
+    Ok(quote! {
         Some(std::collections::HashMap::from([#(#claims),*]))
-    }
+    })
 }
diff --git a/crates/macros/src/token.rs b/crates/macros/src/token.rs
index 2cfa2cc..5b3daff 100644
--- a/crates/macros/src/token.rs
+++ b/crates/macros/src/token.rs
@@ -234,7 +234,7 @@ fn subject(definition: &HashMap<String, Value>) -> Result<TokenStream> {
         };
 
         // build claims map
-        let claims = claims(credential_subject);
+        let claims = claims(credential_subject)?;
 
         Ok(quote! {#claims})
     } else {
-- 
2.43.0


From 2ef5d38b8d440bf8254f24d5ccca9c967dcddabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:43 +0000
Subject: [PATCH 65/80] fix: keep the @context of credential definitions

---
 crates/macros/src/authorization.rs | 19 ++++++++-----------
 crates/macros/src/credential.rs    |  8 ++++----
 crates/macros/src/token.rs         |  8 ++++----
 3 files changed, 16 insertions(+), 19 deletions(-)

diff --git a/crates/macros/src/authorization.rs b/crates/macros/src/authorization.rs
index cf79567..51e06ee 100644
--- a/crates/macros/src/authorization.rs
+++ b/crates/macros/src/authorization.rs
@@ -155,12 +155,9 @@ fn configuration_definition(defn_value: &Value) -> Result<TokenStream> {
     };
 
     // TODO: only allow @context if format is ldp-vc or jwt_vc_json-ld
-    // let context = if let Some(context) = credential_definition.get("@context") {
-    //     quote! {Some(#context)}
-    // } else {
-    //     quote! {None}
-    // };
-
+    let context = credential_definition
+        .get("@context")
+        .map_or_else(|| quote! {None}, |context| quote! {Some(#context)});
     let type_ = credential_definition
         .get("type")
         .map_or_else(|| quote! {None}, |type_array| quote! {Some(#type_array)});
@@ -168,7 +165,7 @@ fn configuration_definition(defn_value: &Value) -> Result<TokenStream> {
 
     Ok(quote! {
         #path::CredentialDefinition {
-            context: None,
+            context: #context,
             type_: #type_,
             credential_subject: #subject,
         }
@@ -184,9 +181,9 @@ fn format_definition(defn_value: &Value) -> Result<TokenStream> {
     };
 
     // TODO: only allow @context if format is ldp-vc or jwt_vc_json-ld
-    // let Some(context) = credential_definition.get("@context") else {
-    //     return Err(Error::new(span, "`@context` is not set"));
-    // };
+    let context = credential_definition
+        .get("@context")
+        .map_or_else(|| quote! {None}, |context| quote! {Some(#context)});
 
     let Some(type_array) = credential_definition.get("type") else {
         return Err(Error::new(span, "`type` is not set"));
@@ -196,7 +193,7 @@ fn format_definition(defn_value: &Value) -> Result<TokenStream> {
 
     Ok(quote! {
         #path::CredentialDefinition {
-            context: None,
+            context: #context,
             type_: Some(#type_array),
             credential_subject: #subject,
         }
diff --git a/crates/macros/src/credential.rs b/crates/macros/src/credential.rs
index e015877..0afe2b1 100644
--- a/crates/macros/src/credential.rs
+++ b/crates/macros/src/credential.rs
@@ -72,9 +72,9 @@ fn format_definition(defn_value: &Value) -> Result<TokenStream> {
     };
 
     // TODO: only allow @context if format is ldp-vc or jwt_vc_json-ld
-    // let Some(context) = credential_definition.get("@context") else {
-    //     return Err(Error::new(span, "`@context` is not set"));
-    // };
+    let context = credential_definition
+        .get("@context")
+        .map_or_else(|| quote! {None}, |context| quote! {Some(#context)});
 
     let Some(type_array) = credential_definition.get("type") else {
         return Err(Error::new(span, "`type` is not set"));
@@ -85,7 +85,7 @@ fn format_definition(defn_value: &Value) -> Result<TokenStream> {
     Ok(quote! {
         #path::CredentialDefinition {
             credential_subject: #subject,
-            context: None,
+            context: #context,
             type_: Some(#type_array),
         }
     })
diff --git a/crates/macros/src/token.rs b/crates/macros/src/token.rs
index 5b3daff..242d7bf 100644
--- a/crates/macros/src/token.rs
+++ b/crates/macros/src/token.rs
@@ -206,9 +206,9 @@ fn format_definition(defn_value: &Value) -> Result<TokenStream> {
     };
 
     // TODO: only allow @context if format is ldp-vc or jwt_vc_json-ld
-    // let Some(context) = credential_definition.get("@context") else {
-    //     return Err(Error::new(span, "`@context` is not set"));
-    // };
+    let context = credential_definition
+        .get("@context")
+        .map_or_else(|| quote! {None}, |context| quote! {Some(#context)});
 
     let Some(type_array) = credential_definition.get("type") else {
         return Err(Error::new(span, "`type` is not set"));
@@ -219,7 +219,7 @@ fn format_definition(defn_value: &Value) -> Result<TokenStream> {
     Ok(quote! {
         #path::CredentialDefinition {
             credential_subject: #subject,
-            context: None,
+            context: #context,
             type_: Some(#type_array),
         }
     })
-- 
2.43.0


From 80dff974befb751df693b8024abc8929ef34e0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:43 +0000
Subject: [PATCH 66/80] fix: reject unexpected members of nested objects

---
 crates/macros/src/authorization.rs | 11 ++++++++++-
 crates/macros/src/credential.rs    |  4 +++-
 crates/macros/src/parse.rs         | 10 ++++++++++
 crates/macros/src/token.rs         | 11 ++++++++++-
 4 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/crates/macros/src/authorization.rs b/crates/macros/src/authorization.rs
index 51e06ee..5c36804 100644
--- a/crates/macros/src/authorization.rs
+++ b/crates/macros/src/authorization.rs
@@ -4,7 +4,7 @@ use proc_macro2::{Span, TokenStream};
 use quote::quote;
 use syn::parse::{Error, Result};
 
-use crate::parse::{Json, Value};
+use crate::parse::{only, Json, Value};
 
 pub fn request(input: &Json) -> Result<TokenStream> {
     // we remove fields as we go so we can check for unexpected input
@@ -107,6 +107,11 @@ fn credential_authorization(detail: &HashMap<String, Value>) -> Result<TokenStre
 
     // credential_configuration_id or format?
     if let Some(credential_configuration_id) = detail.get("credential_configuration_id") {
+        only(
+            detail,
+            &["type", "locations", "credential_configuration_id", "credential_definition"],
+        )?;
+
         // credential_definition is optional
         let claims = if let Some(defn_value) = detail.get("credential_definition") {
             let credential_definition = configuration_definition(defn_value)?;
@@ -122,6 +127,8 @@ fn credential_authorization(detail: &HashMap<String, Value>) -> Result<TokenStre
             }
         })
     } else if let Some(format) = detail.get("format") {
+        only(detail, &["type", "locations", "format", "credential_definition"])?;
+
         // credential_definition is required
         let Some(defn_value) = detail.get("credential_definition") else {
             return Err(Error::new(span, "`credential_definition` is not set"));
@@ -153,6 +160,7 @@ fn configuration_definition(defn_value: &Value) -> Result<TokenStream> {
     let Some(credential_definition) = defn_value.as_object() else {
         return Err(Error::new(span, "`credential_definition` must be an object"));
     };
+    only(credential_definition, &["@context", "type", "credentialSubject"])?;
 
     // TODO: only allow @context if format is ldp-vc or jwt_vc_json-ld
     let context = credential_definition
@@ -179,6 +187,7 @@ fn format_definition(defn_value: &Value) -> Result<TokenStream> {
     let Some(credential_definition) = defn_value.as_object() else {
         return Err(Error::new(span, "`credential_definition` must be an object"));
     };
+    only(credential_definition, &["@context", "type", "credentialSubject"])?;
 
     // TODO: only allow @context if format is ldp-vc or jwt_vc_json-ld
     let context = credential_definition
diff --git a/crates/macros/src/credential.rs b/crates/macros/src/credential.rs
index 0afe2b1..4fa51c9 100644
--- a/crates/macros/src/credential.rs
+++ b/crates/macros/src/credential.rs
@@ -3,7 +3,7 @@ use quote::quote;
 use syn::parse::{Error, Result};
 
 use crate::authorization::subject;
-use crate::parse::{Json, Value};
+use crate::parse::{only, Json, Value};
 
 // Create strongly typed `CredentialRequest` from JSON-like input,
 // doing basic validation and setting sensible defaults.
@@ -70,6 +70,7 @@ fn format_definition(defn_value: &Value) -> Result<TokenStream> {
     let Some(credential_definition) = defn_value.as_object() else {
         return Err(Error::new(span, "`credential_definition` must be an object"));
     };
+    only(credential_definition, &["@context", "type", "credentialSubject"])?;
 
     // TODO: only allow @context if format is ldp-vc or jwt_vc_json-ld
     let context = credential_definition
@@ -99,6 +100,7 @@ fn proof(input: &mut Json) -> Result<TokenStream> {
         let Some(proof) = p.as_object() else {
             return Err(Error::new(span, "`proof` must be an object"));
         };
+        only(proof, &["proof_type", "jwt"])?;
 
         if let Some(proof_type) = proof.get("proof_type") {
             if proof_type.as_str() != Some("jwt") {
diff --git a/crates/macros/src/parse.rs b/crates/macros/src/parse.rs
index 68aa624..68ebe31 100644
--- a/crates/macros/src/parse.rs
+++ b/crates/macros/src/parse.rs
@@ -44,6 +44,16 @@ impl Json {
     }
 }
 
+/// Check an object has no members other than those expected.
+pub fn only(object: &HashMap<String, Value>, expected: &[&str]) -> Result<()> {
+    for key in object.keys() {
+        if !expected.contains(&key.as_str()) {
+            return Err(Error::new(Span::call_site(), format!("unexpected field: `{key}`")));
+        }
+    }
+    Ok(())
+}
+
 struct Field {
     lhs: String,
     rhs: Value,
diff --git a/crates/macros/src/token.rs b/crates/macros/src/token.rs
index 242d7bf..65064ac 100644
--- a/crates/macros/src/token.rs
+++ b/crates/macros/src/token.rs
@@ -5,7 +5,7 @@ use quote::quote;
 use syn::parse::{Error, Result};
 
 use crate::authorization::claims;
-use crate::parse::{Json, Value};
+use crate::parse::{only, Json, Value};
 
 pub fn request(input: &Json) -> Result<TokenStream> {
     // let path = quote! {vercre_openid::issuer};
@@ -133,6 +133,11 @@ fn credential_configuration(detail: &HashMap<String, Value>) -> Result<TokenStre
 
     // credential_configuration_id or format?
     if let Some(credential_configuration_id) = detail.get("credential_configuration_id") {
+        only(
+            detail,
+            &["type", "locations", "credential_configuration_id", "credential_definition"],
+        )?;
+
         // credential_definition is optional
         let claims = if let Some(defn_value) = detail.get("credential_definition") {
             let credential_definition = configuration_definition(defn_value)?;
@@ -148,6 +153,8 @@ fn credential_configuration(detail: &HashMap<String, Value>) -> Result<TokenStre
             }
         })
     } else if let Some(format) = detail.get("format") {
+        only(detail, &["type", "locations", "format", "credential_definition"])?;
+
         // credential_definition is required
         let Some(defn_value) = detail.get("credential_definition") else {
             return Err(Error::new(span, "`credential_definition` is not set"));
@@ -179,6 +186,7 @@ fn configuration_definition(defn_value: &Value) -> Result<TokenStream> {
     let Some(credential_definition) = defn_value.as_object() else {
         return Err(Error::new(span, "`credential_definition` must be an object"));
     };
+    only(credential_definition, &["@context", "type", "credentialSubject"])?;
     let context = credential_definition
         .get("@context")
         .map_or_else(|| quote! {None}, |context| quote! {Some(#context)});
@@ -204,6 +212,7 @@ fn format_definition(defn_value: &Value) -> Result<TokenStream> {
     let Some(credential_definition) = defn_value.as_object() else {
         return Err(Error::new(span, "`credential_definition` must be an object"));
     };
+    only(credential_definition, &["@context", "type", "credentialSubject"])?;
 
     // TODO: only allow @context if format is ldp-vc or jwt_vc_json-ld
     let context = credential_definition
-- 
2.43.0


From 63d91b93cfd23ffa63449e6d7ac2dd9b2c8c482f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:49 +0000
Subject: [PATCH 67/80] fix: convert every name of the response and send types

---
 crates/openid/src/issuer.rs | 2 +-
 crates/openid/src/oauth.rs  | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/openid/src/issuer.rs b/crates/openid/src/issuer.rs
index 2db6830..c61eef6 100644
--- a/crates/openid/src/issuer.rs
+++ b/crates/openid/src/issuer.rs
@@ -143,7 +143,7 @@ impl fmt::Display for SendType {
 impl From<String> for SendType {
     fn from(s: String) -> Self {
         match s.as_str() {
-            "by_ref" => Self::ByRef,
+            "by_ref" | "ByRef" => Self::ByRef,
             _ => Self::ByVal,
         }
     }
diff --git a/crates/openid/src/oauth.rs b/crates/openid/src/oauth.rs
index 0e98896..9af44e5 100644
--- a/crates/openid/src/oauth.rs
+++ b/crates/openid/src/oauth.rs
@@ -318,6 +318,8 @@ impl From<String> for ResponseType {
     fn from(s: String) -> Self {
         match s.as_str() {
             "code" => Self::Code,
+            "vp_token" => Self::VpToken,
+            "id_token vp_token" => Self::IdToken,
             _ => Self::default(),
         }
     }
@@ -327,6 +329,8 @@ impl From<&str> for ResponseType {
     fn from(s: &str) -> Self {
         match s {
             "code" => Self::Code,
+            "vp_token" => Self::VpToken,
+            "id_token vp_token" => Self::IdToken,
             _ => Self::default(),
         }
     }
-- 
2.43.0


From fab535426fa582b502081b8d79492c77700cd766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:49 +0000
Subject: [PATCH 68/80] fix: reject literals that name no response type,
 challenge method or send type

---
 crates/macros/src/authorization.rs |  4 ++++
 crates/macros/src/create_offer.rs  |  3 +++
 crates/macros/src/parse.rs         | 11 +++++++++++
 3 files changed, 18 insertions(+)

diff --git a/crates/macros/src/authorization.rs b/crates/macros/src/authorization.rs
index 5c36804..c44a47e 100644
--- a/crates/macros/src/authorization.rs
+++ b/crates/macros/src/authorization.rs
@@ -10,6 +10,10 @@ pub fn request(input: &Json) -> Result<TokenStream> {
     // we remove fields as we go so we can check for unexpected input
     let mut input = input.clone();
 
+    // unsupported values would otherwise be converted to the default
+    input.one_of("response_type", &["code", "vp_token", "id_token vp_token"])?;
+    input.one_of("code_challenge_method", &["S256"])?;
+
     // required fields — return error if not present
     let credential_issuer = input.expect("credential_issuer")?;
     let response_type = input.expect("response_type")?;
diff --git a/crates/macros/src/create_offer.rs b/crates/macros/src/create_offer.rs
index 007b278..501fb30 100644
--- a/crates/macros/src/create_offer.rs
+++ b/crates/macros/src/create_offer.rs
@@ -12,6 +12,9 @@ pub fn request(input: &Json) -> Result<TokenStream> {
 
     let mut input = input.clone();
 
+    // unsupported values would otherwise be converted to the default
+    input.one_of("send_type", &["by_val", "ByVal", "by_ref", "ByRef"])?;
+
     let credential_issuer = input.expect("credential_issuer")?;
     let subject_id = input.option("subject_id");
 
diff --git a/crates/macros/src/parse.rs b/crates/macros/src/parse.rs
index 68ebe31..9c423d7 100644
--- a/crates/macros/src/parse.rs
+++ b/crates/macros/src/parse.rs
@@ -25,6 +25,17 @@ impl Json {
         Ok(Value::Tokens(quote! {Into::into(#v)}))
     }
 
+    /// Check the value for the key, if it is a string literal, is one of those
+    /// supported.
+    pub fn one_of(&self, key: &str, supported: &[&str]) -> Result<()> {
+        if let Some(s) = self.fields.get(key).and_then(Value::as_str)
+            && !supported.contains(&s)
+        {
+            return Err(Error::new(Span::call_site(), format!("unsupported `{key}`: {s}")));
+        }
+        Ok(())
+    }
+
     /// Either `Some` or `None` depending on whether the key is present.
     pub fn option(&mut self, key: &str) -> Value {
         self.fields.remove(key).map_or_else(
-- 
2.43.0


From c0f358789ed9391c139869ed7bf521a286210977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:24 +0000
Subject: [PATCH 69/80] fix: leave absent parameters out of query strings

---
 crates/core/src/urlencode/ser.rs | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/urlencode/ser.rs b/crates/core/src/urlencode/ser.rs
index 4b07d23..25b1503 100644
--- a/crates/core/src/urlencode/ser.rs
+++ b/crates/core/src/urlencode/ser.rs
@@ -50,6 +50,8 @@ where
     let mut serializer = Serializer {
         output: String::new(),
         level: 0,
+        start: 0,
+        absent: false,
     };
     value.serialize(&mut serializer)?;
 
@@ -69,6 +71,20 @@ where
 pub struct Serializer {
     output: String,
     level: usize,
+    // where the current parameter starts
+    start: usize,
+    // whether the current parameter is absent
+    absent: bool,
+}
+
+impl Serializer {
+    // Removes the current parameter if it is absent: unlike JSON, a query
+    // string cannot tell `null` from the text "null".
+    fn end_parameter(&mut self) {
+        if self.level <= TOP_LEVEL && self.absent {
+            self.output.truncate(self.start);
+        }
+    }
 }
 
 impl ser::Serializer for &mut Serializer {
@@ -176,6 +192,7 @@ impl ser::Serializer for &mut Serializer {
     // In Serde, unit means an anonymous value containing no data. Map this to
     // JSON as `null`.
     fn serialize_unit(self) -> Result<()> {
+        self.absent = self.level <= TOP_LEVEL;
         self.output += "null";
         Ok(())
     }
@@ -436,6 +453,8 @@ impl ser::SerializeMap for &mut Serializer {
     where
         T: ?Sized + Serialize,
     {
+        self.start = self.output.len();
+        self.absent = false;
         if self.level > TOP_LEVEL {
             if !self.output.ends_with('{') {
                 self.output += ",";
@@ -451,7 +470,9 @@ impl ser::SerializeMap for &mut Serializer {
         T: ?Sized + Serialize,
     {
         self.output += if self.level > TOP_LEVEL { ":" } else { "=" };
-        value.serialize(&mut **self)
+        value.serialize(&mut **self)?;
+        self.end_parameter();
+        Ok(())
     }
 
     fn end(self) -> Result<()> {
@@ -471,6 +492,8 @@ impl ser::SerializeStruct for &mut Serializer {
     where
         T: ?Sized + Serialize,
     {
+        self.start = self.output.len();
+        self.absent = false;
         if self.level > TOP_LEVEL {
             if !self.output.ends_with('{') {
                 self.output += ",";
@@ -485,7 +508,9 @@ impl ser::SerializeStruct for &mut Serializer {
         } else {
             self.output += "=";
         }
-        value.serialize(&mut **self)
+        value.serialize(&mut **self)?;
+        self.end_parameter();
+        Ok(())
     }
 
     fn end(self) -> Result<()> {
-- 
2.43.0


From 951ab0c19fb61e4b20fcdaf609dd4b20cdc4c70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:08 +0000
Subject: [PATCH 70/80] fix: the token endpoint grants tokens only for grants
 the client is registered for

---
 vercre-issuer/src/token.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/vercre-issuer/src/token.rs b/vercre-issuer/src/token.rs
index 174f736..1ade5e5 100644
--- a/vercre-issuer/src/token.rs
+++ b/vercre-issuer/src/token.rs
@@ -156,6 +156,16 @@ impl Context {
             let Ok(client) = Metadata::client(provider, client_id).await else {
                 return Err(Error::InvalidClient("invalid `client_id`".into()));
             };
+            // Client must be registered for the grant.
+            let grant_type = match &request.grant_type {
+                TokenGrantType::AuthorizationCode { .. } => GrantType::AuthorizationCode,
+                TokenGrantType::PreAuthorizedCode { .. } => GrantType::PreAuthorizedCode,
+            };
+            if !client.oauth.grant_types.unwrap_or_default().contains(&grant_type) {
+                return Err(Error::UnauthorizedClient(
+                    "`grant_type` not supported for client".into(),
+                ));
+            }
             // Client and server must support the same scopes.
             if let Some(client_scope) = &client.oauth.scope {
                 if let Some(server_scopes) = &server.oauth.scopes_supported {
-- 
2.43.0


From 63ea70278aba7c3898007b0d0281ce717aadd6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:25 +0000
Subject: [PATCH 71/80] fix: key proofs must be signed with an algorithm the
 configuration supports

---
 vercre-issuer/src/credential.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/vercre-issuer/src/credential.rs b/vercre-issuer/src/credential.rs
index ec72b95..910d47d 100644
--- a/vercre-issuer/src/credential.rs
+++ b/vercre-issuer/src/credential.rs
@@ -108,7 +108,7 @@ impl Context {
             }
 
             // TODO: cater for non-JWT proofs - use w3c-vc::decode method
-            let _ = supported_types.get("jwt").ok_or_else(|| {
+            let proof_type = supported_types.get("jwt").ok_or_else(|| {
                 Error::InvalidCredentialRequest("proof type not supported".into())
             })?;
 
@@ -127,7 +127,6 @@ impl Context {
             }
 
             for proof_jwt in proof_jwts {
-                // TODO: check proof is signed with supported algorithm (from proof_type)
                 let jwt: jws::Jwt<ProofClaims> =
                     match jws::decode(proof_jwt, verify_key!(provider)).await {
                         Ok(jwt) => jwt,
@@ -145,6 +144,14 @@ impl Context {
                         .await?);
                 }
 
+                // algorithm
+                let alg = jwt.header.alg.to_string();
+                if !proof_type.proof_signing_alg_values_supported.contains(&alg) {
+                    return Err(self
+                        .invalid_proof(provider, "Proof JWT 'alg' is not supported")
+                        .await?);
+                }
+
                 // proof is intended for this issuer
                 if jwt.claims.aud != self.issuer.credential_issuer {
                     return Err(self
-- 
2.43.0


From 4d0d99a4b5fbacd2f04be0ead5c76fd2bcb39652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:57 +0000
Subject: [PATCH 72/80] fix: a presentation that was accepted is not presented
 again

---
 vercre-holder/src/presentation/present.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vercre-holder/src/presentation/present.rs b/vercre-holder/src/presentation/present.rs
index 821b3c1..3f6c5bb 100644
--- a/vercre-holder/src/presentation/present.rs
+++ b/vercre-holder/src/presentation/present.rs
@@ -13,7 +13,7 @@ use vercre_w3c_vc::model::vp::VerifiablePresentation;
 use vercre_w3c_vc::proof::{self, Payload, W3cFormat};
 
 use super::{Presentation, Status};
-use crate::provider::{HolderProvider, Signer, Verifier};
+use crate::provider::{HolderProvider, Signer, StateStore, Verifier};
 
 /// Creates a presentation submission, signs it and sends it to the verifier.
 /// The `request` parameter is the presentation flow ID of an authorized
@@ -77,6 +77,12 @@ pub async fn present(
             e
         })?;
 
+    // The request has been answered, the authorization is spent.
+    StateStore::purge(&provider, &presentation.id).await.map_err(|e| {
+        tracing::error!(target: "Endpoint::present", ?e);
+        e
+    })?;
+
     Ok(response)
 }
 
-- 
2.43.0


From e8bb9bf92ce51d813a44662f53df3d2b738ebd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:00 +0000
Subject: [PATCH 73/80] fix: a presentation without credentials is not sent

---
 vercre-holder/src/presentation/present.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vercre-holder/src/presentation/present.rs b/vercre-holder/src/presentation/present.rs
index 3f6c5bb..9eb0e8f 100644
--- a/vercre-holder/src/presentation/present.rs
+++ b/vercre-holder/src/presentation/present.rs
@@ -35,6 +35,12 @@ pub async fn present(
         return Err(e);
     }
 
+    if presentation.credentials.is_empty() {
+        let e = anyhow!("no credentials to present");
+        tracing::error!(target: "Endpoint::present", ?e);
+        return Err(e);
+    }
+
     // Construct a presentation submission.
     let submission = create_submission(&presentation).map_err(|e| {
         tracing::error!(target: "Endpoint::present", ?e);
-- 
2.43.0


From 4868e04f3f6768a8ab36975174cf4c9b546947e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:50 +0000
Subject: [PATCH 74/80] fix: authorization details of an offered issuance stay
 within what was accepted

---
 vercre-holder/src/issuance/authorize.rs | 39 +++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/vercre-holder/src/issuance/authorize.rs b/vercre-holder/src/issuance/authorize.rs
index b35a12f..fe76203 100644
--- a/vercre-holder/src/issuance/authorize.rs
+++ b/vercre-holder/src/issuance/authorize.rs
@@ -132,6 +132,12 @@ pub async fn authorize(
                             return Err(e);
                         }
                     };
+                    if let Some(details) = &request.authorization_details {
+                        check_accepted(&issuance, details).map_err(|e| {
+                            tracing::error!(target: "Endpoint::authorize", ?e);
+                            e
+                        })?;
+                    }
                     issuance
                 }
                 Err(e) => {
@@ -223,6 +229,39 @@ pub async fn authorize(
     Ok(response)
 }
 
+/// Check that the credentials asked for are among the ones accepted (that is,
+/// all of the offered ones unless the holder has narrowed the offer).
+fn check_accepted(issuance: &Issuance, details: &[AuthorizationDetail]) -> anyhow::Result<()> {
+    let accepted = match &issuance.accepted {
+        Some(accepted) => accepted
+            .iter()
+            .map(|detail| configuration_id(issuance, detail))
+            .collect::<anyhow::Result<Vec<_>>>()?,
+        None => issuance.offer.credential_configuration_ids.iter().collect(),
+    };
+    for detail in details {
+        if !accepted.contains(&configuration_id(issuance, detail)?) {
+            return Err(anyhow!("authorization details exceed the accepted credentials"));
+        }
+    }
+    Ok(())
+}
+
+/// Credential configuration an authorization detail is about.
+fn configuration_id<'a>(
+    issuance: &'a Issuance, detail: &'a AuthorizationDetail,
+) -> anyhow::Result<&'a String> {
+    match &detail.credential {
+        CredentialAuthorization::ConfigurationId {
+            credential_configuration_id,
+            ..
+        } => Ok(credential_configuration_id),
+        CredentialAuthorization::Format(format) => {
+            issuance.issuer.credential_configuration_id(format)
+        }
+    }
+}
+
 /// Construct an authorization request.
 fn authorization_request(
     issuance: &Issuance, request: &AuthorizeRequest,
-- 
2.43.0


From db40b743c716d684cfc7a850886210fe9f631215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:53 +0000
Subject: [PATCH 75/80] fix: credential identifiers that were not granted are
 refused

---
 vercre-holder/src/issuance/credentials.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/vercre-holder/src/issuance/credentials.rs b/vercre-holder/src/issuance/credentials.rs
index e90f55d..5ce2ddf 100644
--- a/vercre-holder/src/issuance/credentials.rs
+++ b/vercre-holder/src/issuance/credentials.rs
@@ -189,6 +189,13 @@ async fn credential_by_identifier(
         bail!("no authorization details in token response");
     };
 
+    // Only identifiers the token is good for can be asked for.
+    if let Some(ids) = &request.credential_identifiers {
+        if !ids.iter().all(|id| authorized.iter().any(|a| a.credential_identifiers.contains(id))) {
+            bail!("credential identifier is not authorized");
+        }
+    }
+
     for auth in &authorized {
         let cfg_id = match &auth.authorization_detail.credential {
             CredentialAuthorization::ConfigurationId {
-- 
2.43.0


From ff25bb050e35b5b3eb6b47a1ec1b56115ebcabe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:58 +0000
Subject: [PATCH 76/80] fix: only deferred transactions of the flow are
 collected

---
 vercre-holder/src/issuance/deferred.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vercre-holder/src/issuance/deferred.rs b/vercre-holder/src/issuance/deferred.rs
index 275a828..1e732c5 100644
--- a/vercre-holder/src/issuance/deferred.rs
+++ b/vercre-holder/src/issuance/deferred.rs
@@ -48,7 +48,13 @@ pub async fn deferred(
         return Err(e);
     }
 
-    issuance.deferred.remove(&request.transaction_id);
+    if issuance.deferred.remove(&request.transaction_id).as_ref()
+        != Some(&request.credential_configuration_id)
+    {
+        let e = anyhow!("transaction is not a deferred one of this issuance");
+        tracing::error!(target: "Endpoint::deferred", ?e);
+        return Err(e);
+    }
 
     let def_cred_request = DeferredCredentialRequest {
         transaction_id: request.transaction_id.clone(),
-- 
2.43.0


From 14f17b1f7ae6f935130b694160e368b8e2d3a0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:51 +0000
Subject: [PATCH 77/80] fix: leave absent members of presentation responses and
 wallet metadata out of JSON

---
 crates/openid/src/verifier.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/openid/src/verifier.rs b/crates/openid/src/verifier.rs
index acc3bfc..dd142bf 100644
--- a/crates/openid/src/verifier.rs
+++ b/crates/openid/src/verifier.rs
@@ -553,12 +553,14 @@ pub struct ResponseResponse {
     /// ```
     /// If the response does not contain a parameter, the Wallet is not required
     /// to perform any further steps.
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub redirect_uri: Option<String>,
 
     /// A cryptographically random number with sufficient entropy used to link
     /// the Authorization Response to the Authorization Request. The
     /// `response_code` is returned to the Verifier when the Wallet follows
     /// the redirect in the `redirect_uri` parameter.
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub response_code: Option<String>,
 }
 
@@ -654,5 +656,6 @@ pub struct Wallet {
 
     /// A list of key value pairs, where the key identifies a Credential format
     /// supported by the Wallet.
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub vp_formats_supported: Option<HashMap<String, VpFormat>>,
 }
-- 
2.43.0


From dd84ed0ceef660d7e4e5e5b7d3ea763e01846c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:51 +0000
Subject: [PATCH 78/80] fix: leave absent members of terms of use and evidence
 out of JSON

---
 crates/w3c-vc/src/model/vc.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/w3c-vc/src/model/vc.rs b/crates/w3c-vc/src/model/vc.rs
index 0d2ccf1..cd1dafd 100644
--- a/crates/w3c-vc/src/model/vc.rs
+++ b/crates/w3c-vc/src/model/vc.rs
@@ -382,6 +382,7 @@ pub struct Term {
     pub type_: String,
 
     /// A URI where credential policy information can be retrieved.
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub id: Option<String>,
 
     /// The policy content specific to the type.
@@ -408,9 +409,11 @@ pub struct Evidence {
     pub type_: Vec<String>,
 
     /// A human-readable title for the evidence type.
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub name: Option<String>,
 
     /// A human-readable description of the evidence type.
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub description: Option<String>,
 
     /// One or more cryptographic digests, as defined by the `hash-expression`
-- 
2.43.0


From c19ad92654cba6dda6e4e4958d70b6c90bd817a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:22 +0000
Subject: [PATCH 79/80] fix: ignore unknown members of authorization requests

---
 crates/openid/src/issuer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/openid/src/issuer.rs b/crates/openid/src/issuer.rs
index c61eef6..45077f6 100644
--- a/crates/openid/src/issuer.rs
+++ b/crates/openid/src/issuer.rs
@@ -496,7 +496,9 @@ impl<'de> de::Deserialize<'de> for AuthorizationRequest {
 
                         // RequestUri
                         "request_uri" => uri.request_uri = map.next_value::<String>()?,
-                        _ => {}
+                        _ => {
+                            map.next_value::<de::IgnoredAny>()?;
+                        }
                     }
                 }
 
-- 
2.43.0


From 08d9ae865bc927aab2d0c9c766d71b635bddc0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:05 +0000
Subject: [PATCH 80/80] fix: refuse notifications for expired state

---
 vercre-issuer/src/notification.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vercre-issuer/src/notification.rs b/vercre-issuer/src/notification.rs
index f03cacb..7764f7f 100644
--- a/vercre-issuer/src/notification.rs
+++ b/vercre-issuer/src/notification.rs
@@ -48,6 +48,9 @@ async fn process(
     let Ok(state) = StateStore::get::<State>(provider, &request.notification_id).await else {
         return Err(Error::AccessDenied("invalid access token".into()));
     };
+    if state.is_expired() {
+        return Err(Error::InvalidRequest("state expired".into()));
+    }
     let Stage::Issued(credential) = state.stage else {
         return Err(Error::ServerError("issued state not found".into()));
     };
-- 
2.43.0

