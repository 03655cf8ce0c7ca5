From 2f260a1b8b9342d9c8122b0eb4631e38875a6c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:07 +0000
Subject: [PATCH 01/15] fix: SdkError::bad_request() carries the bad-request
 message, not the resource-not-found one

---
 src/generated_schema/2024_11_05/schema_utils.rs | 2 +-
 src/generated_schema/2025_03_26/schema_utils.rs | 2 +-
 src/generated_schema/2025_06_18/schema_utils.rs | 2 +-
 src/generated_schema/2025_11_25/schema_utils.rs | 2 +-
 src/generated_schema/2026_07_28/schema_utils.rs | 2 +-
 src/generated_schema/draft/schema_utils.rs      | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/generated_schema/2024_11_05/schema_utils.rs b/src/generated_schema/2024_11_05/schema_utils.rs
index 0563fd6..a2f7239 100644
--- a/src/generated_schema/2024_11_05/schema_utils.rs
+++ b/src/generated_schema/2024_11_05/schema_utils.rs
@@ -2604,7 +2604,7 @@ impl SdkError {
         Self {
             code: SdkErrorCodes::BAD_REQUEST.into(),
             data: None,
-            message: SdkErrorCodes::RESOURCE_NOT_FOUND.to_string(),
+            message: SdkErrorCodes::BAD_REQUEST.to_string(),
         }
     }
     pub fn with_message(mut self, message: &str) -> Self {
diff --git a/src/generated_schema/2025_03_26/schema_utils.rs b/src/generated_schema/2025_03_26/schema_utils.rs
index 9d7b6de..637f4b4 100644
--- a/src/generated_schema/2025_03_26/schema_utils.rs
+++ b/src/generated_schema/2025_03_26/schema_utils.rs
@@ -2603,7 +2603,7 @@ impl SdkError {
         Self {
             code: SdkErrorCodes::BAD_REQUEST.into(),
             data: None,
-            message: SdkErrorCodes::RESOURCE_NOT_FOUND.to_string(),
+            message: SdkErrorCodes::BAD_REQUEST.to_string(),
         }
     }
     pub fn with_message(mut self, message: &str) -> Self {
diff --git a/src/generated_schema/2025_06_18/schema_utils.rs b/src/generated_schema/2025_06_18/schema_utils.rs
index f265ca4..146b7cf 100644
--- a/src/generated_schema/2025_06_18/schema_utils.rs
+++ b/src/generated_schema/2025_06_18/schema_utils.rs
@@ -2736,7 +2736,7 @@ impl SdkError {
         Self {
             code: SdkErrorCodes::BAD_REQUEST.into(),
             data: None,
-            message: SdkErrorCodes::RESOURCE_NOT_FOUND.to_string(),
+            message: SdkErrorCodes::BAD_REQUEST.to_string(),
         }
     }
     pub fn with_message(mut self, message: &str) -> Self {
diff --git a/src/generated_schema/2025_11_25/schema_utils.rs b/src/generated_schema/2025_11_25/schema_utils.rs
index 120421f..e289a28 100644
--- a/src/generated_schema/2025_11_25/schema_utils.rs
+++ b/src/generated_schema/2025_11_25/schema_utils.rs
@@ -3545,7 +3545,7 @@ impl SdkError {
         Self {
             code: SdkErrorCodes::BAD_REQUEST.into(),
             data: None,
-            message: SdkErrorCodes::RESOURCE_NOT_FOUND.to_string(),
+            message: SdkErrorCodes::BAD_REQUEST.to_string(),
         }
     }
     pub fn with_message(mut self, message: &str) -> Self {
diff --git a/src/generated_schema/2026_07_28/schema_utils.rs b/src/generated_schema/2026_07_28/schema_utils.rs
index 6eb1cfe..b81f639 100644
--- a/src/generated_schema/2026_07_28/schema_utils.rs
+++ b/src/generated_schema/2026_07_28/schema_utils.rs
@@ -2911,7 +2911,7 @@ impl SdkError {
         Self {
             code: SdkErrorCodes::BAD_REQUEST.into(),
             data: None,
-            message: SdkErrorCodes::RESOURCE_NOT_FOUND.to_string(),
+            message: SdkErrorCodes::BAD_REQUEST.to_string(),
         }
     }
     pub fn with_message(mut self, message: &str) -> Self {
diff --git a/src/generated_schema/draft/schema_utils.rs b/src/generated_schema/draft/schema_utils.rs
index 6eb1cfe..b81f639 100644
--- a/src/generated_schema/draft/schema_utils.rs
+++ b/src/generated_schema/draft/schema_utils.rs
@@ -2911,7 +2911,7 @@ impl SdkError {
         Self {
             code: SdkErrorCodes::BAD_REQUEST.into(),
             data: None,
-            message: SdkErrorCodes::RESOURCE_NOT_FOUND.to_string(),
+            message: SdkErrorCodes::BAD_REQUEST.to_string(),
         }
     }
     pub fn with_message(mut self, message: &str) -> Self {
-- 
2.43.0


From 391e27630d8778a89b4aa7b6af24bf66229825a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:05 +0000
Subject: [PATCH 02/15] fix: the hand-written JSON-RPC envelope decoders reject
 a jsonrpc version other than 2.0

---
 .../2024_11_05/schema_utils.rs                | 18 +++++++++++++
 .../2025_03_26/schema_utils.rs                | 18 +++++++++++++
 .../2025_06_18/schema_utils.rs                | 18 +++++++++++++
 .../2025_11_25/schema_utils.rs                |  6 +++++
 .../2026_07_28/schema_utils.rs                | 26 ++++++++++++++++---
 src/generated_schema/draft/schema_utils.rs    | 26 ++++++++++++++++---
 6 files changed, 106 insertions(+), 6 deletions(-)

diff --git a/src/generated_schema/2024_11_05/schema_utils.rs b/src/generated_schema/2024_11_05/schema_utils.rs
index a2f7239..7016865 100644
--- a/src/generated_schema/2024_11_05/schema_utils.rs
+++ b/src/generated_schema/2024_11_05/schema_utils.rs
@@ -1881,6 +1881,9 @@ impl<'de> ::serde::Deserialize<'de> for ClientJsonrpcRequest {
                 }
                 let id = id.ok_or_else(|| de::Error::missing_field("id"))?;
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let method = method.ok_or_else(|| de::Error::missing_field("method"))?;
                 let params = params.unwrap_or_default();
                 let req_object = json!({ "method" : method, "params" : params });
@@ -1963,6 +1966,9 @@ impl<'de> ::serde::Deserialize<'de> for ServerJsonrpcRequest {
                 }
                 let id = id.ok_or_else(|| de::Error::missing_field("id"))?;
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let method = method.ok_or_else(|| de::Error::missing_field("method"))?;
                 let params = params.unwrap_or_default();
                 let req_object = json!({ "method" : method, "params" : params });
@@ -2042,6 +2048,9 @@ impl<'de> ::serde::Deserialize<'de> for ClientJsonrpcNotification {
                     }
                 }
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let method = method.ok_or_else(|| de::Error::missing_field("method"))?;
                 let params = params.unwrap_or_default();
                 let req_object = json!({ "method" : method, "params" : params });
@@ -2128,6 +2137,9 @@ impl<'de> ::serde::Deserialize<'de> for ServerJsonrpcNotification {
                     }
                 }
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let method = method.ok_or_else(|| de::Error::missing_field("method"))?;
                 let params = params.unwrap_or_default();
                 let req_object = json!({ "method" : method, "params" : params });
@@ -2191,6 +2203,9 @@ impl<'de> ::serde::Deserialize<'de> for ServerJsonrpcResponse {
                 }
                 let id = id.ok_or_else(|| de::Error::missing_field("id"))?;
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let result = result.ok_or_else(|| de::Error::missing_field("result"))?;
                 let result = serde_json::from_value::<ResultFromServer>(result).map_err(de::Error::custom)?;
                 Ok(ServerJsonrpcResponse { id, jsonrpc, result })
@@ -2243,6 +2258,9 @@ impl<'de> ::serde::Deserialize<'de> for ClientJsonrpcResponse {
                 }
                 let id = id.ok_or_else(|| de::Error::missing_field("id"))?;
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let result = result.ok_or_else(|| de::Error::missing_field("result"))?;
                 let result = serde_json::from_value::<ResultFromClient>(result).map_err(de::Error::custom)?;
                 Ok(ClientJsonrpcResponse { id, jsonrpc, result })
diff --git a/src/generated_schema/2025_03_26/schema_utils.rs b/src/generated_schema/2025_03_26/schema_utils.rs
index 637f4b4..8b712d8 100644
--- a/src/generated_schema/2025_03_26/schema_utils.rs
+++ b/src/generated_schema/2025_03_26/schema_utils.rs
@@ -1880,6 +1880,9 @@ impl<'de> ::serde::Deserialize<'de> for ClientJsonrpcRequest {
                 }
                 let id = id.ok_or_else(|| de::Error::missing_field("id"))?;
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let method = method.ok_or_else(|| de::Error::missing_field("method"))?;
                 let params = params.unwrap_or_default();
                 let req_object = json!({ "method" : method, "params" : params });
@@ -1962,6 +1965,9 @@ impl<'de> ::serde::Deserialize<'de> for ServerJsonrpcRequest {
                 }
                 let id = id.ok_or_else(|| de::Error::missing_field("id"))?;
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let method = method.ok_or_else(|| de::Error::missing_field("method"))?;
                 let params = params.unwrap_or_default();
                 let req_object = json!({ "method" : method, "params" : params });
@@ -2041,6 +2047,9 @@ impl<'de> ::serde::Deserialize<'de> for ClientJsonrpcNotification {
                     }
                 }
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let method = method.ok_or_else(|| de::Error::missing_field("method"))?;
                 let params = params.unwrap_or_default();
                 let req_object = json!({ "method" : method, "params" : params });
@@ -2127,6 +2136,9 @@ impl<'de> ::serde::Deserialize<'de> for ServerJsonrpcNotification {
                     }
                 }
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let method = method.ok_or_else(|| de::Error::missing_field("method"))?;
                 let params = params.unwrap_or_default();
                 let req_object = json!({ "method" : method, "params" : params });
@@ -2190,6 +2202,9 @@ impl<'de> ::serde::Deserialize<'de> for ServerJsonrpcResponse {
                 }
                 let id = id.ok_or_else(|| de::Error::missing_field("id"))?;
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let result = result.ok_or_else(|| de::Error::missing_field("result"))?;
                 let result = serde_json::from_value::<ResultFromServer>(result).map_err(de::Error::custom)?;
                 Ok(ServerJsonrpcResponse { id, jsonrpc, result })
@@ -2242,6 +2257,9 @@ impl<'de> ::serde::Deserialize<'de> for ClientJsonrpcResponse {
                 }
                 let id = id.ok_or_else(|| de::Error::missing_field("id"))?;
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let result = result.ok_or_else(|| de::Error::missing_field("result"))?;
                 let result = serde_json::from_value::<ResultFromClient>(result).map_err(de::Error::custom)?;
                 Ok(ClientJsonrpcResponse { id, jsonrpc, result })
diff --git a/src/generated_schema/2025_06_18/schema_utils.rs b/src/generated_schema/2025_06_18/schema_utils.rs
index 146b7cf..7eb44d0 100644
--- a/src/generated_schema/2025_06_18/schema_utils.rs
+++ b/src/generated_schema/2025_06_18/schema_utils.rs
@@ -2002,6 +2002,9 @@ impl<'de> ::serde::Deserialize<'de> for ClientJsonrpcRequest {
                 }
                 let id = id.ok_or_else(|| de::Error::missing_field("id"))?;
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let method = method.ok_or_else(|| de::Error::missing_field("method"))?;
                 let params = params.unwrap_or_default();
                 let req_object = json!({ "method" : method, "params" : params });
@@ -2085,6 +2088,9 @@ impl<'de> ::serde::Deserialize<'de> for ServerJsonrpcRequest {
                 }
                 let id = id.ok_or_else(|| de::Error::missing_field("id"))?;
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let method = method.ok_or_else(|| de::Error::missing_field("method"))?;
                 let params = params.unwrap_or_default();
                 let req_object = json!({ "method" : method, "params" : params });
@@ -2164,6 +2170,9 @@ impl<'de> ::serde::Deserialize<'de> for ClientJsonrpcNotification {
                     }
                 }
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let method = method.ok_or_else(|| de::Error::missing_field("method"))?;
                 let params = params.unwrap_or_default();
                 let req_object = json!({ "method" : method, "params" : params });
@@ -2250,6 +2259,9 @@ impl<'de> ::serde::Deserialize<'de> for ServerJsonrpcNotification {
                     }
                 }
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let method = method.ok_or_else(|| de::Error::missing_field("method"))?;
                 let params = params.unwrap_or_default();
                 let req_object = json!({ "method" : method, "params" : params });
@@ -2313,6 +2325,9 @@ impl<'de> ::serde::Deserialize<'de> for ServerJsonrpcResponse {
                 }
                 let id = id.ok_or_else(|| de::Error::missing_field("id"))?;
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let result = result.ok_or_else(|| de::Error::missing_field("result"))?;
                 let result = serde_json::from_value::<ResultFromServer>(result).map_err(de::Error::custom)?;
                 Ok(ServerJsonrpcResponse { id, jsonrpc, result })
@@ -2365,6 +2380,9 @@ impl<'de> ::serde::Deserialize<'de> for ClientJsonrpcResponse {
                 }
                 let id = id.ok_or_else(|| de::Error::missing_field("id"))?;
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let result = result.ok_or_else(|| de::Error::missing_field("result"))?;
                 let result = serde_json::from_value::<ResultFromClient>(result).map_err(de::Error::custom)?;
                 Ok(ClientJsonrpcResponse { id, jsonrpc, result })
diff --git a/src/generated_schema/2025_11_25/schema_utils.rs b/src/generated_schema/2025_11_25/schema_utils.rs
index e289a28..cac25e2 100644
--- a/src/generated_schema/2025_11_25/schema_utils.rs
+++ b/src/generated_schema/2025_11_25/schema_utils.rs
@@ -3112,6 +3112,9 @@ impl<'de> ::serde::Deserialize<'de> for ServerJsonrpcResponse {
                 }
                 let id = id.ok_or_else(|| de::Error::missing_field("id"))?;
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let result = result.ok_or_else(|| de::Error::missing_field("result"))?;
                 let result = serde_json::from_value::<ResultFromServer>(result).map_err(de::Error::custom)?;
                 Ok(ServerJsonrpcResponse { id, jsonrpc, result })
@@ -3164,6 +3167,9 @@ impl<'de> ::serde::Deserialize<'de> for ClientJsonrpcResponse {
                 }
                 let id = id.ok_or_else(|| de::Error::missing_field("id"))?;
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let result = result.ok_or_else(|| de::Error::missing_field("result"))?;
                 let result = serde_json::from_value::<ResultFromClient>(result).map_err(de::Error::custom)?;
                 Ok(ClientJsonrpcResponse { id, jsonrpc, result })
diff --git a/src/generated_schema/2026_07_28/schema_utils.rs b/src/generated_schema/2026_07_28/schema_utils.rs
index b81f639..ace3ad8 100644
--- a/src/generated_schema/2026_07_28/schema_utils.rs
+++ b/src/generated_schema/2026_07_28/schema_utils.rs
@@ -10,6 +10,20 @@ fn default_jsonrpc() -> String {
     "2.0".to_string()
 }
 
+fn validate_jsonrpc<'de, D>(deserializer: D) -> result::Result<String, D::Error>
+where
+    D: ::serde::de::Deserializer<'de>,
+{
+    let jsonrpc: String = ::serde::Deserialize::deserialize(deserializer)?;
+    if jsonrpc != JSONRPC_VERSION {
+        return Err(::serde::de::Error::invalid_value(
+            ::serde::de::Unexpected::Str(&jsonrpc),
+            &JSONRPC_VERSION,
+        ));
+    }
+    Ok(jsonrpc)
+}
+
 #[derive(Debug, PartialEq)]
 pub enum MessageTypes {
     Request,
@@ -1050,21 +1064,21 @@ impl Display for ServerMessage {
 pub enum ServerJsonrpcRequest {
     CreateMessageRequest {
         id: RequestId,
-        #[serde(default = "default_jsonrpc")]
+        #[serde(default = "default_jsonrpc", deserialize_with = "validate_jsonrpc")]
         jsonrpc: String,
         #[serde(flatten)]
         request: CreateMessageRequest,
     },
     ListRootsRequest {
         id: RequestId,
-        #[serde(default = "default_jsonrpc")]
+        #[serde(default = "default_jsonrpc", deserialize_with = "validate_jsonrpc")]
         jsonrpc: String,
         #[serde(flatten)]
         request: ListRootsRequest,
     },
     ElicitRequest {
         id: RequestId,
-        #[serde(default = "default_jsonrpc")]
+        #[serde(default = "default_jsonrpc", deserialize_with = "validate_jsonrpc")]
         jsonrpc: String,
         #[serde(flatten)]
         request: ElicitRequest,
@@ -3468,6 +3482,9 @@ impl<'de> ::serde::Deserialize<'de> for ClientJsonrpcResponse {
                 }
                 let id = id.ok_or_else(|| de::Error::missing_field("id"))?;
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let result = result.ok_or_else(|| de::Error::missing_field("result"))?;
                 let result = serde_json::from_value::<ResultFromClient>(result).map_err(de::Error::custom)?;
                 Ok(ClientJsonrpcResponse { id, jsonrpc, result })
@@ -3520,6 +3537,9 @@ impl<'de> ::serde::Deserialize<'de> for ServerJsonrpcResponse {
                 }
                 let id = id.ok_or_else(|| de::Error::missing_field("id"))?;
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let result = result.ok_or_else(|| de::Error::missing_field("result"))?;
                 let result = serde_json::from_value::<ServerResult>(result).map_err(de::Error::custom)?;
                 Ok(ServerJsonrpcResponse { id, jsonrpc, result })
diff --git a/src/generated_schema/draft/schema_utils.rs b/src/generated_schema/draft/schema_utils.rs
index b81f639..ace3ad8 100644
--- a/src/generated_schema/draft/schema_utils.rs
+++ b/src/generated_schema/draft/schema_utils.rs
@@ -10,6 +10,20 @@ fn default_jsonrpc() -> String {
     "2.0".to_string()
 }
 
+fn validate_jsonrpc<'de, D>(deserializer: D) -> result::Result<String, D::Error>
+where
+    D: ::serde::de::Deserializer<'de>,
+{
+    let jsonrpc: String = ::serde::Deserialize::deserialize(deserializer)?;
+    if jsonrpc != JSONRPC_VERSION {
+        return Err(::serde::de::Error::invalid_value(
+            ::serde::de::Unexpected::Str(&jsonrpc),
+            &JSONRPC_VERSION,
+        ));
+    }
+    Ok(jsonrpc)
+}
+
 #[derive(Debug, PartialEq)]
 pub enum MessageTypes {
     Request,
@@ -1050,21 +1064,21 @@ impl Display for ServerMessage {
 pub enum ServerJsonrpcRequest {
     CreateMessageRequest {
         id: RequestId,
-        #[serde(default = "default_jsonrpc")]
+        #[serde(default = "default_jsonrpc", deserialize_with = "validate_jsonrpc")]
         jsonrpc: String,
         #[serde(flatten)]
         request: CreateMessageRequest,
     },
     ListRootsRequest {
         id: RequestId,
-        #[serde(default = "default_jsonrpc")]
+        #[serde(default = "default_jsonrpc", deserialize_with = "validate_jsonrpc")]
         jsonrpc: String,
         #[serde(flatten)]
         request: ListRootsRequest,
     },
     ElicitRequest {
         id: RequestId,
-        #[serde(default = "default_jsonrpc")]
+        #[serde(default = "default_jsonrpc", deserialize_with = "validate_jsonrpc")]
         jsonrpc: String,
         #[serde(flatten)]
         request: ElicitRequest,
@@ -3468,6 +3482,9 @@ impl<'de> ::serde::Deserialize<'de> for ClientJsonrpcResponse {
                 }
                 let id = id.ok_or_else(|| de::Error::missing_field("id"))?;
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let result = result.ok_or_else(|| de::Error::missing_field("result"))?;
                 let result = serde_json::from_value::<ResultFromClient>(result).map_err(de::Error::custom)?;
                 Ok(ClientJsonrpcResponse { id, jsonrpc, result })
@@ -3520,6 +3537,9 @@ impl<'de> ::serde::Deserialize<'de> for ServerJsonrpcResponse {
                 }
                 let id = id.ok_or_else(|| de::Error::missing_field("id"))?;
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let result = result.ok_or_else(|| de::Error::missing_field("result"))?;
                 let result = serde_json::from_value::<ServerResult>(result).map_err(de::Error::custom)?;
                 Ok(ServerJsonrpcResponse { id, jsonrpc, result })
-- 
2.43.0


From a88a7208997ab0012c9e7f83a1784d86ff576378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:05 +0000
Subject: [PATCH 03/15] fix: resources/list without params is serialized
 without a "params" member, not with null (2024-11-05, 2025-03-26, 2025-06-18)

---
 src/generated_schema/2024_11_05/schema_utils.rs | 6 +++++-
 src/generated_schema/2025_03_26/schema_utils.rs | 6 +++++-
 src/generated_schema/2025_06_18/schema_utils.rs | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/generated_schema/2024_11_05/schema_utils.rs b/src/generated_schema/2024_11_05/schema_utils.rs
index 7016865..7435f8b 100644
--- a/src/generated_schema/2024_11_05/schema_utils.rs
+++ b/src/generated_schema/2024_11_05/schema_utils.rs
@@ -1818,7 +1818,11 @@ impl ::serde::Serialize for ClientJsonrpcRequest {
                         state.serialize_field("params", params)?
                     }
                 }
-                ListResourcesRequest(msg) => state.serialize_field("params", &msg.params)?,
+                ListResourcesRequest(msg) => {
+                    if let Some(params) = &msg.params {
+                        state.serialize_field("params", params)?
+                    }
+                }
                 ListResourceTemplatesRequest(msg) => {
                     if let Some(params) = &msg.params {
                         state.serialize_field("params", params)?
diff --git a/src/generated_schema/2025_03_26/schema_utils.rs b/src/generated_schema/2025_03_26/schema_utils.rs
index 8b712d8..82bf866 100644
--- a/src/generated_schema/2025_03_26/schema_utils.rs
+++ b/src/generated_schema/2025_03_26/schema_utils.rs
@@ -1817,7 +1817,11 @@ impl ::serde::Serialize for ClientJsonrpcRequest {
                         state.serialize_field("params", params)?
                     }
                 }
-                ListResourcesRequest(msg) => state.serialize_field("params", &msg.params)?,
+                ListResourcesRequest(msg) => {
+                    if let Some(params) = &msg.params {
+                        state.serialize_field("params", params)?
+                    }
+                }
                 ListResourceTemplatesRequest(msg) => {
                     if let Some(params) = &msg.params {
                         state.serialize_field("params", params)?
diff --git a/src/generated_schema/2025_06_18/schema_utils.rs b/src/generated_schema/2025_06_18/schema_utils.rs
index 7eb44d0..04fab76 100644
--- a/src/generated_schema/2025_06_18/schema_utils.rs
+++ b/src/generated_schema/2025_06_18/schema_utils.rs
@@ -1939,7 +1939,11 @@ impl ::serde::Serialize for ClientJsonrpcRequest {
                         state.serialize_field("params", params)?
                     }
                 }
-                ListResourcesRequest(msg) => state.serialize_field("params", &msg.params)?,
+                ListResourcesRequest(msg) => {
+                    if let Some(params) = &msg.params {
+                        state.serialize_field("params", params)?
+                    }
+                }
                 ListResourceTemplatesRequest(msg) => {
                     if let Some(params) = &msg.params {
                         state.serialize_field("params", params)?
-- 
2.43.0


From e6e1a348151cbc4d08ef911dfc5bee526226aaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:39 +0000
Subject: [PATCH 04/15] fix: an unsupported elicitation property type is
 reported as an error instead of a panic (2025-06-18)

---
 src/generated_schema/2025_06_18/schema_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generated_schema/2025_06_18/schema_utils.rs b/src/generated_schema/2025_06_18/schema_utils.rs
index 04fab76..88f905b 100644
--- a/src/generated_schema/2025_06_18/schema_utils.rs
+++ b/src/generated_schema/2025_06_18/schema_utils.rs
@@ -1907,7 +1907,7 @@ impl TryFrom<&serde_json::Map<String, Value>> for PrimitiveSchemaDefinition {
                 PrimitiveSchemaDefinition::EnumSchema(EnumSchema::new(enum_values, enum_names, description, title))
             }
             other => {
-                panic!("'{other}' type is not currently supported");
+                return Err(RpcError::parse_error().with_message(format!("'{other}' type is not currently supported")));
             }
         };
 
-- 
2.43.0


From 2f0838cbbff19401e8aa4f981c71f7bb0975f457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:40 +0000
Subject: [PATCH 05/15] fix: decoding a PrimitiveSchemaDefinition keeps the
 choices of an enum schema instead of reading it as a plain string schema

---
 src/generated_schema/2025_06_18/mcp_schema.rs | 2 +-
 src/generated_schema/2025_11_25/mcp_schema.rs | 6 +++---
 src/generated_schema/2026_07_28/mcp_schema.rs | 6 +++---
 src/generated_schema/draft/mcp_schema.rs      | 6 +++---
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/generated_schema/2025_06_18/mcp_schema.rs b/src/generated_schema/2025_06_18/mcp_schema.rs
index 1f2431a..130c310 100644
--- a/src/generated_schema/2025_06_18/mcp_schema.rs
+++ b/src/generated_schema/2025_06_18/mcp_schema.rs
@@ -4271,10 +4271,10 @@ without nested objects or arrays.*/
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum PrimitiveSchemaDefinition {
+    EnumSchema(EnumSchema),
     StringSchema(StringSchema),
     NumberSchema(NumberSchema),
     BooleanSchema(BooleanSchema),
-    EnumSchema(EnumSchema),
 }
 impl ::std::convert::From<StringSchema> for PrimitiveSchemaDefinition {
     fn from(value: StringSchema) -> Self {
diff --git a/src/generated_schema/2025_11_25/mcp_schema.rs b/src/generated_schema/2025_11_25/mcp_schema.rs
index 05e85d6..3b7a9a8 100644
--- a/src/generated_schema/2025_11_25/mcp_schema.rs
+++ b/src/generated_schema/2025_11_25/mcp_schema.rs
@@ -5902,14 +5902,14 @@ without nested objects or arrays.*/
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum PrimitiveSchemaDefinition {
-    StringSchema(StringSchema),
-    NumberSchema(NumberSchema),
-    BooleanSchema(BooleanSchema),
     UntitledSingleSelectEnumSchema(UntitledSingleSelectEnumSchema),
     TitledSingleSelectEnumSchema(TitledSingleSelectEnumSchema),
     UntitledMultiSelectEnumSchema(UntitledMultiSelectEnumSchema),
     TitledMultiSelectEnumSchema(TitledMultiSelectEnumSchema),
     LegacyTitledEnumSchema(LegacyTitledEnumSchema),
+    StringSchema(StringSchema),
+    NumberSchema(NumberSchema),
+    BooleanSchema(BooleanSchema),
 }
 impl ::std::convert::From<StringSchema> for PrimitiveSchemaDefinition {
     fn from(value: StringSchema) -> Self {
diff --git a/src/generated_schema/2026_07_28/mcp_schema.rs b/src/generated_schema/2026_07_28/mcp_schema.rs
index b2b0748..d35764a 100644
--- a/src/generated_schema/2026_07_28/mcp_schema.rs
+++ b/src/generated_schema/2026_07_28/mcp_schema.rs
@@ -6178,14 +6178,14 @@ without nested objects or arrays.*/
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum PrimitiveSchemaDefinition {
-    StringSchema(StringSchema),
-    NumberSchema(NumberSchema),
-    BooleanSchema(BooleanSchema),
     UntitledSingleSelectEnumSchema(UntitledSingleSelectEnumSchema),
     TitledSingleSelectEnumSchema(TitledSingleSelectEnumSchema),
     UntitledMultiSelectEnumSchema(UntitledMultiSelectEnumSchema),
     TitledMultiSelectEnumSchema(TitledMultiSelectEnumSchema),
     LegacyTitledEnumSchema(LegacyTitledEnumSchema),
+    StringSchema(StringSchema),
+    NumberSchema(NumberSchema),
+    BooleanSchema(BooleanSchema),
 }
 impl ::std::convert::From<StringSchema> for PrimitiveSchemaDefinition {
     fn from(value: StringSchema) -> Self {
diff --git a/src/generated_schema/draft/mcp_schema.rs b/src/generated_schema/draft/mcp_schema.rs
index 3db865d..2a91826 100644
--- a/src/generated_schema/draft/mcp_schema.rs
+++ b/src/generated_schema/draft/mcp_schema.rs
@@ -6178,14 +6178,14 @@ without nested objects or arrays.*/
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum PrimitiveSchemaDefinition {
-    StringSchema(StringSchema),
-    NumberSchema(NumberSchema),
-    BooleanSchema(BooleanSchema),
     UntitledSingleSelectEnumSchema(UntitledSingleSelectEnumSchema),
     TitledSingleSelectEnumSchema(TitledSingleSelectEnumSchema),
     UntitledMultiSelectEnumSchema(UntitledMultiSelectEnumSchema),
     TitledMultiSelectEnumSchema(TitledMultiSelectEnumSchema),
     LegacyTitledEnumSchema(LegacyTitledEnumSchema),
+    StringSchema(StringSchema),
+    NumberSchema(NumberSchema),
+    BooleanSchema(BooleanSchema),
 }
 impl ::std::convert::From<StringSchema> for PrimitiveSchemaDefinition {
     fn from(value: StringSchema) -> Self {
-- 
2.43.0


From f97878d08da160d945c9ab4f7d777bff71deaa8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:21 +0000
Subject: [PATCH 06/15] fix: several schema versions can be enabled at once
 (each has its own validators module)

---
 src/generated_schema.rs                       | 23 ++++++++++++-------
 src/generated_schema/2024_11_05/mcp_schema.rs |  2 +-
 src/generated_schema/2025_03_26/mcp_schema.rs |  2 +-
 src/generated_schema/2025_06_18/mcp_schema.rs |  2 +-
 src/generated_schema/2025_11_25/mcp_schema.rs |  2 +-
 src/generated_schema/2026_07_28/mcp_schema.rs |  2 +-
 src/generated_schema/draft/mcp_schema.rs      |  2 +-
 7 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/generated_schema.rs b/src/generated_schema.rs
index 9527ff3..921bfcb 100644
--- a/src/generated_schema.rs
+++ b/src/generated_schema.rs
@@ -6,7 +6,8 @@ macro_rules! define_schema_version {
         $utils_path:literal,
         $validators_path:literal,
         $schema_mod:ident,
-        $utils_mod:ident
+        $utils_mod:ident,
+        $validators_mod:ident
     ) => {
         #[cfg(feature = $feature)]
         #[path = $schema_path]
@@ -20,7 +21,7 @@ macro_rules! define_schema_version {
         mod $utils_mod;
 
         #[path = $validators_path]
-        mod validators;
+        mod $validators_mod;
 
         #[cfg(feature = $feature)]
         pub mod $mod_name {
@@ -54,7 +55,8 @@ define_schema_version!(
     "generated_schema/2025_06_18/schema_utils.rs",
     "generated_schema/2025_06_18/validators.rs",
     __int_2025_06_18,
-    __int_utils_2025_06_18
+    __int_utils_2025_06_18,
+    __int_validators_2025_06_18
 );
 
 #[cfg(feature = "2025_03_26")]
@@ -65,7 +67,8 @@ define_schema_version!(
     "generated_schema/2025_03_26/schema_utils.rs",
     "generated_schema/2025_03_26/validators.rs",
     __int_2025_03_26,
-    __int_utils_2025_03_26
+    __int_utils_2025_03_26,
+    __int_validators_2025_03_26
 );
 
 #[cfg(feature = "2024_11_05")]
@@ -76,7 +79,8 @@ define_schema_version!(
     "generated_schema/2024_11_05/schema_utils.rs",
     "generated_schema/2024_11_05/validators.rs",
     __int_2024_11_05,
-    __int_utils_2024_11_05
+    __int_utils_2024_11_05,
+    __int_validators_2024_11_05
 );
 
 #[cfg(feature = "2025_11_25")]
@@ -87,7 +91,8 @@ define_schema_version!(
     "generated_schema/2025_11_25/schema_utils.rs",
     "generated_schema/2025_11_25/validators.rs",
     __int_2025_11_25,
-    __int_utils_2025_11_25
+    __int_utils_2025_11_25,
+    __int_validators_2025_11_25
 );
 
 #[cfg(feature = "2026_07_28")]
@@ -98,7 +103,8 @@ define_schema_version!(
     "generated_schema/2026_07_28/schema_utils.rs",
     "generated_schema/2026_07_28/validators.rs",
     __int_2026_07_28,
-    __int_utils_2026_07_28
+    __int_utils_2026_07_28,
+    __int_validators_2026_07_28
 );
 
 #[cfg(feature = "draft")]
@@ -109,7 +115,8 @@ define_schema_version!(
     "generated_schema/draft/schema_utils.rs",
     "generated_schema/draft/validators.rs",
     __int_draft,
-    __int_utils_draft
+    __int_utils_draft,
+    __int_validators_draft
 );
 
 #[path = "generated_schema/protocol_version.rs"]
diff --git a/src/generated_schema/2024_11_05/mcp_schema.rs b/src/generated_schema/2024_11_05/mcp_schema.rs
index 9a33233..f3e934c 100644
--- a/src/generated_schema/2024_11_05/mcp_schema.rs
+++ b/src/generated_schema/2024_11_05/mcp_schema.rs
@@ -11,7 +11,7 @@
 /// Generated at : 2026-08-21 20:10:04
 /// ----------------------------------------------------------------------------
 ///
-use super::validators as validate;
+use super::__int_validators_2024_11_05 as validate;
 /// MCP Protocol Version
 pub const LATEST_PROTOCOL_VERSION: &str = "2024-11-05";
 /// JSON-RPC Version
diff --git a/src/generated_schema/2025_03_26/mcp_schema.rs b/src/generated_schema/2025_03_26/mcp_schema.rs
index 2f4b5aa..f6ad1d0 100644
--- a/src/generated_schema/2025_03_26/mcp_schema.rs
+++ b/src/generated_schema/2025_03_26/mcp_schema.rs
@@ -11,7 +11,7 @@
 /// Generated at : 2026-08-21 20:10:18
 /// ----------------------------------------------------------------------------
 ///
-use super::validators as validate;
+use super::__int_validators_2025_03_26 as validate;
 /// MCP Protocol Version
 pub const LATEST_PROTOCOL_VERSION: &str = "2025-03-26";
 /// JSON-RPC Version
diff --git a/src/generated_schema/2025_06_18/mcp_schema.rs b/src/generated_schema/2025_06_18/mcp_schema.rs
index 130c310..4908e45 100644
--- a/src/generated_schema/2025_06_18/mcp_schema.rs
+++ b/src/generated_schema/2025_06_18/mcp_schema.rs
@@ -11,7 +11,7 @@
 /// Generated at : 2026-08-21 20:10:19
 /// ----------------------------------------------------------------------------
 ///
-use super::validators as validate;
+use super::__int_validators_2025_06_18 as validate;
 /// MCP Protocol Version
 pub const LATEST_PROTOCOL_VERSION: &str = "2025-06-18";
 /// JSON-RPC Version
diff --git a/src/generated_schema/2025_11_25/mcp_schema.rs b/src/generated_schema/2025_11_25/mcp_schema.rs
index 3b7a9a8..d792a03 100644
--- a/src/generated_schema/2025_11_25/mcp_schema.rs
+++ b/src/generated_schema/2025_11_25/mcp_schema.rs
@@ -11,7 +11,7 @@
 /// Generated at : 2026-08-21 20:10:21
 /// ----------------------------------------------------------------------------
 ///
-use super::validators as validate;
+use super::__int_validators_2025_11_25 as validate;
 /// MCP Protocol Version
 pub const LATEST_PROTOCOL_VERSION: &str = "2025-11-25";
 /// JSON-RPC Version
diff --git a/src/generated_schema/2026_07_28/mcp_schema.rs b/src/generated_schema/2026_07_28/mcp_schema.rs
index d35764a..f4fd746 100644
--- a/src/generated_schema/2026_07_28/mcp_schema.rs
+++ b/src/generated_schema/2026_07_28/mcp_schema.rs
@@ -11,7 +11,7 @@
 /// Generated at : 2026-08-21 20:10:23
 /// ----------------------------------------------------------------------------
 ///
-use super::validators as validate;
+use super::__int_validators_2026_07_28 as validate;
 /// MCP Protocol Version
 pub const LATEST_PROTOCOL_VERSION: &str = "2026-07-28";
 /// JSON-RPC Version
diff --git a/src/generated_schema/draft/mcp_schema.rs b/src/generated_schema/draft/mcp_schema.rs
index 2a91826..3db559b 100644
--- a/src/generated_schema/draft/mcp_schema.rs
+++ b/src/generated_schema/draft/mcp_schema.rs
@@ -11,7 +11,7 @@
 /// Generated at : 2026-08-21 20:10:25
 /// ----------------------------------------------------------------------------
 ///
-use super::validators as validate;
+use super::__int_validators_draft as validate;
 /// MCP Protocol Version
 pub const LATEST_PROTOCOL_VERSION: &str = "2026-07-28";
 /// JSON-RPC Version
-- 
2.43.0


From 0a5930fd9afc5adafb5944403348e1131b042f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:01 +0000
Subject: [PATCH 07/15] fix: a message that carries an id is never classified
 as a notification

---
 src/generated_schema/2025_11_25/schema_utils.rs | 16 ++++++++++++++++
 src/generated_schema/2026_07_28/schema_utils.rs | 16 ++++++++++++++++
 src/generated_schema/draft/schema_utils.rs      | 16 ++++++++++++++++
 3 files changed, 48 insertions(+)

diff --git a/src/generated_schema/2025_11_25/schema_utils.rs b/src/generated_schema/2025_11_25/schema_utils.rs
index cac25e2..7ef3bd7 100644
--- a/src/generated_schema/2025_11_25/schema_utils.rs
+++ b/src/generated_schema/2025_11_25/schema_utils.rs
@@ -7,6 +7,20 @@ use std::{fmt::Display, str::FromStr};
 
 pub const RELATED_TASK_META_KEY: &str = "io.modelcontextprotocol/related-task";
 
+// A notification never carries an `id` member; a message that does, with an id that is not a valid
+// RequestId, is an invalid request and not a notification.
+fn deserialize_without_id<'de, D, T>(deserializer: D) -> result::Result<T, D::Error>
+where
+    D: ::serde::de::Deserializer<'de>,
+    T: ::serde::de::DeserializeOwned,
+{
+    let value: Value = ::serde::Deserialize::deserialize(deserializer)?;
+    if value.get("id").is_some() {
+        return Err(::serde::de::Error::custom("a notification must not have an id"));
+    }
+    T::deserialize(value).map_err(::serde::de::Error::custom)
+}
+
 #[derive(Debug, PartialEq)]
 pub enum MessageTypes {
     Request,
@@ -152,6 +166,7 @@ impl core::fmt::Display for RequestId {
 #[serde(untagged)]
 pub enum ClientMessage {
     Request(ClientJsonrpcRequest),
+    #[serde(deserialize_with = "deserialize_without_id")]
     Notification(ClientJsonrpcNotification),
     Response(ClientJsonrpcResponse),
     Error(JsonrpcErrorResponse),
@@ -942,6 +957,7 @@ impl Display for ClientMessage {
 #[serde(untagged)]
 pub enum ServerMessage {
     Request(ServerJsonrpcRequest),
+    #[serde(deserialize_with = "deserialize_without_id")]
     Notification(ServerJsonrpcNotification),
     Response(ServerJsonrpcResponse),
     Error(JsonrpcErrorResponse),
diff --git a/src/generated_schema/2026_07_28/schema_utils.rs b/src/generated_schema/2026_07_28/schema_utils.rs
index ace3ad8..a4c9619 100644
--- a/src/generated_schema/2026_07_28/schema_utils.rs
+++ b/src/generated_schema/2026_07_28/schema_utils.rs
@@ -24,6 +24,20 @@ where
     Ok(jsonrpc)
 }
 
+// A notification never carries an `id` member; a message that does, with an id that is not a valid
+// RequestId, is an invalid request and not a notification.
+fn deserialize_without_id<'de, D, T>(deserializer: D) -> result::Result<T, D::Error>
+where
+    D: ::serde::de::Deserializer<'de>,
+    T: ::serde::de::DeserializeOwned,
+{
+    let value: Value = ::serde::Deserialize::deserialize(deserializer)?;
+    if value.get("id").is_some() {
+        return Err(::serde::de::Error::custom("a notification must not have an id"));
+    }
+    T::deserialize(value).map_err(::serde::de::Error::custom)
+}
+
 #[derive(Debug, PartialEq)]
 pub enum MessageTypes {
     Request,
@@ -168,6 +182,7 @@ impl core::fmt::Display for RequestId {
 #[serde(untagged)]
 pub enum ClientMessage {
     Request(ClientJsonrpcRequest),
+    #[serde(deserialize_with = "deserialize_without_id")]
     Notification(ClientJsonrpcNotification),
     Response(ClientJsonrpcResponse),
     Error(JsonrpcErrorResponse),
@@ -855,6 +870,7 @@ impl Display for ClientMessage {
 #[serde(untagged)]
 pub enum ServerMessage {
     Request(ServerJsonrpcRequest),
+    #[serde(deserialize_with = "deserialize_without_id")]
     Notification(ServerJsonrpcNotification),
     Response(ServerJsonrpcResponse),
     Error(JsonrpcErrorResponse),
diff --git a/src/generated_schema/draft/schema_utils.rs b/src/generated_schema/draft/schema_utils.rs
index ace3ad8..a4c9619 100644
--- a/src/generated_schema/draft/schema_utils.rs
+++ b/src/generated_schema/draft/schema_utils.rs
@@ -24,6 +24,20 @@ where
     Ok(jsonrpc)
 }
 
+// A notification never carries an `id` member; a message that does, with an id that is not a valid
+// RequestId, is an invalid request and not a notification.
+fn deserialize_without_id<'de, D, T>(deserializer: D) -> result::Result<T, D::Error>
+where
+    D: ::serde::de::Deserializer<'de>,
+    T: ::serde::de::DeserializeOwned,
+{
+    let value: Value = ::serde::Deserialize::deserialize(deserializer)?;
+    if value.get("id").is_some() {
+        return Err(::serde::de::Error::custom("a notification must not have an id"));
+    }
+    T::deserialize(value).map_err(::serde::de::Error::custom)
+}
+
 #[derive(Debug, PartialEq)]
 pub enum MessageTypes {
     Request,
@@ -168,6 +182,7 @@ impl core::fmt::Display for RequestId {
 #[serde(untagged)]
 pub enum ClientMessage {
     Request(ClientJsonrpcRequest),
+    #[serde(deserialize_with = "deserialize_without_id")]
     Notification(ClientJsonrpcNotification),
     Response(ClientJsonrpcResponse),
     Error(JsonrpcErrorResponse),
@@ -855,6 +870,7 @@ impl Display for ClientMessage {
 #[serde(untagged)]
 pub enum ServerMessage {
     Request(ServerJsonrpcRequest),
+    #[serde(deserialize_with = "deserialize_without_id")]
     Notification(ServerJsonrpcNotification),
     Response(ServerJsonrpcResponse),
     Error(JsonrpcErrorResponse),
-- 
2.43.0


From 74125279e416834e3977d641d80a2543553a04d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:48 +0000
Subject: [PATCH 08/15] fix: a completed tool, prompt or resource response is
 not read as an input-required result that loses its payload (2026-07-28,
 draft)

---
 src/generated_schema/2026_07_28/mcp_schema.rs | 6 +++---
 src/generated_schema/draft/mcp_schema.rs      | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/generated_schema/2026_07_28/mcp_schema.rs b/src/generated_schema/2026_07_28/mcp_schema.rs
index f4fd746..a0a75aa 100644
--- a/src/generated_schema/2026_07_28/mcp_schema.rs
+++ b/src/generated_schema/2026_07_28/mcp_schema.rs
@@ -673,8 +673,8 @@ impl CallToolResultResponse {
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum CallToolResultResponseResult {
-    InputRequiredResult(InputRequiredResult),
     CallToolResult(CallToolResult),
+    InputRequiredResult(InputRequiredResult),
 }
 impl ::std::convert::From<InputRequiredResult> for CallToolResultResponseResult {
     fn from(value: InputRequiredResult) -> Self {
@@ -3021,8 +3021,8 @@ impl GetPromptResultResponse {
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum GetPromptResultResponseResult {
-    InputRequiredResult(InputRequiredResult),
     GetPromptResult(GetPromptResult),
+    InputRequiredResult(InputRequiredResult),
 }
 impl ::std::convert::From<InputRequiredResult> for GetPromptResultResponseResult {
     fn from(value: InputRequiredResult) -> Self {
@@ -6978,8 +6978,8 @@ impl ReadResourceResultResponse {
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum ReadResourceResultResponseResult {
-    InputRequiredResult(InputRequiredResult),
     ReadResourceResult(ReadResourceResult),
+    InputRequiredResult(InputRequiredResult),
 }
 impl ::std::convert::From<InputRequiredResult> for ReadResourceResultResponseResult {
     fn from(value: InputRequiredResult) -> Self {
diff --git a/src/generated_schema/draft/mcp_schema.rs b/src/generated_schema/draft/mcp_schema.rs
index 3db559b..7d1766c 100644
--- a/src/generated_schema/draft/mcp_schema.rs
+++ b/src/generated_schema/draft/mcp_schema.rs
@@ -673,8 +673,8 @@ impl CallToolResultResponse {
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum CallToolResultResponseResult {
-    InputRequiredResult(InputRequiredResult),
     CallToolResult(CallToolResult),
+    InputRequiredResult(InputRequiredResult),
 }
 impl ::std::convert::From<InputRequiredResult> for CallToolResultResponseResult {
     fn from(value: InputRequiredResult) -> Self {
@@ -3021,8 +3021,8 @@ impl GetPromptResultResponse {
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum GetPromptResultResponseResult {
-    InputRequiredResult(InputRequiredResult),
     GetPromptResult(GetPromptResult),
+    InputRequiredResult(InputRequiredResult),
 }
 impl ::std::convert::From<InputRequiredResult> for GetPromptResultResponseResult {
     fn from(value: InputRequiredResult) -> Self {
@@ -6978,8 +6978,8 @@ impl ReadResourceResultResponse {
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum ReadResourceResultResponseResult {
-    InputRequiredResult(InputRequiredResult),
     ReadResourceResult(ReadResourceResult),
+    InputRequiredResult(InputRequiredResult),
 }
 impl ::std::convert::From<InputRequiredResult> for ReadResourceResultResponseResult {
     fn from(value: InputRequiredResult) -> Self {
-- 
2.43.0


From 3c5cc6a869cb7fadb318600d53a4bd8afb46d27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:00 +0000
Subject: [PATCH 09/15] fix: an explicit null ttl of a task survives decoding
 and re-encoding (2025-11-25)

---
 src/generated_schema/2025_11_25/mcp_schema.rs | 12 ++++++++++--
 src/generated_schema/2025_11_25/validators.rs | 12 ++++++++++++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/generated_schema/2025_11_25/mcp_schema.rs b/src/generated_schema/2025_11_25/mcp_schema.rs
index d792a03..f1b0dd4 100644
--- a/src/generated_schema/2025_11_25/mcp_schema.rs
+++ b/src/generated_schema/2025_11_25/mcp_schema.rs
@@ -8867,7 +8867,11 @@ pub struct Task {
     #[serde(rename = "taskId")]
     pub task_id: ::std::string::String,
     ///Actual retention duration from creation in milliseconds, null for unlimited.
-    #[serde(default, skip_serializing_if = "::std::option::Option::is_none")]
+    #[serde(
+        default,
+        deserialize_with = "validate::nullable",
+        skip_serializing_if = "::std::option::Option::is_none"
+    )]
     pub ttl: ::std::option::Option<::std::option::Option<i64>>,
 }
 ///See [General fields: _meta](https://modelcontextprotocol.io/specification/2025-11-25/basic/index#meta) for notes on _meta usage.
@@ -9106,7 +9110,11 @@ pub struct TaskStatusNotificationParams {
     #[serde(rename = "taskId")]
     pub task_id: ::std::string::String,
     ///Actual retention duration from creation in milliseconds, null for unlimited.
-    #[serde(default, skip_serializing_if = "::std::option::Option::is_none")]
+    #[serde(
+        default,
+        deserialize_with = "validate::nullable",
+        skip_serializing_if = "::std::option::Option::is_none"
+    )]
     pub ttl: ::std::option::Option<::std::option::Option<i64>>,
 }
 ///Text provided to or from an LLM.
diff --git a/src/generated_schema/2025_11_25/validators.rs b/src/generated_schema/2025_11_25/validators.rs
index fd225aa..cca529b 100644
--- a/src/generated_schema/2025_11_25/validators.rs
+++ b/src/generated_schema/2025_11_25/validators.rs
@@ -79,6 +79,18 @@ where
     }
 }
 
+/// Deserializer for `Option<Option<T>>` fields, whose member may hold an explicit `null`:
+/// - member absent → None (through `#[serde(default)]`)
+/// - null          → Some(None)
+/// - value         → Some(Some(value))
+pub(crate) fn nullable<'de, D, T>(deserializer: D) -> Result<Option<Option<T>>, D::Error>
+where
+    D: serde::de::Deserializer<'de>,
+    T: serde::de::Deserialize<'de>,
+{
+    serde::Deserialize::deserialize(deserializer).map(Some)
+}
+
 macro_rules! validate {
     // === String validation (required) ===
     ($func_name:ident,  $struct:expr, $field:expr, $expected:expr $(,)?) => {
-- 
2.43.0


From 909b601b8cbbb0f36afbba4450dddcde414b8da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:47 +0000
Subject: [PATCH 10/15] fix: related_task_id reads the task id that
 set_related_task_id wrote

---
 src/generated_schema/2025_11_25/schema_utils.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/generated_schema/2025_11_25/schema_utils.rs b/src/generated_schema/2025_11_25/schema_utils.rs
index 7ef3bd7..72348bd 100644
--- a/src/generated_schema/2025_11_25/schema_utils.rs
+++ b/src/generated_schema/2025_11_25/schema_utils.rs
@@ -2925,6 +2925,7 @@ impl GetTaskPayloadResult {
         self.meta
             .as_ref()
             .and_then(|v| v.get(RELATED_TASK_META_KEY))
+            .and_then(|v| v.get("taskId"))
             .and_then(|v| v.as_str())
     }
 
@@ -3010,7 +3011,9 @@ pub trait McpMetaEx {
 
 impl McpMetaEx for serde_json::Map<String, Value> {
     fn related_task_id(&self) -> Option<&str> {
-        self.get(RELATED_TASK_META_KEY).and_then(|v| v.as_str())
+        self.get(RELATED_TASK_META_KEY)
+            .and_then(|v| v.get("taskId"))
+            .and_then(|v| v.as_str())
     }
 
     fn set_related_task_id<T>(&mut self, task_id: T)
-- 
2.43.0


From 84d2cb2d73599b489d2c382772885275b7d24c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:47 +0000
Subject: [PATCH 11/15] fix: a client that declares no task capability cannot
 list or cancel tasks

---
 src/generated_schema/2025_11_25/schema_utils.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/generated_schema/2025_11_25/schema_utils.rs b/src/generated_schema/2025_11_25/schema_utils.rs
index 72348bd..9c88e66 100644
--- a/src/generated_schema/2025_11_25/schema_utils.rs
+++ b/src/generated_schema/2025_11_25/schema_utils.rs
@@ -2789,17 +2789,13 @@ impl ClientCapabilities {
                 }
             }
             ServerJsonrpcRequest::CancelTaskRequest(_) => {
-                if let Some(tasks) = self.tasks.as_ref() {
-                    if !tasks.can_cancel_tasks() {
-                        return Err(create_error("task cancellation", request_method));
-                    }
+                if !self.can_cancel_tasks() {
+                    return Err(create_error("task cancellation", request_method));
                 }
             }
             ServerJsonrpcRequest::ListTasksRequest(_) => {
-                if let Some(tasks) = self.tasks.as_ref() {
-                    if !tasks.can_list_tasks() {
-                        return Err(create_error("listing tasks", request_method));
-                    }
+                if !self.can_list_tasks() {
+                    return Err(create_error("listing tasks", request_method));
                 }
             }
 
-- 
2.43.0


From 0cc4b9aaa186609f5df25b0216f0bf1c414c4e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:54 +0000
Subject: [PATCH 12/15] fix: url_elicit_required carries its data as the
 documented UrlElicitErrorData ({"elicitations": [..]}, 2025-11-25)

---
 src/generated_schema/2025_11_25/schema_utils.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/generated_schema/2025_11_25/schema_utils.rs b/src/generated_schema/2025_11_25/schema_utils.rs
index 9c88e66..a753d58 100644
--- a/src/generated_schema/2025_11_25/schema_utils.rs
+++ b/src/generated_schema/2025_11_25/schema_utils.rs
@@ -3546,12 +3546,7 @@ impl SdkError {
     pub fn url_elicit_required(elicit_url_params: Vec<ElicitRequestUrlParams>) -> Self {
         Self {
             code: UrlElicitError::code_value(),
-            data: Some(serde_json::to_value(elicit_url_params).unwrap_or_else(|_| {
-                json!(
-                    { "elicitations" : [], "error" :
-                    "failed to UrlElicitError data" }
-                )
-            })),
+            data: Some(json!({ "elicitations" : elicit_url_params })),
             message: "URL required. Please provide a URL.".to_string(),
         }
     }
@@ -3647,12 +3642,7 @@ impl RpcError {
     pub fn url_elicit_required(elicit_url_params: Vec<ElicitRequestUrlParams>) -> Self {
         Self {
             code: UrlElicitError::code_value(),
-            data: Some(serde_json::to_value(elicit_url_params).unwrap_or_else(|_| {
-                json!(
-                    { "elicitations" : [], "error" :
-                    "failed to UrlElicitError data" }
-                )
-            })),
+            data: Some(json!({ "elicitations" : elicit_url_params })),
             message: "URL required. Please provide a URL.".to_string(),
         }
     }
-- 
2.43.0


From 3ccf1b7f2d844d1fce767b3d3cb7c6518a64b708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:54 +0000
Subject: [PATCH 13/15] fix: a sampling request that passes tools needs the
 sampling.tools client capability, as toolChoice does (2025-11-25)

---
 src/generated_schema/2025_11_25/schema_utils.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/generated_schema/2025_11_25/schema_utils.rs b/src/generated_schema/2025_11_25/schema_utils.rs
index a753d58..1d932f5 100644
--- a/src/generated_schema/2025_11_25/schema_utils.rs
+++ b/src/generated_schema/2025_11_25/schema_utils.rs
@@ -2768,6 +2768,10 @@ impl ClientCapabilities {
                         if create_message_request.params.tool_choice.is_some() && samplig_capabilities.tools.is_none() {
                             return Err(create_error("tool choice", request_method));
                         }
+
+                        if !create_message_request.params.tools.is_empty() && samplig_capabilities.tools.is_none() {
+                            return Err(create_error("tools", request_method));
+                        }
                     }
                     None => {
                         return Err(create_error("sampling capability", request_method));
-- 
2.43.0


From fab6d1813779240de901d41ad1e0fe02c90c5983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 14/15] fix: a sampling request that explicitly includes no
 context does not need the sampling.context capability (2025-11-25)

---
 src/generated_schema/2025_11_25/schema_utils.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/generated_schema/2025_11_25/schema_utils.rs b/src/generated_schema/2025_11_25/schema_utils.rs
index 1d932f5..730509a 100644
--- a/src/generated_schema/2025_11_25/schema_utils.rs
+++ b/src/generated_schema/2025_11_25/schema_utils.rs
@@ -2760,7 +2760,10 @@ impl ClientCapabilities {
                 match self.sampling.as_ref() {
                     Some(samplig_capabilities) => {
                         //  include_context requested but not supported
-                        if create_message_request.params.include_context.is_some() && samplig_capabilities.context.is_none()
+                        if matches!(
+                            create_message_request.params.include_context,
+                            Some(IncludeContext::AllServers | IncludeContext::ThisServer)
+                        ) && samplig_capabilities.context.is_none()
                         {
                             return Err(create_error("context inclusion", request_method));
                         }
-- 
2.43.0


From 1e99880e40a15caf875baa6d5b01162394916699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:11 +0000
Subject: [PATCH 15/15] fix: keep the choices of a string elicitation property
 (2025-06-18)

A property schema map with "type": "string" and "enum" or "oneOf" was
read as a plain string schema and silently lost its choices.
---
 src/generated_schema/2025_06_18/schema_utils.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/generated_schema/2025_06_18/schema_utils.rs b/src/generated_schema/2025_06_18/schema_utils.rs
index 88f905b..5697780 100644
--- a/src/generated_schema/2025_06_18/schema_utils.rs
+++ b/src/generated_schema/2025_06_18/schema_utils.rs
@@ -1843,7 +1843,18 @@ impl TryFrom<&serde_json::Map<String, Value>> for PrimitiveSchemaDefinition {
         let description = value.get("description").and_then(|v| v.as_str().map(|s| s.to_string()));
         let title = value.get("title").and_then(|v| v.as_str().map(|s| s.to_string()));
 
+        // a string with a set of choices is an enum schema, not a plain string schema
+        let input_type = match input_type {
+            "string" if value.contains_key("oneOf") => "enum",
+            other => other,
+        };
+
         let schema_definition: PrimitiveSchemaDefinition = match input_type {
+            "string" if value.contains_key("enum") => {
+                let schema: EnumSchema = serde_json::from_value(Value::Object(value.clone()))
+                    .map_err(|e| RpcError::parse_error().with_message(format!("Failed to parse EnumSchema: {e}")))?;
+                PrimitiveSchemaDefinition::EnumSchema(schema)
+            }
             "string" => {
                 let max_length = value.get("maxLength").and_then(|v| v.as_number().and_then(|n| n.as_i64()));
                 let min_length = value.get("minLength").and_then(|v| v.as_number().and_then(|n| n.as_i64()));
-- 
2.43.0

