// Generated by tools/gen_harness.py. Typed glue for schema version draft.
use crate::core::*;
use crate::out;
use rust_mcp_schema::mcp_draft as m;
use rust_mcp_schema::mcp_draft::schema_utils as u;
#[allow(unused_imports)]
use rust_mcp_schema::mcp_draft::schema_utils::*;
use serde_json::json;
use serde_json::Value as V;

impl View for m::Annotations { fn view(&self) -> V { vs(vec![("audience", self.audience.view()), ("last_modified", self.last_modified.view()), ("priority", self.priority.view())]) } }
impl Build for m::Annotations { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("Annotations", v)); } Ok(m::Annotations { audience: fld(v, "audience")?, last_modified: fld(v, "last_modified")?, priority: fld(v, "priority")? }) } }
impl View for m::AudioContent { fn view(&self) -> V { vs(vec![("annotations", self.annotations.view()), ("data", self.data.view()), ("meta", self.meta.view()), ("mime_type", self.mime_type.view()), ("type_", self.type_().view())]) } }
impl Build for m::AudioContent { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("AudioContent", v)) } }
impl View for m::BaseMetadata { fn view(&self) -> V { vs(vec![("name", self.name.view()), ("title", self.title.view())]) } }
impl Build for m::BaseMetadata { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("BaseMetadata", v)); } Ok(m::BaseMetadata { name: fld(v, "name")?, title: fld(v, "title")? }) } }
impl View for m::BlobResourceContents { fn view(&self) -> V { vs(vec![("blob", self.blob.view()), ("meta", self.meta.view()), ("mime_type", self.mime_type.view()), ("uri", self.uri.view())]) } }
impl Build for m::BlobResourceContents { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("BlobResourceContents", v)); } Ok(m::BlobResourceContents { blob: fld(v, "blob")?, meta: fld(v, "meta")?, mime_type: fld(v, "mime_type")?, uri: fld(v, "uri")? }) } }
impl View for m::BooleanSchema { fn view(&self) -> V { vs(vec![("default", self.default.view()), ("description", self.description.view()), ("title", self.title.view()), ("type_", self.type_().view())]) } }
impl Build for m::BooleanSchema { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("BooleanSchema", v)) } }
impl View for m::CacheableResult { fn view(&self) -> V { vs(vec![("cache_scope", self.cache_scope.view()), ("meta", self.meta.view()), ("result_type", self.result_type.view()), ("ttl_ms", self.ttl_ms.view())]) } }
impl Build for m::CacheableResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("CacheableResult", v)); } Ok(m::CacheableResult { cache_scope: fld(v, "cache_scope")?, meta: fld(v, "meta")?, result_type: fld(v, "result_type")?, ttl_ms: fld(v, "ttl_ms")? }) } }
impl View for m::CacheableResultCacheScope { fn view(&self) -> V { json!(["U", match self { m::CacheableResultCacheScope::Private => "Private", m::CacheableResultCacheScope::Public => "Public" }]) } }
impl Build for m::CacheableResultCacheScope { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Ok(match v[1].as_str().unwrap_or("") { "Private" => m::CacheableResultCacheScope::Private, "Public" => m::CacheableResultCacheScope::Public, _ => return Err(bad("CacheableResultCacheScope", v)) }) } }
impl View for m::CallToolRequest { fn view(&self) -> V { vs(vec![("id", self.id.view()), ("jsonrpc", self.jsonrpc().view()), ("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::CallToolRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("CallToolRequest", v)) } }
impl View for m::CallToolRequestParams { fn view(&self) -> V { vs(vec![("arguments", self.arguments.view()), ("input_responses", self.input_responses.view()), ("meta", self.meta.view()), ("name", self.name.view()), ("request_state", self.request_state.view())]) } }
impl Build for m::CallToolRequestParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("CallToolRequestParams", v)); } Ok(m::CallToolRequestParams { arguments: fld(v, "arguments")?, input_responses: fld(v, "input_responses")?, meta: fld(v, "meta")?, name: fld(v, "name")?, request_state: fld(v, "request_state")? }) } }
impl View for m::CallToolResult { fn view(&self) -> V { vs(vec![("content", self.content.view()), ("is_error", self.is_error.view()), ("meta", self.meta.view()), ("result_type", self.result_type.view()), ("structured_content", self.structured_content.view())]) } }
impl Build for m::CallToolResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("CallToolResult", v)); } Ok(m::CallToolResult { content: fld(v, "content")?, is_error: fld(v, "is_error")?, meta: fld(v, "meta")?, result_type: fld(v, "result_type")?, structured_content: fld(v, "structured_content")? }) } }
impl View for m::CallToolResultResponse { fn view(&self) -> V { vs(vec![("id", self.id.view()), ("jsonrpc", self.jsonrpc().view()), ("result", self.result.view())]) } }
impl Build for m::CallToolResultResponse { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("CallToolResultResponse", v)) } }
impl View for m::CallToolResultResponseResult { fn view(&self) -> V { match self { m::CallToolResultResponseResult::CallToolResult(x) => json!(["E", "CallToolResult", x.view()]), m::CallToolResultResponseResult::InputRequiredResult(x) => json!(["E", "InputRequiredResult", x.view()]) } } }
impl Build for m::CallToolResultResponseResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("CallToolResultResponseResult", v)); } Ok(match v[1].as_str().unwrap_or("") { "CallToolResult" => m::CallToolResultResponseResult::CallToolResult(Build::build(&v[2])?), "InputRequiredResult" => m::CallToolResultResponseResult::InputRequiredResult(Build::build(&v[2])?), _ => return Err(bad("CallToolResultResponseResult", v)) }) } }
impl View for m::CancelledNotification { fn view(&self) -> V { vs(vec![("jsonrpc", self.jsonrpc().view()), ("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::CancelledNotification { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("CancelledNotification", v)) } }
impl View for m::CancelledNotificationParams { fn view(&self) -> V { vs(vec![("meta", self.meta.view()), ("reason", self.reason.view()), ("request_id", self.request_id.view())]) } }
impl Build for m::CancelledNotificationParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("CancelledNotificationParams", v)); } Ok(m::CancelledNotificationParams { meta: fld(v, "meta")?, reason: fld(v, "reason")?, request_id: fld(v, "request_id")? }) } }
impl View for m::ClientCapabilities { fn view(&self) -> V { vs(vec![("elicitation", self.elicitation.view()), ("experimental", self.experimental.view()), ("extensions", self.extensions.view()), ("roots", self.roots.view()), ("sampling", self.sampling.view())]) } }
impl Build for m::ClientCapabilities { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ClientCapabilities", v)); } Ok(m::ClientCapabilities { elicitation: fld(v, "elicitation")?, experimental: fld(v, "experimental")?, extensions: fld(v, "extensions")?, roots: fld(v, "roots")?, sampling: fld(v, "sampling")? }) } }
impl View for m::ClientElicitation { fn view(&self) -> V { vs(vec![("form", self.form.view()), ("url", self.url.view())]) } }
impl Build for m::ClientElicitation { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ClientElicitation", v)); } Ok(m::ClientElicitation { form: fld(v, "form")?, url: fld(v, "url")? }) } }
impl View for m::ClientNotification { fn view(&self) -> V { vs(vec![("jsonrpc", self.jsonrpc().view()), ("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::ClientNotification { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ClientNotification", v)) } }
impl View for m::ClientRequest { fn view(&self) -> V { match self { m::ClientRequest::DiscoverRequest(x) => json!(["E", "DiscoverRequest", x.view()]), m::ClientRequest::ListResourcesRequest(x) => json!(["E", "ListResourcesRequest", x.view()]), m::ClientRequest::ListResourceTemplatesRequest(x) => json!(["E", "ListResourceTemplatesRequest", x.view()]), m::ClientRequest::ReadResourceRequest(x) => json!(["E", "ReadResourceRequest", x.view()]), m::ClientRequest::SubscriptionsListenRequest(x) => json!(["E", "SubscriptionsListenRequest", x.view()]), m::ClientRequest::ListPromptsRequest(x) => json!(["E", "ListPromptsRequest", x.view()]), m::ClientRequest::GetPromptRequest(x) => json!(["E", "GetPromptRequest", x.view()]), m::ClientRequest::ListToolsRequest(x) => json!(["E", "ListToolsRequest", x.view()]), m::ClientRequest::CallToolRequest(x) => json!(["E", "CallToolRequest", x.view()]), m::ClientRequest::CompleteRequest(x) => json!(["E", "CompleteRequest", x.view()]) } } }
impl Build for m::ClientRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("ClientRequest", v)); } Ok(match v[1].as_str().unwrap_or("") { "DiscoverRequest" => m::ClientRequest::DiscoverRequest(Build::build(&v[2])?), "ListResourcesRequest" => m::ClientRequest::ListResourcesRequest(Build::build(&v[2])?), "ListResourceTemplatesRequest" => m::ClientRequest::ListResourceTemplatesRequest(Build::build(&v[2])?), "ReadResourceRequest" => m::ClientRequest::ReadResourceRequest(Build::build(&v[2])?), "SubscriptionsListenRequest" => m::ClientRequest::SubscriptionsListenRequest(Build::build(&v[2])?), "ListPromptsRequest" => m::ClientRequest::ListPromptsRequest(Build::build(&v[2])?), "GetPromptRequest" => m::ClientRequest::GetPromptRequest(Build::build(&v[2])?), "ListToolsRequest" => m::ClientRequest::ListToolsRequest(Build::build(&v[2])?), "CallToolRequest" => m::ClientRequest::CallToolRequest(Build::build(&v[2])?), "CompleteRequest" => m::ClientRequest::CompleteRequest(Build::build(&v[2])?), _ => return Err(bad("ClientRequest", v)) }) } }
impl View for m::ClientResult { fn view(&self) -> V { self.0.view() } }
impl Build for m::ClientResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Ok(m::ClientResult(Build::build(v)?)) } }
impl View for m::ClientSampling { fn view(&self) -> V { vs(vec![("context", self.context.view()), ("tools", self.tools.view())]) } }
impl Build for m::ClientSampling { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ClientSampling", v)); } Ok(m::ClientSampling { context: fld(v, "context")?, tools: fld(v, "tools")? }) } }
impl View for m::CompleteRequest { fn view(&self) -> V { vs(vec![("id", self.id.view()), ("jsonrpc", self.jsonrpc().view()), ("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::CompleteRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("CompleteRequest", v)) } }
impl View for m::CompleteRequestArgument { fn view(&self) -> V { vs(vec![("name", self.name.view()), ("value", self.value.view())]) } }
impl Build for m::CompleteRequestArgument { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("CompleteRequestArgument", v)); } Ok(m::CompleteRequestArgument { name: fld(v, "name")?, value: fld(v, "value")? }) } }
impl View for m::CompleteRequestContext { fn view(&self) -> V { vs(vec![("arguments", self.arguments.view())]) } }
impl Build for m::CompleteRequestContext { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("CompleteRequestContext", v)); } Ok(m::CompleteRequestContext { arguments: fld(v, "arguments")? }) } }
impl View for m::CompleteRequestParams { fn view(&self) -> V { vs(vec![("argument", self.argument.view()), ("context", self.context.view()), ("meta", self.meta.view()), ("ref_", self.ref_.view())]) } }
impl Build for m::CompleteRequestParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("CompleteRequestParams", v)); } Ok(m::CompleteRequestParams { argument: fld(v, "argument")?, context: fld(v, "context")?, meta: fld(v, "meta")?, ref_: fld(v, "ref_")? }) } }
impl View for m::CompleteRequestRef { fn view(&self) -> V { match self { m::CompleteRequestRef::PromptReference(x) => json!(["E", "PromptReference", x.view()]), m::CompleteRequestRef::ResourceTemplateReference(x) => json!(["E", "ResourceTemplateReference", x.view()]) } } }
impl Build for m::CompleteRequestRef { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("CompleteRequestRef", v)); } Ok(match v[1].as_str().unwrap_or("") { "PromptReference" => m::CompleteRequestRef::PromptReference(Build::build(&v[2])?), "ResourceTemplateReference" => m::CompleteRequestRef::ResourceTemplateReference(Build::build(&v[2])?), _ => return Err(bad("CompleteRequestRef", v)) }) } }
impl View for m::CompleteResult { fn view(&self) -> V { vs(vec![("completion", self.completion.view()), ("meta", self.meta.view()), ("result_type", self.result_type.view())]) } }
impl Build for m::CompleteResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("CompleteResult", v)); } Ok(m::CompleteResult { completion: fld(v, "completion")?, meta: fld(v, "meta")?, result_type: fld(v, "result_type")? }) } }
impl View for m::CompleteResultCompletion { fn view(&self) -> V { vs(vec![("has_more", self.has_more.view()), ("total", self.total.view()), ("values", self.values.view())]) } }
impl Build for m::CompleteResultCompletion { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("CompleteResultCompletion", v)); } Ok(m::CompleteResultCompletion { has_more: fld(v, "has_more")?, total: fld(v, "total")?, values: fld(v, "values")? }) } }
impl View for m::CompleteResultResponse { fn view(&self) -> V { vs(vec![("id", self.id.view()), ("jsonrpc", self.jsonrpc().view()), ("result", self.result.view())]) } }
impl Build for m::CompleteResultResponse { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("CompleteResultResponse", v)) } }
impl View for m::ContentBlock { fn view(&self) -> V { match self { m::ContentBlock::TextContent(x) => json!(["E", "TextContent", x.view()]), m::ContentBlock::ImageContent(x) => json!(["E", "ImageContent", x.view()]), m::ContentBlock::AudioContent(x) => json!(["E", "AudioContent", x.view()]), m::ContentBlock::ResourceLink(x) => json!(["E", "ResourceLink", x.view()]), m::ContentBlock::EmbeddedResource(x) => json!(["E", "EmbeddedResource", x.view()]) } } }
impl Build for m::ContentBlock { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("ContentBlock", v)); } Ok(match v[1].as_str().unwrap_or("") { "TextContent" => m::ContentBlock::TextContent(Build::build(&v[2])?), "ImageContent" => m::ContentBlock::ImageContent(Build::build(&v[2])?), "AudioContent" => m::ContentBlock::AudioContent(Build::build(&v[2])?), "ResourceLink" => m::ContentBlock::ResourceLink(Build::build(&v[2])?), "EmbeddedResource" => m::ContentBlock::EmbeddedResource(Build::build(&v[2])?), _ => return Err(bad("ContentBlock", v)) }) } }
impl View for m::CreateMessageContent { fn view(&self) -> V { match self { m::CreateMessageContent::TextContent(x) => json!(["E", "TextContent", x.view()]), m::CreateMessageContent::ImageContent(x) => json!(["E", "ImageContent", x.view()]), m::CreateMessageContent::AudioContent(x) => json!(["E", "AudioContent", x.view()]), m::CreateMessageContent::ToolUseContent(x) => json!(["E", "ToolUseContent", x.view()]), m::CreateMessageContent::ToolResultContent(x) => json!(["E", "ToolResultContent", x.view()]), m::CreateMessageContent::SamplingMessageContentBlock(x) => json!(["E", "SamplingMessageContentBlock", x.view()]) } } }
impl Build for m::CreateMessageContent { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("CreateMessageContent", v)); } Ok(match v[1].as_str().unwrap_or("") { "TextContent" => m::CreateMessageContent::TextContent(Build::build(&v[2])?), "ImageContent" => m::CreateMessageContent::ImageContent(Build::build(&v[2])?), "AudioContent" => m::CreateMessageContent::AudioContent(Build::build(&v[2])?), "ToolUseContent" => m::CreateMessageContent::ToolUseContent(Build::build(&v[2])?), "ToolResultContent" => m::CreateMessageContent::ToolResultContent(Build::build(&v[2])?), "SamplingMessageContentBlock" => m::CreateMessageContent::SamplingMessageContentBlock(Build::build(&v[2])?), _ => return Err(bad("CreateMessageContent", v)) }) } }
impl View for m::CreateMessageRequest { fn view(&self) -> V { vs(vec![("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::CreateMessageRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("CreateMessageRequest", v)) } }
impl View for m::CreateMessageRequestParams { fn view(&self) -> V { vs(vec![("include_context", self.include_context.view()), ("max_tokens", self.max_tokens.view()), ("messages", self.messages.view()), ("metadata", self.metadata.view()), ("model_preferences", self.model_preferences.view()), ("stop_sequences", self.stop_sequences.view()), ("system_prompt", self.system_prompt.view()), ("temperature", self.temperature.view()), ("tool_choice", self.tool_choice.view()), ("tools", self.tools.view())]) } }
impl Build for m::CreateMessageRequestParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("CreateMessageRequestParams", v)); } Ok(m::CreateMessageRequestParams { include_context: fld(v, "include_context")?, max_tokens: fld(v, "max_tokens")?, messages: fld(v, "messages")?, metadata: fld(v, "metadata")?, model_preferences: fld(v, "model_preferences")?, stop_sequences: fld(v, "stop_sequences")?, system_prompt: fld(v, "system_prompt")?, temperature: fld(v, "temperature")?, tool_choice: fld(v, "tool_choice")?, tools: fld(v, "tools")? }) } }
impl View for m::CreateMessageResult { fn view(&self) -> V { vs(vec![("content", self.content.view()), ("meta", self.meta.view()), ("model", self.model.view()), ("role", self.role.view()), ("stop_reason", self.stop_reason.view())]) } }
impl Build for m::CreateMessageResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("CreateMessageResult", v)); } Ok(m::CreateMessageResult { content: fld(v, "content")?, meta: fld(v, "meta")?, model: fld(v, "model")?, role: fld(v, "role")?, stop_reason: fld(v, "stop_reason")? }) } }
impl View for m::Cursor { fn view(&self) -> V { self.0.view() } }
impl Build for m::Cursor { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Ok(m::Cursor(Build::build(v)?)) } }
impl View for m::DiscoverRequest { fn view(&self) -> V { vs(vec![("id", self.id.view()), ("jsonrpc", self.jsonrpc().view()), ("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::DiscoverRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("DiscoverRequest", v)) } }
impl View for m::DiscoverResult { fn view(&self) -> V { vs(vec![("cache_scope", self.cache_scope.view()), ("capabilities", self.capabilities.view()), ("instructions", self.instructions.view()), ("meta", self.meta.view()), ("result_type", self.result_type.view()), ("supported_versions", self.supported_versions.view()), ("ttl_ms", self.ttl_ms.view())]) } }
impl Build for m::DiscoverResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("DiscoverResult", v)); } Ok(m::DiscoverResult { cache_scope: fld(v, "cache_scope")?, capabilities: fld(v, "capabilities")?, instructions: fld(v, "instructions")?, meta: fld(v, "meta")?, result_type: fld(v, "result_type")?, supported_versions: fld(v, "supported_versions")?, ttl_ms: fld(v, "ttl_ms")? }) } }
impl View for m::DiscoverResultCacheScope { fn view(&self) -> V { json!(["U", match self { m::DiscoverResultCacheScope::Private => "Private", m::DiscoverResultCacheScope::Public => "Public" }]) } }
impl Build for m::DiscoverResultCacheScope { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Ok(match v[1].as_str().unwrap_or("") { "Private" => m::DiscoverResultCacheScope::Private, "Public" => m::DiscoverResultCacheScope::Public, _ => return Err(bad("DiscoverResultCacheScope", v)) }) } }
impl View for m::DiscoverResultResponse { fn view(&self) -> V { vs(vec![("id", self.id.view()), ("jsonrpc", self.jsonrpc().view()), ("result", self.result.view())]) } }
impl Build for m::DiscoverResultResponse { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("DiscoverResultResponse", v)) } }
impl View for m::ElicitRequest { fn view(&self) -> V { vs(vec![("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::ElicitRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ElicitRequest", v)) } }
impl View for m::ElicitRequestFormParams { fn view(&self) -> V { vs(vec![("message", self.message.view()), ("mode", self.mode().view()), ("requested_schema", self.requested_schema.view())]) } }
impl Build for m::ElicitRequestFormParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ElicitRequestFormParams", v)) } }
impl View for m::ElicitRequestFormParamsRequestedSchema { fn view(&self) -> V { vs(vec![("properties", self.properties.view()), ("required", self.required.view()), ("schema", self.schema.view()), ("type_", self.type_().view())]) } }
impl Build for m::ElicitRequestFormParamsRequestedSchema { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ElicitRequestFormParamsRequestedSchema", v)) } }
impl View for m::ElicitRequestParams { fn view(&self) -> V { match self { m::ElicitRequestParams::FormParams(x) => json!(["E", "FormParams", x.view()]), m::ElicitRequestParams::UrlParams(x) => json!(["E", "UrlParams", x.view()]) } } }
impl Build for m::ElicitRequestParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("ElicitRequestParams", v)); } Ok(match v[1].as_str().unwrap_or("") { "FormParams" => m::ElicitRequestParams::FormParams(Build::build(&v[2])?), "UrlParams" => m::ElicitRequestParams::UrlParams(Build::build(&v[2])?), _ => return Err(bad("ElicitRequestParams", v)) }) } }
impl View for m::ElicitRequestUrlParams { fn view(&self) -> V { vs(vec![("message", self.message.view()), ("mode", self.mode().view()), ("url", self.url.view())]) } }
impl Build for m::ElicitRequestUrlParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ElicitRequestUrlParams", v)) } }
impl View for m::ElicitResult { fn view(&self) -> V { vs(vec![("action", self.action.view()), ("content", self.content.view())]) } }
impl Build for m::ElicitResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ElicitResult", v)); } Ok(m::ElicitResult { action: fld(v, "action")?, content: fld(v, "content")? }) } }
impl View for m::ElicitResultAction { fn view(&self) -> V { json!(["U", match self { m::ElicitResultAction::Accept => "Accept", m::ElicitResultAction::Cancel => "Cancel", m::ElicitResultAction::Decline => "Decline" }]) } }
impl Build for m::ElicitResultAction { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Ok(match v[1].as_str().unwrap_or("") { "Accept" => m::ElicitResultAction::Accept, "Cancel" => m::ElicitResultAction::Cancel, "Decline" => m::ElicitResultAction::Decline, _ => return Err(bad("ElicitResultAction", v)) }) } }
impl View for m::ElicitResultContent { fn view(&self) -> V { match self { m::ElicitResultContent::StringArray(x) => json!(["E", "StringArray", x.view()]), m::ElicitResultContent::Primitive(x) => json!(["E", "Primitive", x.view()]) } } }
impl Build for m::ElicitResultContent { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("ElicitResultContent", v)); } Ok(match v[1].as_str().unwrap_or("") { "StringArray" => m::ElicitResultContent::StringArray(Build::build(&v[2])?), "Primitive" => m::ElicitResultContent::Primitive(Build::build(&v[2])?), _ => return Err(bad("ElicitResultContent", v)) }) } }
impl View for m::ElicitResultContentPrimitive { fn view(&self) -> V { match self { m::ElicitResultContentPrimitive::Boolean(x) => json!(["E", "Boolean", x.view()]), m::ElicitResultContentPrimitive::String(x) => json!(["E", "String", x.view()]), m::ElicitResultContentPrimitive::Integer(x) => json!(["E", "Integer", x.view()]) } } }
impl Build for m::ElicitResultContentPrimitive { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("ElicitResultContentPrimitive", v)); } Ok(match v[1].as_str().unwrap_or("") { "Boolean" => m::ElicitResultContentPrimitive::Boolean(Build::build(&v[2])?), "String" => m::ElicitResultContentPrimitive::String(Build::build(&v[2])?), "Integer" => m::ElicitResultContentPrimitive::Integer(Build::build(&v[2])?), _ => return Err(bad("ElicitResultContentPrimitive", v)) }) } }
impl View for m::EmbeddedResource { fn view(&self) -> V { vs(vec![("annotations", self.annotations.view()), ("meta", self.meta.view()), ("resource", self.resource.view()), ("type_", self.type_().view())]) } }
impl Build for m::EmbeddedResource { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("EmbeddedResource", v)) } }
impl View for m::EmbeddedResourceResource { fn view(&self) -> V { match self { m::EmbeddedResourceResource::TextResourceContents(x) => json!(["E", "TextResourceContents", x.view()]), m::EmbeddedResourceResource::BlobResourceContents(x) => json!(["E", "BlobResourceContents", x.view()]) } } }
impl Build for m::EmbeddedResourceResource { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("EmbeddedResourceResource", v)); } Ok(match v[1].as_str().unwrap_or("") { "TextResourceContents" => m::EmbeddedResourceResource::TextResourceContents(Build::build(&v[2])?), "BlobResourceContents" => m::EmbeddedResourceResource::BlobResourceContents(Build::build(&v[2])?), _ => return Err(bad("EmbeddedResourceResource", v)) }) } }
impl View for m::EmptyResult { fn view(&self) -> V { self.0.view() } }
impl Build for m::EmptyResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Ok(m::EmptyResult(Build::build(v)?)) } }
impl View for m::EnumSchema { fn view(&self) -> V { match self { m::EnumSchema::UntitledSingleSelectEnumSchema(x) => json!(["E", "UntitledSingleSelectEnumSchema", x.view()]), m::EnumSchema::TitledSingleSelectEnumSchema(x) => json!(["E", "TitledSingleSelectEnumSchema", x.view()]), m::EnumSchema::UntitledMultiSelectEnumSchema(x) => json!(["E", "UntitledMultiSelectEnumSchema", x.view()]), m::EnumSchema::TitledMultiSelectEnumSchema(x) => json!(["E", "TitledMultiSelectEnumSchema", x.view()]), m::EnumSchema::LegacyTitledEnumSchema(x) => json!(["E", "LegacyTitledEnumSchema", x.view()]) } } }
impl Build for m::EnumSchema { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("EnumSchema", v)); } Ok(match v[1].as_str().unwrap_or("") { "UntitledSingleSelectEnumSchema" => m::EnumSchema::UntitledSingleSelectEnumSchema(Build::build(&v[2])?), "TitledSingleSelectEnumSchema" => m::EnumSchema::TitledSingleSelectEnumSchema(Build::build(&v[2])?), "UntitledMultiSelectEnumSchema" => m::EnumSchema::UntitledMultiSelectEnumSchema(Build::build(&v[2])?), "TitledMultiSelectEnumSchema" => m::EnumSchema::TitledMultiSelectEnumSchema(Build::build(&v[2])?), "LegacyTitledEnumSchema" => m::EnumSchema::LegacyTitledEnumSchema(Build::build(&v[2])?), _ => return Err(bad("EnumSchema", v)) }) } }
impl View for m::GetPromptRequest { fn view(&self) -> V { vs(vec![("id", self.id.view()), ("jsonrpc", self.jsonrpc().view()), ("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::GetPromptRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("GetPromptRequest", v)) } }
impl View for m::GetPromptRequestParams { fn view(&self) -> V { vs(vec![("arguments", self.arguments.view()), ("input_responses", self.input_responses.view()), ("meta", self.meta.view()), ("name", self.name.view()), ("request_state", self.request_state.view())]) } }
impl Build for m::GetPromptRequestParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("GetPromptRequestParams", v)); } Ok(m::GetPromptRequestParams { arguments: fld(v, "arguments")?, input_responses: fld(v, "input_responses")?, meta: fld(v, "meta")?, name: fld(v, "name")?, request_state: fld(v, "request_state")? }) } }
impl View for m::GetPromptResult { fn view(&self) -> V { vs(vec![("description", self.description.view()), ("messages", self.messages.view()), ("meta", self.meta.view()), ("result_type", self.result_type.view())]) } }
impl Build for m::GetPromptResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("GetPromptResult", v)); } Ok(m::GetPromptResult { description: fld(v, "description")?, messages: fld(v, "messages")?, meta: fld(v, "meta")?, result_type: fld(v, "result_type")? }) } }
impl View for m::GetPromptResultResponse { fn view(&self) -> V { vs(vec![("id", self.id.view()), ("jsonrpc", self.jsonrpc().view()), ("result", self.result.view())]) } }
impl Build for m::GetPromptResultResponse { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("GetPromptResultResponse", v)) } }
impl View for m::GetPromptResultResponseResult { fn view(&self) -> V { match self { m::GetPromptResultResponseResult::GetPromptResult(x) => json!(["E", "GetPromptResult", x.view()]), m::GetPromptResultResponseResult::InputRequiredResult(x) => json!(["E", "InputRequiredResult", x.view()]) } } }
impl Build for m::GetPromptResultResponseResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("GetPromptResultResponseResult", v)); } Ok(match v[1].as_str().unwrap_or("") { "GetPromptResult" => m::GetPromptResultResponseResult::GetPromptResult(Build::build(&v[2])?), "InputRequiredResult" => m::GetPromptResultResponseResult::InputRequiredResult(Build::build(&v[2])?), _ => return Err(bad("GetPromptResultResponseResult", v)) }) } }
impl View for m::HeaderMismatchError { fn view(&self) -> V { vs(vec![("error", self.error.view()), ("id", self.id.view()), ("jsonrpc", self.jsonrpc().view())]) } }
impl Build for m::HeaderMismatchError { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("HeaderMismatchError", v)) } }
impl View for m::Icon { fn view(&self) -> V { vs(vec![("mime_type", self.mime_type.view()), ("sizes", self.sizes.view()), ("src", self.src.view()), ("theme", self.theme.view())]) } }
impl Build for m::Icon { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("Icon", v)); } Ok(m::Icon { mime_type: fld(v, "mime_type")?, sizes: fld(v, "sizes")?, src: fld(v, "src")?, theme: fld(v, "theme")? }) } }
impl View for m::IconTheme { fn view(&self) -> V { json!(["U", match self { m::IconTheme::Dark => "Dark", m::IconTheme::Light => "Light" }]) } }
impl Build for m::IconTheme { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Ok(match v[1].as_str().unwrap_or("") { "Dark" => m::IconTheme::Dark, "Light" => m::IconTheme::Light, _ => return Err(bad("IconTheme", v)) }) } }
impl View for m::Icons { fn view(&self) -> V { vs(vec![("icons", self.icons.view())]) } }
impl Build for m::Icons { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("Icons", v)); } Ok(m::Icons { icons: fld(v, "icons")? }) } }
impl View for m::ImageContent { fn view(&self) -> V { vs(vec![("annotations", self.annotations.view()), ("data", self.data.view()), ("meta", self.meta.view()), ("mime_type", self.mime_type.view()), ("type_", self.type_().view())]) } }
impl Build for m::ImageContent { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ImageContent", v)) } }
impl View for m::Implementation { fn view(&self) -> V { vs(vec![("description", self.description.view()), ("icons", self.icons.view()), ("name", self.name.view()), ("title", self.title.view()), ("version", self.version.view()), ("website_url", self.website_url.view())]) } }
impl Build for m::Implementation { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("Implementation", v)); } Ok(m::Implementation { description: fld(v, "description")?, icons: fld(v, "icons")?, name: fld(v, "name")?, title: fld(v, "title")?, version: fld(v, "version")?, website_url: fld(v, "website_url")? }) } }
impl View for m::IncludeContext { fn view(&self) -> V { json!(["U", match self { m::IncludeContext::AllServers => "AllServers", m::IncludeContext::None => "None", m::IncludeContext::ThisServer => "ThisServer" }]) } }
impl Build for m::IncludeContext { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Ok(match v[1].as_str().unwrap_or("") { "AllServers" => m::IncludeContext::AllServers, "None" => m::IncludeContext::None, "ThisServer" => m::IncludeContext::ThisServer, _ => return Err(bad("IncludeContext", v)) }) } }
impl View for m::InputRequest { fn view(&self) -> V { match self { m::InputRequest::CreateMessageRequest(x) => json!(["E", "CreateMessageRequest", x.view()]), m::InputRequest::ListRootsRequest(x) => json!(["E", "ListRootsRequest", x.view()]), m::InputRequest::ElicitRequest(x) => json!(["E", "ElicitRequest", x.view()]) } } }
impl Build for m::InputRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("InputRequest", v)); } Ok(match v[1].as_str().unwrap_or("") { "CreateMessageRequest" => m::InputRequest::CreateMessageRequest(Build::build(&v[2])?), "ListRootsRequest" => m::InputRequest::ListRootsRequest(Build::build(&v[2])?), "ElicitRequest" => m::InputRequest::ElicitRequest(Build::build(&v[2])?), _ => return Err(bad("InputRequest", v)) }) } }
impl View for m::InputRequests { fn view(&self) -> V { self.0.view() } }
impl Build for m::InputRequests { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Ok(m::InputRequests(Build::build(v)?)) } }
impl View for m::InputRequiredResult { fn view(&self) -> V { vs(vec![("input_requests", self.input_requests.view()), ("meta", self.meta.view()), ("request_state", self.request_state.view()), ("result_type", self.result_type.view())]) } }
impl Build for m::InputRequiredResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("InputRequiredResult", v)); } Ok(m::InputRequiredResult { input_requests: fld(v, "input_requests")?, meta: fld(v, "meta")?, request_state: fld(v, "request_state")?, result_type: fld(v, "result_type")? }) } }
impl View for m::InputResponse { fn view(&self) -> V { match self { m::InputResponse::CreateMessageResult(x) => json!(["E", "CreateMessageResult", x.view()]), m::InputResponse::ListRootsResult(x) => json!(["E", "ListRootsResult", x.view()]), m::InputResponse::ElicitResult(x) => json!(["E", "ElicitResult", x.view()]) } } }
impl Build for m::InputResponse { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("InputResponse", v)); } Ok(match v[1].as_str().unwrap_or("") { "CreateMessageResult" => m::InputResponse::CreateMessageResult(Build::build(&v[2])?), "ListRootsResult" => m::InputResponse::ListRootsResult(Build::build(&v[2])?), "ElicitResult" => m::InputResponse::ElicitResult(Build::build(&v[2])?), _ => return Err(bad("InputResponse", v)) }) } }
impl View for m::InputResponseRequestParams { fn view(&self) -> V { vs(vec![("input_responses", self.input_responses.view()), ("meta", self.meta.view()), ("request_state", self.request_state.view())]) } }
impl Build for m::InputResponseRequestParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("InputResponseRequestParams", v)); } Ok(m::InputResponseRequestParams { input_responses: fld(v, "input_responses")?, meta: fld(v, "meta")?, request_state: fld(v, "request_state")? }) } }
impl View for m::InputResponses { fn view(&self) -> V { self.0.view() } }
impl Build for m::InputResponses { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Ok(m::InputResponses(Build::build(v)?)) } }
impl View for m::InternalError { fn view(&self) -> V { vs(vec![("code", self.code.view()), ("data", self.data.view()), ("message", self.message.view())]) } }
impl Build for m::InternalError { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("InternalError", v)); } Ok(m::InternalError { code: fld(v, "code")?, data: fld(v, "data")?, message: fld(v, "message")? }) } }
impl View for m::InvalidParamsError { fn view(&self) -> V { vs(vec![("code", self.code.view()), ("data", self.data.view()), ("message", self.message.view())]) } }
impl Build for m::InvalidParamsError { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("InvalidParamsError", v)); } Ok(m::InvalidParamsError { code: fld(v, "code")?, data: fld(v, "data")?, message: fld(v, "message")? }) } }
impl View for m::InvalidRequestError { fn view(&self) -> V { vs(vec![("code", self.code.view()), ("data", self.data.view()), ("message", self.message.view())]) } }
impl Build for m::InvalidRequestError { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("InvalidRequestError", v)); } Ok(m::InvalidRequestError { code: fld(v, "code")?, data: fld(v, "data")?, message: fld(v, "message")? }) } }
impl View for m::JsonArray { fn view(&self) -> V { self.0.view() } }
impl Build for m::JsonArray { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Ok(m::JsonArray(Build::build(v)?)) } }
impl View for m::JsonObject { fn view(&self) -> V { self.0.view() } }
impl Build for m::JsonObject { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Ok(m::JsonObject(Build::build(v)?)) } }
impl View for m::JsonValue { fn view(&self) -> V { match self { m::JsonValue::Variant0(x) => json!(["E", "Variant0", x.view()]), m::JsonValue::Variant1(x) => json!(["E", "Variant1", x.view()]), m::JsonValue::Variant2(x) => json!(["E", "Variant2", x.view()]) } } }
impl Build for m::JsonValue { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("JsonValue", v)); } Ok(match v[1].as_str().unwrap_or("") { "Variant0" => m::JsonValue::Variant0(Build::build(&v[2])?), "Variant1" => m::JsonValue::Variant1(Build::build(&v[2])?), "Variant2" => m::JsonValue::Variant2(Build::build(&v[2])?), _ => return Err(bad("JsonValue", v)) }) } }
impl View for m::JsonValueVariant2 { fn view(&self) -> V { match self { m::JsonValueVariant2::Boolean(x) => json!(["E", "Boolean", x.view()]), m::JsonValueVariant2::String(x) => json!(["E", "String", x.view()]), m::JsonValueVariant2::Integer(x) => json!(["E", "Integer", x.view()]) } } }
impl Build for m::JsonValueVariant2 { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("JsonValueVariant2", v)); } Ok(match v[1].as_str().unwrap_or("") { "Boolean" => m::JsonValueVariant2::Boolean(Build::build(&v[2])?), "String" => m::JsonValueVariant2::String(Build::build(&v[2])?), "Integer" => m::JsonValueVariant2::Integer(Build::build(&v[2])?), _ => return Err(bad("JsonValueVariant2", v)) }) } }
impl View for m::JsonrpcErrorResponse { fn view(&self) -> V { vs(vec![("error", self.error.view()), ("id", self.id.view()), ("jsonrpc", self.jsonrpc().view())]) } }
impl Build for m::JsonrpcErrorResponse { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("JsonrpcErrorResponse", v)) } }
impl View for m::JsonrpcMessage { fn view(&self) -> V { match self { m::JsonrpcMessage::Request(x) => json!(["E", "Request", x.view()]), m::JsonrpcMessage::Notification(x) => json!(["E", "Notification", x.view()]), m::JsonrpcMessage::ResultResponse(x) => json!(["E", "ResultResponse", x.view()]), m::JsonrpcMessage::ErrorResponse(x) => json!(["E", "ErrorResponse", x.view()]) } } }
impl Build for m::JsonrpcMessage { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("JsonrpcMessage", v)); } Ok(match v[1].as_str().unwrap_or("") { "Request" => m::JsonrpcMessage::Request(Build::build(&v[2])?), "Notification" => m::JsonrpcMessage::Notification(Build::build(&v[2])?), "ResultResponse" => m::JsonrpcMessage::ResultResponse(Build::build(&v[2])?), "ErrorResponse" => m::JsonrpcMessage::ErrorResponse(Build::build(&v[2])?), _ => return Err(bad("JsonrpcMessage", v)) }) } }
impl View for m::JsonrpcNotification { fn view(&self) -> V { vs(vec![("jsonrpc", self.jsonrpc().view()), ("method", self.method.view()), ("params", self.params.view())]) } }
impl Build for m::JsonrpcNotification { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("JsonrpcNotification", v)) } }
impl View for m::JsonrpcRequest { fn view(&self) -> V { vs(vec![("id", self.id.view()), ("jsonrpc", self.jsonrpc().view()), ("method", self.method.view()), ("params", self.params.view())]) } }
impl Build for m::JsonrpcRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("JsonrpcRequest", v)) } }
impl View for m::JsonrpcResponse { fn view(&self) -> V { match self { m::JsonrpcResponse::ResultResponse(x) => json!(["E", "ResultResponse", x.view()]), m::JsonrpcResponse::ErrorResponse(x) => json!(["E", "ErrorResponse", x.view()]) } } }
impl Build for m::JsonrpcResponse { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("JsonrpcResponse", v)); } Ok(match v[1].as_str().unwrap_or("") { "ResultResponse" => m::JsonrpcResponse::ResultResponse(Build::build(&v[2])?), "ErrorResponse" => m::JsonrpcResponse::ErrorResponse(Build::build(&v[2])?), _ => return Err(bad("JsonrpcResponse", v)) }) } }
impl View for m::JsonrpcResultResponse { fn view(&self) -> V { vs(vec![("id", self.id.view()), ("jsonrpc", self.jsonrpc().view()), ("result", self.result.view())]) } }
impl Build for m::JsonrpcResultResponse { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("JsonrpcResultResponse", v)) } }
impl View for m::LegacyTitledEnumSchema { fn view(&self) -> V { vs(vec![("default", self.default.view()), ("description", self.description.view()), ("enum_", self.enum_.view()), ("enum_names", self.enum_names.view()), ("title", self.title.view()), ("type_", self.type_().view())]) } }
impl Build for m::LegacyTitledEnumSchema { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("LegacyTitledEnumSchema", v)) } }
impl View for m::ListPromptsRequest { fn view(&self) -> V { vs(vec![("id", self.id.view()), ("jsonrpc", self.jsonrpc().view()), ("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::ListPromptsRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ListPromptsRequest", v)) } }
impl View for m::ListPromptsResult { fn view(&self) -> V { vs(vec![("cache_scope", self.cache_scope.view()), ("meta", self.meta.view()), ("next_cursor", self.next_cursor.view()), ("prompts", self.prompts.view()), ("result_type", self.result_type.view()), ("ttl_ms", self.ttl_ms.view())]) } }
impl Build for m::ListPromptsResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ListPromptsResult", v)); } Ok(m::ListPromptsResult { cache_scope: fld(v, "cache_scope")?, meta: fld(v, "meta")?, next_cursor: fld(v, "next_cursor")?, prompts: fld(v, "prompts")?, result_type: fld(v, "result_type")?, ttl_ms: fld(v, "ttl_ms")? }) } }
impl View for m::ListPromptsResultCacheScope { fn view(&self) -> V { json!(["U", match self { m::ListPromptsResultCacheScope::Private => "Private", m::ListPromptsResultCacheScope::Public => "Public" }]) } }
impl Build for m::ListPromptsResultCacheScope { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Ok(match v[1].as_str().unwrap_or("") { "Private" => m::ListPromptsResultCacheScope::Private, "Public" => m::ListPromptsResultCacheScope::Public, _ => return Err(bad("ListPromptsResultCacheScope", v)) }) } }
impl View for m::ListPromptsResultResponse { fn view(&self) -> V { vs(vec![("id", self.id.view()), ("jsonrpc", self.jsonrpc().view()), ("result", self.result.view())]) } }
impl Build for m::ListPromptsResultResponse { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ListPromptsResultResponse", v)) } }
impl View for m::ListResourceTemplatesRequest { fn view(&self) -> V { vs(vec![("id", self.id.view()), ("jsonrpc", self.jsonrpc().view()), ("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::ListResourceTemplatesRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ListResourceTemplatesRequest", v)) } }
impl View for m::ListResourceTemplatesResult { fn view(&self) -> V { vs(vec![("cache_scope", self.cache_scope.view()), ("meta", self.meta.view()), ("next_cursor", self.next_cursor.view()), ("resource_templates", self.resource_templates.view()), ("result_type", self.result_type.view()), ("ttl_ms", self.ttl_ms.view())]) } }
impl Build for m::ListResourceTemplatesResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ListResourceTemplatesResult", v)); } Ok(m::ListResourceTemplatesResult { cache_scope: fld(v, "cache_scope")?, meta: fld(v, "meta")?, next_cursor: fld(v, "next_cursor")?, resource_templates: fld(v, "resource_templates")?, result_type: fld(v, "result_type")?, ttl_ms: fld(v, "ttl_ms")? }) } }
impl View for m::ListResourceTemplatesResultCacheScope { fn view(&self) -> V { json!(["U", match self { m::ListResourceTemplatesResultCacheScope::Private => "Private", m::ListResourceTemplatesResultCacheScope::Public => "Public" }]) } }
impl Build for m::ListResourceTemplatesResultCacheScope { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Ok(match v[1].as_str().unwrap_or("") { "Private" => m::ListResourceTemplatesResultCacheScope::Private, "Public" => m::ListResourceTemplatesResultCacheScope::Public, _ => return Err(bad("ListResourceTemplatesResultCacheScope", v)) }) } }
impl View for m::ListResourceTemplatesResultResponse { fn view(&self) -> V { vs(vec![("id", self.id.view()), ("jsonrpc", self.jsonrpc().view()), ("result", self.result.view())]) } }
impl Build for m::ListResourceTemplatesResultResponse { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ListResourceTemplatesResultResponse", v)) } }
impl View for m::ListResourcesRequest { fn view(&self) -> V { vs(vec![("id", self.id.view()), ("jsonrpc", self.jsonrpc().view()), ("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::ListResourcesRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ListResourcesRequest", v)) } }
impl View for m::ListResourcesResult { fn view(&self) -> V { vs(vec![("cache_scope", self.cache_scope.view()), ("meta", self.meta.view()), ("next_cursor", self.next_cursor.view()), ("resources", self.resources.view()), ("result_type", self.result_type.view()), ("ttl_ms", self.ttl_ms.view())]) } }
impl Build for m::ListResourcesResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ListResourcesResult", v)); } Ok(m::ListResourcesResult { cache_scope: fld(v, "cache_scope")?, meta: fld(v, "meta")?, next_cursor: fld(v, "next_cursor")?, resources: fld(v, "resources")?, result_type: fld(v, "result_type")?, ttl_ms: fld(v, "ttl_ms")? }) } }
impl View for m::ListResourcesResultCacheScope { fn view(&self) -> V { json!(["U", match self { m::ListResourcesResultCacheScope::Private => "Private", m::ListResourcesResultCacheScope::Public => "Public" }]) } }
impl Build for m::ListResourcesResultCacheScope { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Ok(match v[1].as_str().unwrap_or("") { "Private" => m::ListResourcesResultCacheScope::Private, "Public" => m::ListResourcesResultCacheScope::Public, _ => return Err(bad("ListResourcesResultCacheScope", v)) }) } }
impl View for m::ListResourcesResultResponse { fn view(&self) -> V { vs(vec![("id", self.id.view()), ("jsonrpc", self.jsonrpc().view()), ("result", self.result.view())]) } }
impl Build for m::ListResourcesResultResponse { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ListResourcesResultResponse", v)) } }
impl View for m::ListRootsRequest { fn view(&self) -> V { vs(vec![("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::ListRootsRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ListRootsRequest", v)) } }
impl View for m::ListRootsRequestParams { fn view(&self) -> V { vs(vec![("meta", self.meta.view())]) } }
impl Build for m::ListRootsRequestParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ListRootsRequestParams", v)); } Ok(m::ListRootsRequestParams { meta: fld(v, "meta")? }) } }
impl View for m::ListRootsResult { fn view(&self) -> V { vs(vec![("roots", self.roots.view())]) } }
impl Build for m::ListRootsResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ListRootsResult", v)); } Ok(m::ListRootsResult { roots: fld(v, "roots")? }) } }
impl View for m::ListToolsRequest { fn view(&self) -> V { vs(vec![("id", self.id.view()), ("jsonrpc", self.jsonrpc().view()), ("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::ListToolsRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ListToolsRequest", v)) } }
impl View for m::ListToolsResult { fn view(&self) -> V { vs(vec![("cache_scope", self.cache_scope.view()), ("meta", self.meta.view()), ("next_cursor", self.next_cursor.view()), ("result_type", self.result_type.view()), ("tools", self.tools.view()), ("ttl_ms", self.ttl_ms.view())]) } }
impl Build for m::ListToolsResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ListToolsResult", v)); } Ok(m::ListToolsResult { cache_scope: fld(v, "cache_scope")?, meta: fld(v, "meta")?, next_cursor: fld(v, "next_cursor")?, result_type: fld(v, "result_type")?, tools: fld(v, "tools")?, ttl_ms: fld(v, "ttl_ms")? }) } }
impl View for m::ListToolsResultCacheScope { fn view(&self) -> V { json!(["U", match self { m::ListToolsResultCacheScope::Private => "Private", m::ListToolsResultCacheScope::Public => "Public" }]) } }
impl Build for m::ListToolsResultCacheScope { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Ok(match v[1].as_str().unwrap_or("") { "Private" => m::ListToolsResultCacheScope::Private, "Public" => m::ListToolsResultCacheScope::Public, _ => return Err(bad("ListToolsResultCacheScope", v)) }) } }
impl View for m::ListToolsResultResponse { fn view(&self) -> V { vs(vec![("id", self.id.view()), ("jsonrpc", self.jsonrpc().view()), ("result", self.result.view())]) } }
impl Build for m::ListToolsResultResponse { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ListToolsResultResponse", v)) } }
impl View for m::LoggingLevel { fn view(&self) -> V { json!(["U", match self { m::LoggingLevel::Alert => "Alert", m::LoggingLevel::Critical => "Critical", m::LoggingLevel::Debug => "Debug", m::LoggingLevel::Emergency => "Emergency", m::LoggingLevel::Error => "Error", m::LoggingLevel::Info => "Info", m::LoggingLevel::Notice => "Notice", m::LoggingLevel::Warning => "Warning" }]) } }
impl Build for m::LoggingLevel { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Ok(match v[1].as_str().unwrap_or("") { "Alert" => m::LoggingLevel::Alert, "Critical" => m::LoggingLevel::Critical, "Debug" => m::LoggingLevel::Debug, "Emergency" => m::LoggingLevel::Emergency, "Error" => m::LoggingLevel::Error, "Info" => m::LoggingLevel::Info, "Notice" => m::LoggingLevel::Notice, "Warning" => m::LoggingLevel::Warning, _ => return Err(bad("LoggingLevel", v)) }) } }
impl View for m::LoggingMessageNotification { fn view(&self) -> V { vs(vec![("jsonrpc", self.jsonrpc().view()), ("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::LoggingMessageNotification { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("LoggingMessageNotification", v)) } }
impl View for m::LoggingMessageNotificationParams { fn view(&self) -> V { vs(vec![("data", self.data.view()), ("level", self.level.view()), ("logger", self.logger.view()), ("meta", self.meta.view())]) } }
impl Build for m::LoggingMessageNotificationParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("LoggingMessageNotificationParams", v)); } Ok(m::LoggingMessageNotificationParams { data: fld(v, "data")?, level: fld(v, "level")?, logger: fld(v, "logger")?, meta: fld(v, "meta")? }) } }
impl View for m::MetaObject { fn view(&self) -> V { self.0.view() } }
impl Build for m::MetaObject { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Ok(m::MetaObject(Build::build(v)?)) } }
impl View for m::MethodNotFoundError { fn view(&self) -> V { vs(vec![("code", self.code.view()), ("data", self.data.view()), ("message", self.message.view())]) } }
impl Build for m::MethodNotFoundError { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("MethodNotFoundError", v)); } Ok(m::MethodNotFoundError { code: fld(v, "code")?, data: fld(v, "data")?, message: fld(v, "message")? }) } }
impl View for m::MissingRequiredClientCapabilityError { fn view(&self) -> V { vs(vec![("error", self.error.view()), ("id", self.id.view()), ("jsonrpc", self.jsonrpc().view())]) } }
impl Build for m::MissingRequiredClientCapabilityError { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("MissingRequiredClientCapabilityError", v)) } }
impl View for m::MissingRequiredClientCapabilityErrorError { fn view(&self) -> V { vs(vec![("code", self.code.view()), ("data", self.data.view()), ("message", self.message.view())]) } }
impl Build for m::MissingRequiredClientCapabilityErrorError { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("MissingRequiredClientCapabilityErrorError", v)); } Ok(m::MissingRequiredClientCapabilityErrorError { code: fld(v, "code")?, data: fld(v, "data")?, message: fld(v, "message")? }) } }
impl View for m::MissingRequiredClientCapabilityErrorErrorData { fn view(&self) -> V { vs(vec![("required_capabilities", self.required_capabilities.view())]) } }
impl Build for m::MissingRequiredClientCapabilityErrorErrorData { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("MissingRequiredClientCapabilityErrorErrorData", v)); } Ok(m::MissingRequiredClientCapabilityErrorErrorData { required_capabilities: fld(v, "required_capabilities")? }) } }
impl View for m::ModelHint { fn view(&self) -> V { vs(vec![("name", self.name.view())]) } }
impl Build for m::ModelHint { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ModelHint", v)); } Ok(m::ModelHint { name: fld(v, "name")? }) } }
impl View for m::ModelPreferences { fn view(&self) -> V { vs(vec![("cost_priority", self.cost_priority.view()), ("hints", self.hints.view()), ("intelligence_priority", self.intelligence_priority.view()), ("speed_priority", self.speed_priority.view())]) } }
impl Build for m::ModelPreferences { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ModelPreferences", v)); } Ok(m::ModelPreferences { cost_priority: fld(v, "cost_priority")?, hints: fld(v, "hints")?, intelligence_priority: fld(v, "intelligence_priority")?, speed_priority: fld(v, "speed_priority")? }) } }
impl View for m::MultiSelectEnumSchema { fn view(&self) -> V { match self { m::MultiSelectEnumSchema::UntitledMultiSelectEnumSchema(x) => json!(["E", "UntitledMultiSelectEnumSchema", x.view()]), m::MultiSelectEnumSchema::TitledMultiSelectEnumSchema(x) => json!(["E", "TitledMultiSelectEnumSchema", x.view()]) } } }
impl Build for m::MultiSelectEnumSchema { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("MultiSelectEnumSchema", v)); } Ok(match v[1].as_str().unwrap_or("") { "UntitledMultiSelectEnumSchema" => m::MultiSelectEnumSchema::UntitledMultiSelectEnumSchema(Build::build(&v[2])?), "TitledMultiSelectEnumSchema" => m::MultiSelectEnumSchema::TitledMultiSelectEnumSchema(Build::build(&v[2])?), _ => return Err(bad("MultiSelectEnumSchema", v)) }) } }
impl View for m::Notification { fn view(&self) -> V { vs(vec![("method", self.method.view()), ("params", self.params.view())]) } }
impl Build for m::Notification { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("Notification", v)); } Ok(m::Notification { method: fld(v, "method")?, params: fld(v, "params")? }) } }
impl View for m::NotificationMetaObject { fn view(&self) -> V { vs(vec![("io_modelcontextprotocol_subscription_id", self.io_modelcontextprotocol_subscription_id.view()), ("extra", self.extra.view())]) } }
impl Build for m::NotificationMetaObject { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("NotificationMetaObject", v)); } Ok(m::NotificationMetaObject { io_modelcontextprotocol_subscription_id: fld(v, "io_modelcontextprotocol_subscription_id")?, extra: fld(v, "extra")? }) } }
impl View for m::NotificationParams { fn view(&self) -> V { vs(vec![("meta", self.meta.view())]) } }
impl Build for m::NotificationParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("NotificationParams", v)); } Ok(m::NotificationParams { meta: fld(v, "meta")? }) } }
impl View for m::NumberSchema { fn view(&self) -> V { vs(vec![("default", self.default.view()), ("description", self.description.view()), ("maximum", self.maximum.view()), ("minimum", self.minimum.view()), ("title", self.title.view()), ("type_", self.type_.view())]) } }
impl Build for m::NumberSchema { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("NumberSchema", v)); } Ok(m::NumberSchema { default: fld(v, "default")?, description: fld(v, "description")?, maximum: fld(v, "maximum")?, minimum: fld(v, "minimum")?, title: fld(v, "title")?, type_: fld(v, "type_")? }) } }
impl View for m::NumberSchemaType { fn view(&self) -> V { json!(["U", match self { m::NumberSchemaType::Integer => "Integer", m::NumberSchemaType::Number => "Number" }]) } }
impl Build for m::NumberSchemaType { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Ok(match v[1].as_str().unwrap_or("") { "Integer" => m::NumberSchemaType::Integer, "Number" => m::NumberSchemaType::Number, _ => return Err(bad("NumberSchemaType", v)) }) } }
impl View for m::PaginatedRequest { fn view(&self) -> V { vs(vec![("id", self.id.view()), ("jsonrpc", self.jsonrpc().view()), ("method", self.method.view()), ("params", self.params.view())]) } }
impl Build for m::PaginatedRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("PaginatedRequest", v)) } }
impl View for m::PaginatedRequestParams { fn view(&self) -> V { vs(vec![("cursor", self.cursor.view()), ("meta", self.meta.view())]) } }
impl Build for m::PaginatedRequestParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("PaginatedRequestParams", v)); } Ok(m::PaginatedRequestParams { cursor: fld(v, "cursor")?, meta: fld(v, "meta")? }) } }
impl View for m::PaginatedResult { fn view(&self) -> V { vs(vec![("meta", self.meta.view()), ("next_cursor", self.next_cursor.view()), ("result_type", self.result_type.view())]) } }
impl Build for m::PaginatedResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("PaginatedResult", v)); } Ok(m::PaginatedResult { meta: fld(v, "meta")?, next_cursor: fld(v, "next_cursor")?, result_type: fld(v, "result_type")? }) } }
impl View for m::ParseError { fn view(&self) -> V { vs(vec![("code", self.code.view()), ("data", self.data.view()), ("message", self.message.view())]) } }
impl Build for m::ParseError { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ParseError", v)); } Ok(m::ParseError { code: fld(v, "code")?, data: fld(v, "data")?, message: fld(v, "message")? }) } }
impl View for m::PrimitiveSchemaDefinition { fn view(&self) -> V { match self { m::PrimitiveSchemaDefinition::UntitledSingleSelectEnumSchema(x) => json!(["E", "UntitledSingleSelectEnumSchema", x.view()]), m::PrimitiveSchemaDefinition::TitledSingleSelectEnumSchema(x) => json!(["E", "TitledSingleSelectEnumSchema", x.view()]), m::PrimitiveSchemaDefinition::UntitledMultiSelectEnumSchema(x) => json!(["E", "UntitledMultiSelectEnumSchema", x.view()]), m::PrimitiveSchemaDefinition::TitledMultiSelectEnumSchema(x) => json!(["E", "TitledMultiSelectEnumSchema", x.view()]), m::PrimitiveSchemaDefinition::LegacyTitledEnumSchema(x) => json!(["E", "LegacyTitledEnumSchema", x.view()]), m::PrimitiveSchemaDefinition::StringSchema(x) => json!(["E", "StringSchema", x.view()]), m::PrimitiveSchemaDefinition::NumberSchema(x) => json!(["E", "NumberSchema", x.view()]), m::PrimitiveSchemaDefinition::BooleanSchema(x) => json!(["E", "BooleanSchema", x.view()]) } } }
impl Build for m::PrimitiveSchemaDefinition { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("PrimitiveSchemaDefinition", v)); } Ok(match v[1].as_str().unwrap_or("") { "UntitledSingleSelectEnumSchema" => m::PrimitiveSchemaDefinition::UntitledSingleSelectEnumSchema(Build::build(&v[2])?), "TitledSingleSelectEnumSchema" => m::PrimitiveSchemaDefinition::TitledSingleSelectEnumSchema(Build::build(&v[2])?), "UntitledMultiSelectEnumSchema" => m::PrimitiveSchemaDefinition::UntitledMultiSelectEnumSchema(Build::build(&v[2])?), "TitledMultiSelectEnumSchema" => m::PrimitiveSchemaDefinition::TitledMultiSelectEnumSchema(Build::build(&v[2])?), "LegacyTitledEnumSchema" => m::PrimitiveSchemaDefinition::LegacyTitledEnumSchema(Build::build(&v[2])?), "StringSchema" => m::PrimitiveSchemaDefinition::StringSchema(Build::build(&v[2])?), "NumberSchema" => m::PrimitiveSchemaDefinition::NumberSchema(Build::build(&v[2])?), "BooleanSchema" => m::PrimitiveSchemaDefinition::BooleanSchema(Build::build(&v[2])?), _ => return Err(bad("PrimitiveSchemaDefinition", v)) }) } }
impl View for m::ProgressNotification { fn view(&self) -> V { vs(vec![("jsonrpc", self.jsonrpc().view()), ("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::ProgressNotification { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ProgressNotification", v)) } }
impl View for m::ProgressNotificationParams { fn view(&self) -> V { vs(vec![("message", self.message.view()), ("meta", self.meta.view()), ("progress", self.progress.view()), ("progress_token", self.progress_token.view()), ("total", self.total.view())]) } }
impl Build for m::ProgressNotificationParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ProgressNotificationParams", v)); } Ok(m::ProgressNotificationParams { message: fld(v, "message")?, meta: fld(v, "meta")?, progress: fld(v, "progress")?, progress_token: fld(v, "progress_token")?, total: fld(v, "total")? }) } }
impl View for m::ProgressToken { fn view(&self) -> V { match self { m::ProgressToken::String(x) => json!(["E", "String", x.view()]), m::ProgressToken::Integer(x) => json!(["E", "Integer", x.view()]) } } }
impl Build for m::ProgressToken { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("ProgressToken", v)); } Ok(match v[1].as_str().unwrap_or("") { "String" => m::ProgressToken::String(Build::build(&v[2])?), "Integer" => m::ProgressToken::Integer(Build::build(&v[2])?), _ => return Err(bad("ProgressToken", v)) }) } }
impl View for m::Prompt { fn view(&self) -> V { vs(vec![("arguments", self.arguments.view()), ("description", self.description.view()), ("icons", self.icons.view()), ("meta", self.meta.view()), ("name", self.name.view()), ("title", self.title.view())]) } }
impl Build for m::Prompt { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("Prompt", v)); } Ok(m::Prompt { arguments: fld(v, "arguments")?, description: fld(v, "description")?, icons: fld(v, "icons")?, meta: fld(v, "meta")?, name: fld(v, "name")?, title: fld(v, "title")? }) } }
impl View for m::PromptArgument { fn view(&self) -> V { vs(vec![("description", self.description.view()), ("name", self.name.view()), ("required", self.required.view()), ("title", self.title.view())]) } }
impl Build for m::PromptArgument { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("PromptArgument", v)); } Ok(m::PromptArgument { description: fld(v, "description")?, name: fld(v, "name")?, required: fld(v, "required")?, title: fld(v, "title")? }) } }
impl View for m::PromptListChangedNotification { fn view(&self) -> V { vs(vec![("jsonrpc", self.jsonrpc().view()), ("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::PromptListChangedNotification { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("PromptListChangedNotification", v)) } }
impl View for m::PromptMessage { fn view(&self) -> V { vs(vec![("content", self.content.view()), ("role", self.role.view())]) } }
impl Build for m::PromptMessage { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("PromptMessage", v)); } Ok(m::PromptMessage { content: fld(v, "content")?, role: fld(v, "role")? }) } }
impl View for m::PromptReference { fn view(&self) -> V { vs(vec![("name", self.name.view()), ("title", self.title.view()), ("type_", self.type_().view())]) } }
impl Build for m::PromptReference { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("PromptReference", v)) } }
impl View for m::ReadResourceContent { fn view(&self) -> V { match self { m::ReadResourceContent::TextResourceContents(x) => json!(["E", "TextResourceContents", x.view()]), m::ReadResourceContent::BlobResourceContents(x) => json!(["E", "BlobResourceContents", x.view()]) } } }
impl Build for m::ReadResourceContent { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("ReadResourceContent", v)); } Ok(match v[1].as_str().unwrap_or("") { "TextResourceContents" => m::ReadResourceContent::TextResourceContents(Build::build(&v[2])?), "BlobResourceContents" => m::ReadResourceContent::BlobResourceContents(Build::build(&v[2])?), _ => return Err(bad("ReadResourceContent", v)) }) } }
impl View for m::ReadResourceRequest { fn view(&self) -> V { vs(vec![("id", self.id.view()), ("jsonrpc", self.jsonrpc().view()), ("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::ReadResourceRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ReadResourceRequest", v)) } }
impl View for m::ReadResourceRequestParams { fn view(&self) -> V { vs(vec![("input_responses", self.input_responses.view()), ("meta", self.meta.view()), ("request_state", self.request_state.view()), ("uri", self.uri.view())]) } }
impl Build for m::ReadResourceRequestParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ReadResourceRequestParams", v)); } Ok(m::ReadResourceRequestParams { input_responses: fld(v, "input_responses")?, meta: fld(v, "meta")?, request_state: fld(v, "request_state")?, uri: fld(v, "uri")? }) } }
impl View for m::ReadResourceResult { fn view(&self) -> V { vs(vec![("cache_scope", self.cache_scope.view()), ("contents", self.contents.view()), ("meta", self.meta.view()), ("result_type", self.result_type.view()), ("ttl_ms", self.ttl_ms.view())]) } }
impl Build for m::ReadResourceResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ReadResourceResult", v)); } Ok(m::ReadResourceResult { cache_scope: fld(v, "cache_scope")?, contents: fld(v, "contents")?, meta: fld(v, "meta")?, result_type: fld(v, "result_type")?, ttl_ms: fld(v, "ttl_ms")? }) } }
impl View for m::ReadResourceResultCacheScope { fn view(&self) -> V { json!(["U", match self { m::ReadResourceResultCacheScope::Private => "Private", m::ReadResourceResultCacheScope::Public => "Public" }]) } }
impl Build for m::ReadResourceResultCacheScope { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Ok(match v[1].as_str().unwrap_or("") { "Private" => m::ReadResourceResultCacheScope::Private, "Public" => m::ReadResourceResultCacheScope::Public, _ => return Err(bad("ReadResourceResultCacheScope", v)) }) } }
impl View for m::ReadResourceResultResponse { fn view(&self) -> V { vs(vec![("id", self.id.view()), ("jsonrpc", self.jsonrpc().view()), ("result", self.result.view())]) } }
impl Build for m::ReadResourceResultResponse { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ReadResourceResultResponse", v)) } }
impl View for m::ReadResourceResultResponseResult { fn view(&self) -> V { match self { m::ReadResourceResultResponseResult::ReadResourceResult(x) => json!(["E", "ReadResourceResult", x.view()]), m::ReadResourceResultResponseResult::InputRequiredResult(x) => json!(["E", "InputRequiredResult", x.view()]) } } }
impl Build for m::ReadResourceResultResponseResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("ReadResourceResultResponseResult", v)); } Ok(match v[1].as_str().unwrap_or("") { "ReadResourceResult" => m::ReadResourceResultResponseResult::ReadResourceResult(Build::build(&v[2])?), "InputRequiredResult" => m::ReadResourceResultResponseResult::InputRequiredResult(Build::build(&v[2])?), _ => return Err(bad("ReadResourceResultResponseResult", v)) }) } }
impl View for m::Request { fn view(&self) -> V { vs(vec![("method", self.method.view()), ("params", self.params.view())]) } }
impl Build for m::Request { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("Request", v)); } Ok(m::Request { method: fld(v, "method")?, params: fld(v, "params")? }) } }
impl View for m::RequestId { fn view(&self) -> V { match self { m::RequestId::String(x) => json!(["E", "String", x.view()]), m::RequestId::Integer(x) => json!(["E", "Integer", x.view()]) } } }
impl Build for m::RequestId { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("RequestId", v)); } Ok(match v[1].as_str().unwrap_or("") { "String" => m::RequestId::String(Build::build(&v[2])?), "Integer" => m::RequestId::Integer(Build::build(&v[2])?), _ => return Err(bad("RequestId", v)) }) } }
impl View for m::RequestMetaObject { fn view(&self) -> V { vs(vec![("client_capabilities", self.client_capabilities.view()), ("client_info", self.client_info.view()), ("log_level", self.log_level.view()), ("protocol_version", self.protocol_version.view()), ("progress_token", self.progress_token.view()), ("extra", self.extra.view())]) } }
impl Build for m::RequestMetaObject { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("RequestMetaObject", v)); } Ok(m::RequestMetaObject { client_capabilities: fld(v, "client_capabilities")?, client_info: fld(v, "client_info")?, log_level: fld(v, "log_level")?, protocol_version: fld(v, "protocol_version")?, progress_token: fld(v, "progress_token")?, extra: fld(v, "extra")? }) } }
impl View for m::RequestParams { fn view(&self) -> V { vs(vec![("meta", self.meta.view())]) } }
impl Build for m::RequestParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("RequestParams", v)); } Ok(m::RequestParams { meta: fld(v, "meta")? }) } }
impl View for m::Resource { fn view(&self) -> V { vs(vec![("annotations", self.annotations.view()), ("description", self.description.view()), ("icons", self.icons.view()), ("meta", self.meta.view()), ("mime_type", self.mime_type.view()), ("name", self.name.view()), ("size", self.size.view()), ("title", self.title.view()), ("uri", self.uri.view())]) } }
impl Build for m::Resource { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("Resource", v)); } Ok(m::Resource { annotations: fld(v, "annotations")?, description: fld(v, "description")?, icons: fld(v, "icons")?, meta: fld(v, "meta")?, mime_type: fld(v, "mime_type")?, name: fld(v, "name")?, size: fld(v, "size")?, title: fld(v, "title")?, uri: fld(v, "uri")? }) } }
impl View for m::ResourceContents { fn view(&self) -> V { vs(vec![("meta", self.meta.view()), ("mime_type", self.mime_type.view()), ("uri", self.uri.view())]) } }
impl Build for m::ResourceContents { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ResourceContents", v)); } Ok(m::ResourceContents { meta: fld(v, "meta")?, mime_type: fld(v, "mime_type")?, uri: fld(v, "uri")? }) } }
impl View for m::ResourceLink { fn view(&self) -> V { vs(vec![("annotations", self.annotations.view()), ("description", self.description.view()), ("icons", self.icons.view()), ("meta", self.meta.view()), ("mime_type", self.mime_type.view()), ("name", self.name.view()), ("size", self.size.view()), ("title", self.title.view()), ("type_", self.type_().view()), ("uri", self.uri.view())]) } }
impl Build for m::ResourceLink { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ResourceLink", v)) } }
impl View for m::ResourceListChangedNotification { fn view(&self) -> V { vs(vec![("jsonrpc", self.jsonrpc().view()), ("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::ResourceListChangedNotification { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ResourceListChangedNotification", v)) } }
impl View for m::ResourceRequestParams { fn view(&self) -> V { vs(vec![("meta", self.meta.view()), ("uri", self.uri.view())]) } }
impl Build for m::ResourceRequestParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ResourceRequestParams", v)); } Ok(m::ResourceRequestParams { meta: fld(v, "meta")?, uri: fld(v, "uri")? }) } }
impl View for m::ResourceTemplate { fn view(&self) -> V { vs(vec![("annotations", self.annotations.view()), ("description", self.description.view()), ("icons", self.icons.view()), ("meta", self.meta.view()), ("mime_type", self.mime_type.view()), ("name", self.name.view()), ("title", self.title.view()), ("uri_template", self.uri_template.view())]) } }
impl Build for m::ResourceTemplate { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ResourceTemplate", v)); } Ok(m::ResourceTemplate { annotations: fld(v, "annotations")?, description: fld(v, "description")?, icons: fld(v, "icons")?, meta: fld(v, "meta")?, mime_type: fld(v, "mime_type")?, name: fld(v, "name")?, title: fld(v, "title")?, uri_template: fld(v, "uri_template")? }) } }
impl View for m::ResourceTemplateReference { fn view(&self) -> V { vs(vec![("type_", self.type_().view()), ("uri", self.uri.view())]) } }
impl Build for m::ResourceTemplateReference { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ResourceTemplateReference", v)) } }
impl View for m::ResourceUpdatedNotification { fn view(&self) -> V { vs(vec![("jsonrpc", self.jsonrpc().view()), ("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::ResourceUpdatedNotification { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ResourceUpdatedNotification", v)) } }
impl View for m::ResourceUpdatedNotificationParams { fn view(&self) -> V { vs(vec![("meta", self.meta.view()), ("uri", self.uri.view())]) } }
impl Build for m::ResourceUpdatedNotificationParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ResourceUpdatedNotificationParams", v)); } Ok(m::ResourceUpdatedNotificationParams { meta: fld(v, "meta")?, uri: fld(v, "uri")? }) } }
impl View for m::Result { fn view(&self) -> V { vs(vec![("meta", self.meta.view()), ("result_type", self.result_type.view()), ("extra", self.extra.view())]) } }
impl Build for m::Result { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("Result", v)); } Ok(m::Result { meta: fld(v, "meta")?, result_type: fld(v, "result_type")?, extra: fld(v, "extra")? }) } }
impl View for m::ResultMetaObject { fn view(&self) -> V { vs(vec![("io_modelcontextprotocol_server_info", self.io_modelcontextprotocol_server_info.view()), ("extra", self.extra.view())]) } }
impl Build for m::ResultMetaObject { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ResultMetaObject", v)); } Ok(m::ResultMetaObject { io_modelcontextprotocol_server_info: fld(v, "io_modelcontextprotocol_server_info")?, extra: fld(v, "extra")? }) } }
impl View for m::ResultType { fn view(&self) -> V { self.0.view() } }
impl Build for m::ResultType { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Ok(m::ResultType(Build::build(v)?)) } }
impl View for m::Role { fn view(&self) -> V { json!(["U", match self { m::Role::Assistant => "Assistant", m::Role::User => "User" }]) } }
impl Build for m::Role { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Ok(match v[1].as_str().unwrap_or("") { "Assistant" => m::Role::Assistant, "User" => m::Role::User, _ => return Err(bad("Role", v)) }) } }
impl View for m::Root { fn view(&self) -> V { vs(vec![("meta", self.meta.view()), ("name", self.name.view()), ("uri", self.uri.view())]) } }
impl Build for m::Root { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("Root", v)); } Ok(m::Root { meta: fld(v, "meta")?, name: fld(v, "name")?, uri: fld(v, "uri")? }) } }
impl View for m::RpcError { fn view(&self) -> V { vs(vec![("code", self.code.view()), ("data", self.data.view()), ("message", self.message.view())]) } }
impl Build for m::RpcError { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("RpcError", v)); } Ok(m::RpcError { code: fld(v, "code")?, data: fld(v, "data")?, message: fld(v, "message")? }) } }
impl View for m::SamplingMessage { fn view(&self) -> V { vs(vec![("content", self.content.view()), ("meta", self.meta.view()), ("role", self.role.view())]) } }
impl Build for m::SamplingMessage { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("SamplingMessage", v)); } Ok(m::SamplingMessage { content: fld(v, "content")?, meta: fld(v, "meta")?, role: fld(v, "role")? }) } }
impl View for m::SamplingMessageContent { fn view(&self) -> V { match self { m::SamplingMessageContent::TextContent(x) => json!(["E", "TextContent", x.view()]), m::SamplingMessageContent::ImageContent(x) => json!(["E", "ImageContent", x.view()]), m::SamplingMessageContent::AudioContent(x) => json!(["E", "AudioContent", x.view()]), m::SamplingMessageContent::ToolUseContent(x) => json!(["E", "ToolUseContent", x.view()]), m::SamplingMessageContent::ToolResultContent(x) => json!(["E", "ToolResultContent", x.view()]), m::SamplingMessageContent::SamplingMessageContentBlock(x) => json!(["E", "SamplingMessageContentBlock", x.view()]) } } }
impl Build for m::SamplingMessageContent { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("SamplingMessageContent", v)); } Ok(match v[1].as_str().unwrap_or("") { "TextContent" => m::SamplingMessageContent::TextContent(Build::build(&v[2])?), "ImageContent" => m::SamplingMessageContent::ImageContent(Build::build(&v[2])?), "AudioContent" => m::SamplingMessageContent::AudioContent(Build::build(&v[2])?), "ToolUseContent" => m::SamplingMessageContent::ToolUseContent(Build::build(&v[2])?), "ToolResultContent" => m::SamplingMessageContent::ToolResultContent(Build::build(&v[2])?), "SamplingMessageContentBlock" => m::SamplingMessageContent::SamplingMessageContentBlock(Build::build(&v[2])?), _ => return Err(bad("SamplingMessageContent", v)) }) } }
impl View for m::SamplingMessageContentBlock { fn view(&self) -> V { match self { m::SamplingMessageContentBlock::TextContent(x) => json!(["E", "TextContent", x.view()]), m::SamplingMessageContentBlock::ImageContent(x) => json!(["E", "ImageContent", x.view()]), m::SamplingMessageContentBlock::AudioContent(x) => json!(["E", "AudioContent", x.view()]), m::SamplingMessageContentBlock::ToolUseContent(x) => json!(["E", "ToolUseContent", x.view()]), m::SamplingMessageContentBlock::ToolResultContent(x) => json!(["E", "ToolResultContent", x.view()]) } } }
impl Build for m::SamplingMessageContentBlock { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("SamplingMessageContentBlock", v)); } Ok(match v[1].as_str().unwrap_or("") { "TextContent" => m::SamplingMessageContentBlock::TextContent(Build::build(&v[2])?), "ImageContent" => m::SamplingMessageContentBlock::ImageContent(Build::build(&v[2])?), "AudioContent" => m::SamplingMessageContentBlock::AudioContent(Build::build(&v[2])?), "ToolUseContent" => m::SamplingMessageContentBlock::ToolUseContent(Build::build(&v[2])?), "ToolResultContent" => m::SamplingMessageContentBlock::ToolResultContent(Build::build(&v[2])?), _ => return Err(bad("SamplingMessageContentBlock", v)) }) } }
impl View for m::ServerCapabilities { fn view(&self) -> V { vs(vec![("completions", self.completions.view()), ("experimental", self.experimental.view()), ("extensions", self.extensions.view()), ("logging", self.logging.view()), ("prompts", self.prompts.view()), ("resources", self.resources.view()), ("tools", self.tools.view())]) } }
impl Build for m::ServerCapabilities { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ServerCapabilities", v)); } Ok(m::ServerCapabilities { completions: fld(v, "completions")?, experimental: fld(v, "experimental")?, extensions: fld(v, "extensions")?, logging: fld(v, "logging")?, prompts: fld(v, "prompts")?, resources: fld(v, "resources")?, tools: fld(v, "tools")? }) } }
impl View for m::ServerCapabilitiesPrompts { fn view(&self) -> V { vs(vec![("list_changed", self.list_changed.view())]) } }
impl Build for m::ServerCapabilitiesPrompts { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ServerCapabilitiesPrompts", v)); } Ok(m::ServerCapabilitiesPrompts { list_changed: fld(v, "list_changed")? }) } }
impl View for m::ServerCapabilitiesResources { fn view(&self) -> V { vs(vec![("list_changed", self.list_changed.view()), ("subscribe", self.subscribe.view())]) } }
impl Build for m::ServerCapabilitiesResources { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ServerCapabilitiesResources", v)); } Ok(m::ServerCapabilitiesResources { list_changed: fld(v, "list_changed")?, subscribe: fld(v, "subscribe")? }) } }
impl View for m::ServerCapabilitiesTools { fn view(&self) -> V { vs(vec![("list_changed", self.list_changed.view())]) } }
impl Build for m::ServerCapabilitiesTools { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ServerCapabilitiesTools", v)); } Ok(m::ServerCapabilitiesTools { list_changed: fld(v, "list_changed")? }) } }
impl View for m::ServerNotification { fn view(&self) -> V { match self { m::ServerNotification::CancelledNotification(x) => json!(["E", "CancelledNotification", x.view()]), m::ServerNotification::ProgressNotification(x) => json!(["E", "ProgressNotification", x.view()]), m::ServerNotification::ResourceListChangedNotification(x) => json!(["E", "ResourceListChangedNotification", x.view()]), m::ServerNotification::SubscriptionsAcknowledgedNotification(x) => json!(["E", "SubscriptionsAcknowledgedNotification", x.view()]), m::ServerNotification::ResourceUpdatedNotification(x) => json!(["E", "ResourceUpdatedNotification", x.view()]), m::ServerNotification::PromptListChangedNotification(x) => json!(["E", "PromptListChangedNotification", x.view()]), m::ServerNotification::ToolListChangedNotification(x) => json!(["E", "ToolListChangedNotification", x.view()]), m::ServerNotification::LoggingMessageNotification(x) => json!(["E", "LoggingMessageNotification", x.view()]) } } }
impl Build for m::ServerNotification { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("ServerNotification", v)); } Ok(match v[1].as_str().unwrap_or("") { "CancelledNotification" => m::ServerNotification::CancelledNotification(Build::build(&v[2])?), "ProgressNotification" => m::ServerNotification::ProgressNotification(Build::build(&v[2])?), "ResourceListChangedNotification" => m::ServerNotification::ResourceListChangedNotification(Build::build(&v[2])?), "SubscriptionsAcknowledgedNotification" => m::ServerNotification::SubscriptionsAcknowledgedNotification(Build::build(&v[2])?), "ResourceUpdatedNotification" => m::ServerNotification::ResourceUpdatedNotification(Build::build(&v[2])?), "PromptListChangedNotification" => m::ServerNotification::PromptListChangedNotification(Build::build(&v[2])?), "ToolListChangedNotification" => m::ServerNotification::ToolListChangedNotification(Build::build(&v[2])?), "LoggingMessageNotification" => m::ServerNotification::LoggingMessageNotification(Build::build(&v[2])?), _ => return Err(bad("ServerNotification", v)) }) } }
impl View for m::ServerResult { fn view(&self) -> V { match self { m::ServerResult::InputRequiredResult(x) => json!(["E", "InputRequiredResult", x.view()]), m::ServerResult::DiscoverResult(x) => json!(["E", "DiscoverResult", x.view()]), m::ServerResult::ListResourcesResult(x) => json!(["E", "ListResourcesResult", x.view()]), m::ServerResult::ListResourceTemplatesResult(x) => json!(["E", "ListResourceTemplatesResult", x.view()]), m::ServerResult::ReadResourceResult(x) => json!(["E", "ReadResourceResult", x.view()]), m::ServerResult::SubscriptionsListenResult(x) => json!(["E", "SubscriptionsListenResult", x.view()]), m::ServerResult::ListPromptsResult(x) => json!(["E", "ListPromptsResult", x.view()]), m::ServerResult::GetPromptResult(x) => json!(["E", "GetPromptResult", x.view()]), m::ServerResult::ListToolsResult(x) => json!(["E", "ListToolsResult", x.view()]), m::ServerResult::CallToolResult(x) => json!(["E", "CallToolResult", x.view()]), m::ServerResult::CompleteResult(x) => json!(["E", "CompleteResult", x.view()]), m::ServerResult::Result(x) => json!(["E", "Result", x.view()]) } } }
impl Build for m::ServerResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("ServerResult", v)); } Ok(match v[1].as_str().unwrap_or("") { "InputRequiredResult" => m::ServerResult::InputRequiredResult(Build::build(&v[2])?), "DiscoverResult" => m::ServerResult::DiscoverResult(Build::build(&v[2])?), "ListResourcesResult" => m::ServerResult::ListResourcesResult(Build::build(&v[2])?), "ListResourceTemplatesResult" => m::ServerResult::ListResourceTemplatesResult(Build::build(&v[2])?), "ReadResourceResult" => m::ServerResult::ReadResourceResult(Build::build(&v[2])?), "SubscriptionsListenResult" => m::ServerResult::SubscriptionsListenResult(Build::build(&v[2])?), "ListPromptsResult" => m::ServerResult::ListPromptsResult(Build::build(&v[2])?), "GetPromptResult" => m::ServerResult::GetPromptResult(Build::build(&v[2])?), "ListToolsResult" => m::ServerResult::ListToolsResult(Build::build(&v[2])?), "CallToolResult" => m::ServerResult::CallToolResult(Build::build(&v[2])?), "CompleteResult" => m::ServerResult::CompleteResult(Build::build(&v[2])?), "Result" => m::ServerResult::Result(Build::build(&v[2])?), _ => return Err(bad("ServerResult", v)) }) } }
impl View for m::SingleSelectEnumSchema { fn view(&self) -> V { match self { m::SingleSelectEnumSchema::UntitledSingleSelectEnumSchema(x) => json!(["E", "UntitledSingleSelectEnumSchema", x.view()]), m::SingleSelectEnumSchema::TitledSingleSelectEnumSchema(x) => json!(["E", "TitledSingleSelectEnumSchema", x.view()]) } } }
impl Build for m::SingleSelectEnumSchema { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("SingleSelectEnumSchema", v)); } Ok(match v[1].as_str().unwrap_or("") { "UntitledSingleSelectEnumSchema" => m::SingleSelectEnumSchema::UntitledSingleSelectEnumSchema(Build::build(&v[2])?), "TitledSingleSelectEnumSchema" => m::SingleSelectEnumSchema::TitledSingleSelectEnumSchema(Build::build(&v[2])?), _ => return Err(bad("SingleSelectEnumSchema", v)) }) } }
impl View for m::StringSchema { fn view(&self) -> V { vs(vec![("default", self.default.view()), ("description", self.description.view()), ("format", self.format.view()), ("max_length", self.max_length.view()), ("min_length", self.min_length.view()), ("title", self.title.view()), ("type_", self.type_().view())]) } }
impl Build for m::StringSchema { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("StringSchema", v)) } }
impl View for m::StringSchemaFormat { fn view(&self) -> V { json!(["U", match self { m::StringSchemaFormat::Date => "Date", m::StringSchemaFormat::DateTime => "DateTime", m::StringSchemaFormat::Email => "Email", m::StringSchemaFormat::Uri => "Uri" }]) } }
impl Build for m::StringSchemaFormat { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Ok(match v[1].as_str().unwrap_or("") { "Date" => m::StringSchemaFormat::Date, "DateTime" => m::StringSchemaFormat::DateTime, "Email" => m::StringSchemaFormat::Email, "Uri" => m::StringSchemaFormat::Uri, _ => return Err(bad("StringSchemaFormat", v)) }) } }
impl View for m::SubscriptionFilter { fn view(&self) -> V { vs(vec![("prompts_list_changed", self.prompts_list_changed.view()), ("resource_subscriptions", self.resource_subscriptions.view()), ("resources_list_changed", self.resources_list_changed.view()), ("tools_list_changed", self.tools_list_changed.view())]) } }
impl Build for m::SubscriptionFilter { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("SubscriptionFilter", v)); } Ok(m::SubscriptionFilter { prompts_list_changed: fld(v, "prompts_list_changed")?, resource_subscriptions: fld(v, "resource_subscriptions")?, resources_list_changed: fld(v, "resources_list_changed")?, tools_list_changed: fld(v, "tools_list_changed")? }) } }
impl View for m::SubscriptionsAcknowledgedNotification { fn view(&self) -> V { vs(vec![("jsonrpc", self.jsonrpc().view()), ("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::SubscriptionsAcknowledgedNotification { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("SubscriptionsAcknowledgedNotification", v)) } }
impl View for m::SubscriptionsAcknowledgedNotificationParams { fn view(&self) -> V { vs(vec![("meta", self.meta.view()), ("notifications", self.notifications.view())]) } }
impl Build for m::SubscriptionsAcknowledgedNotificationParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("SubscriptionsAcknowledgedNotificationParams", v)); } Ok(m::SubscriptionsAcknowledgedNotificationParams { meta: fld(v, "meta")?, notifications: fld(v, "notifications")? }) } }
impl View for m::SubscriptionsListenRequest { fn view(&self) -> V { vs(vec![("id", self.id.view()), ("jsonrpc", self.jsonrpc().view()), ("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::SubscriptionsListenRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("SubscriptionsListenRequest", v)) } }
impl View for m::SubscriptionsListenRequestParams { fn view(&self) -> V { vs(vec![("meta", self.meta.view()), ("notifications", self.notifications.view())]) } }
impl Build for m::SubscriptionsListenRequestParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("SubscriptionsListenRequestParams", v)); } Ok(m::SubscriptionsListenRequestParams { meta: fld(v, "meta")?, notifications: fld(v, "notifications")? }) } }
impl View for m::SubscriptionsListenResult { fn view(&self) -> V { vs(vec![("meta", self.meta.view()), ("result_type", self.result_type.view())]) } }
impl Build for m::SubscriptionsListenResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("SubscriptionsListenResult", v)); } Ok(m::SubscriptionsListenResult { meta: fld(v, "meta")?, result_type: fld(v, "result_type")? }) } }
impl View for m::SubscriptionsListenResultMetaObject { fn view(&self) -> V { vs(vec![("io_modelcontextprotocol_server_info", self.io_modelcontextprotocol_server_info.view()), ("io_modelcontextprotocol_subscription_id", self.io_modelcontextprotocol_subscription_id.view()), ("extra", self.extra.view())]) } }
impl Build for m::SubscriptionsListenResultMetaObject { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("SubscriptionsListenResultMetaObject", v)); } Ok(m::SubscriptionsListenResultMetaObject { io_modelcontextprotocol_server_info: fld(v, "io_modelcontextprotocol_server_info")?, io_modelcontextprotocol_subscription_id: fld(v, "io_modelcontextprotocol_subscription_id")?, extra: fld(v, "extra")? }) } }
impl View for m::SubscriptionsListenResultResponse { fn view(&self) -> V { vs(vec![("id", self.id.view()), ("jsonrpc", self.jsonrpc().view()), ("result", self.result.view())]) } }
impl Build for m::SubscriptionsListenResultResponse { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("SubscriptionsListenResultResponse", v)) } }
impl View for m::TextContent { fn view(&self) -> V { vs(vec![("annotations", self.annotations.view()), ("meta", self.meta.view()), ("text", self.text.view()), ("type_", self.type_().view())]) } }
impl Build for m::TextContent { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("TextContent", v)) } }
impl View for m::TextResourceContents { fn view(&self) -> V { vs(vec![("meta", self.meta.view()), ("mime_type", self.mime_type.view()), ("text", self.text.view()), ("uri", self.uri.view())]) } }
impl Build for m::TextResourceContents { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("TextResourceContents", v)); } Ok(m::TextResourceContents { meta: fld(v, "meta")?, mime_type: fld(v, "mime_type")?, text: fld(v, "text")?, uri: fld(v, "uri")? }) } }
impl View for m::TitledMultiSelectEnumSchema { fn view(&self) -> V { vs(vec![("default", self.default.view()), ("description", self.description.view()), ("items", self.items.view()), ("max_items", self.max_items.view()), ("min_items", self.min_items.view()), ("title", self.title.view()), ("type_", self.type_().view())]) } }
impl Build for m::TitledMultiSelectEnumSchema { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("TitledMultiSelectEnumSchema", v)) } }
impl View for m::TitledMultiSelectEnumSchemaItems { fn view(&self) -> V { vs(vec![("any_of", self.any_of.view())]) } }
impl Build for m::TitledMultiSelectEnumSchemaItems { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("TitledMultiSelectEnumSchemaItems", v)); } Ok(m::TitledMultiSelectEnumSchemaItems { any_of: fld(v, "any_of")? }) } }
impl View for m::TitledMultiSelectEnumSchemaItemsAnyOfItem { fn view(&self) -> V { vs(vec![("const_", self.const_.view()), ("title", self.title.view())]) } }
impl Build for m::TitledMultiSelectEnumSchemaItemsAnyOfItem { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("TitledMultiSelectEnumSchemaItemsAnyOfItem", v)); } Ok(m::TitledMultiSelectEnumSchemaItemsAnyOfItem { const_: fld(v, "const_")?, title: fld(v, "title")? }) } }
impl View for m::TitledSingleSelectEnumSchema { fn view(&self) -> V { vs(vec![("default", self.default.view()), ("description", self.description.view()), ("one_of", self.one_of.view()), ("title", self.title.view()), ("type_", self.type_().view())]) } }
impl Build for m::TitledSingleSelectEnumSchema { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("TitledSingleSelectEnumSchema", v)) } }
impl View for m::TitledSingleSelectEnumSchemaOneOfItem { fn view(&self) -> V { vs(vec![("const_", self.const_.view()), ("title", self.title.view())]) } }
impl Build for m::TitledSingleSelectEnumSchemaOneOfItem { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("TitledSingleSelectEnumSchemaOneOfItem", v)); } Ok(m::TitledSingleSelectEnumSchemaOneOfItem { const_: fld(v, "const_")?, title: fld(v, "title")? }) } }
impl View for m::Tool { fn view(&self) -> V { vs(vec![("annotations", self.annotations.view()), ("description", self.description.view()), ("icons", self.icons.view()), ("input_schema", self.input_schema.view()), ("meta", self.meta.view()), ("name", self.name.view()), ("output_schema", self.output_schema.view()), ("title", self.title.view())]) } }
impl Build for m::Tool { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("Tool", v)); } Ok(m::Tool { annotations: fld(v, "annotations")?, description: fld(v, "description")?, icons: fld(v, "icons")?, input_schema: fld(v, "input_schema")?, meta: fld(v, "meta")?, name: fld(v, "name")?, output_schema: fld(v, "output_schema")?, title: fld(v, "title")? }) } }
impl View for m::ToolAnnotations { fn view(&self) -> V { vs(vec![("destructive_hint", self.destructive_hint.view()), ("idempotent_hint", self.idempotent_hint.view()), ("open_world_hint", self.open_world_hint.view()), ("read_only_hint", self.read_only_hint.view()), ("title", self.title.view())]) } }
impl Build for m::ToolAnnotations { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ToolAnnotations", v)); } Ok(m::ToolAnnotations { destructive_hint: fld(v, "destructive_hint")?, idempotent_hint: fld(v, "idempotent_hint")?, open_world_hint: fld(v, "open_world_hint")?, read_only_hint: fld(v, "read_only_hint")?, title: fld(v, "title")? }) } }
impl View for m::ToolChoice { fn view(&self) -> V { vs(vec![("mode", self.mode.view())]) } }
impl Build for m::ToolChoice { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ToolChoice", v)); } Ok(m::ToolChoice { mode: fld(v, "mode")? }) } }
impl View for m::ToolChoiceMode { fn view(&self) -> V { json!(["U", match self { m::ToolChoiceMode::Auto => "Auto", m::ToolChoiceMode::None => "None", m::ToolChoiceMode::Required => "Required" }]) } }
impl Build for m::ToolChoiceMode { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Ok(match v[1].as_str().unwrap_or("") { "Auto" => m::ToolChoiceMode::Auto, "None" => m::ToolChoiceMode::None, "Required" => m::ToolChoiceMode::Required, _ => return Err(bad("ToolChoiceMode", v)) }) } }
impl View for m::ToolInputSchema { fn view(&self) -> V { vs(vec![("schema", self.schema.view()), ("type_", self.type_().view()), ("extra", self.extra.view())]) } }
impl Build for m::ToolInputSchema { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ToolInputSchema", v)) } }
impl View for m::ToolListChangedNotification { fn view(&self) -> V { vs(vec![("jsonrpc", self.jsonrpc().view()), ("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::ToolListChangedNotification { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ToolListChangedNotification", v)) } }
impl View for m::ToolOutputSchema { fn view(&self) -> V { vs(vec![("schema", self.schema.view()), ("extra", self.extra.view())]) } }
impl Build for m::ToolOutputSchema { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ToolOutputSchema", v)); } Ok(m::ToolOutputSchema { schema: fld(v, "schema")?, extra: fld(v, "extra")? }) } }
impl View for m::ToolResultContent { fn view(&self) -> V { vs(vec![("content", self.content.view()), ("is_error", self.is_error.view()), ("meta", self.meta.view()), ("structured_content", self.structured_content.view()), ("tool_use_id", self.tool_use_id.view()), ("type_", self.type_().view())]) } }
impl Build for m::ToolResultContent { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ToolResultContent", v)) } }
impl View for m::ToolUseContent { fn view(&self) -> V { vs(vec![("id", self.id.view()), ("input", self.input.view()), ("meta", self.meta.view()), ("name", self.name.view()), ("type_", self.type_().view())]) } }
impl Build for m::ToolUseContent { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ToolUseContent", v)) } }
impl View for m::UnsupportedProtocolVersionError { fn view(&self) -> V { vs(vec![("error", self.error.view()), ("id", self.id.view()), ("jsonrpc", self.jsonrpc().view())]) } }
impl Build for m::UnsupportedProtocolVersionError { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("UnsupportedProtocolVersionError", v)) } }
impl View for m::UnsupportedProtocolVersionErrorError { fn view(&self) -> V { vs(vec![("code", self.code.view()), ("data", self.data.view()), ("message", self.message.view())]) } }
impl Build for m::UnsupportedProtocolVersionErrorError { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("UnsupportedProtocolVersionErrorError", v)); } Ok(m::UnsupportedProtocolVersionErrorError { code: fld(v, "code")?, data: fld(v, "data")?, message: fld(v, "message")? }) } }
impl View for m::UnsupportedProtocolVersionErrorErrorData { fn view(&self) -> V { vs(vec![("requested", self.requested.view()), ("supported", self.supported.view())]) } }
impl Build for m::UnsupportedProtocolVersionErrorErrorData { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("UnsupportedProtocolVersionErrorErrorData", v)); } Ok(m::UnsupportedProtocolVersionErrorErrorData { requested: fld(v, "requested")?, supported: fld(v, "supported")? }) } }
impl View for m::UntitledMultiSelectEnumSchema { fn view(&self) -> V { vs(vec![("default", self.default.view()), ("description", self.description.view()), ("items", self.items.view()), ("max_items", self.max_items.view()), ("min_items", self.min_items.view()), ("title", self.title.view()), ("type_", self.type_().view())]) } }
impl Build for m::UntitledMultiSelectEnumSchema { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("UntitledMultiSelectEnumSchema", v)) } }
impl View for m::UntitledMultiSelectEnumSchemaItems { fn view(&self) -> V { vs(vec![("enum_", self.enum_.view()), ("type_", self.type_().view())]) } }
impl Build for m::UntitledMultiSelectEnumSchemaItems { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("UntitledMultiSelectEnumSchemaItems", v)) } }
impl View for m::UntitledSingleSelectEnumSchema { fn view(&self) -> V { vs(vec![("default", self.default.view()), ("description", self.description.view()), ("enum_", self.enum_.view()), ("title", self.title.view()), ("type_", self.type_().view())]) } }
impl Build for m::UntitledSingleSelectEnumSchema { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("UntitledSingleSelectEnumSchema", v)) } }
impl View for u::MessageTypes { fn view(&self) -> V { json!(["U", match self { u::MessageTypes::Request => "Request", u::MessageTypes::Response => "Response", u::MessageTypes::Notification => "Notification", u::MessageTypes::Error => "Error" }]) } }
impl Build for u::MessageTypes { fn build(v: &V) -> R<Self> {  Ok(match v[1].as_str().unwrap_or("") { "Request" => u::MessageTypes::Request, "Response" => u::MessageTypes::Response, "Notification" => u::MessageTypes::Notification, "Error" => u::MessageTypes::Error, _ => return Err(bad("MessageTypes", v)) }) } }
impl View for u::ClientMessage { fn view(&self) -> V { match self { u::ClientMessage::Request(x) => json!(["E", "Request", x.view()]), u::ClientMessage::Notification(x) => json!(["E", "Notification", x.view()]), u::ClientMessage::Response(x) => json!(["E", "Response", x.view()]), u::ClientMessage::Error(x) => json!(["E", "Error", x.view()]) } } }
impl Build for u::ClientMessage { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("ClientMessage", v)); } Ok(match v[1].as_str().unwrap_or("") { "Request" => u::ClientMessage::Request(Build::build(&v[2])?), "Notification" => u::ClientMessage::Notification(Build::build(&v[2])?), "Response" => u::ClientMessage::Response(Build::build(&v[2])?), "Error" => u::ClientMessage::Error(Build::build(&v[2])?), _ => return Err(bad("ClientMessage", v)) }) } }
impl View for u::ClientJsonrpcRequest { fn view(&self) -> V { match self { u::ClientJsonrpcRequest::Standard(x) => json!(["E", "Standard", x.view()]), u::ClientJsonrpcRequest::Custom(x) => json!(["E", "Custom", x.view()]) } } }
impl Build for u::ClientJsonrpcRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("ClientJsonrpcRequest", v)); } Ok(match v[1].as_str().unwrap_or("") { "Standard" => u::ClientJsonrpcRequest::Standard(Build::build(&v[2])?), "Custom" => u::ClientJsonrpcRequest::Custom(Build::build(&v[2])?), _ => return Err(bad("ClientJsonrpcRequest", v)) }) } }
impl View for u::RequestFromClient { fn view(&self) -> V { match self { u::RequestFromClient::ListResourcesRequest(x) => json!(["E", "ListResourcesRequest", x.view()]), u::RequestFromClient::ListResourceTemplatesRequest(x) => json!(["E", "ListResourceTemplatesRequest", x.view()]), u::RequestFromClient::ReadResourceRequest(x) => json!(["E", "ReadResourceRequest", x.view()]), u::RequestFromClient::ListPromptsRequest(x) => json!(["E", "ListPromptsRequest", x.view()]), u::RequestFromClient::GetPromptRequest(x) => json!(["E", "GetPromptRequest", x.view()]), u::RequestFromClient::ListToolsRequest(x) => json!(["E", "ListToolsRequest", x.view()]), u::RequestFromClient::CallToolRequest(x) => json!(["E", "CallToolRequest", x.view()]), u::RequestFromClient::CompleteRequest(x) => json!(["E", "CompleteRequest", x.view()]), u::RequestFromClient::DiscoverRequest(x) => json!(["E", "DiscoverRequest", x.view()]), u::RequestFromClient::SubscriptionsListenRequest(x) => json!(["E", "SubscriptionsListenRequest", x.view()]), u::RequestFromClient::CustomRequest(x) => json!(["E", "CustomRequest", x.view()]) } } }
impl Build for u::RequestFromClient { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("RequestFromClient", v)); } Ok(match v[1].as_str().unwrap_or("") { "ListResourcesRequest" => u::RequestFromClient::ListResourcesRequest(Build::build(&v[2])?), "ListResourceTemplatesRequest" => u::RequestFromClient::ListResourceTemplatesRequest(Build::build(&v[2])?), "ReadResourceRequest" => u::RequestFromClient::ReadResourceRequest(Build::build(&v[2])?), "ListPromptsRequest" => u::RequestFromClient::ListPromptsRequest(Build::build(&v[2])?), "GetPromptRequest" => u::RequestFromClient::GetPromptRequest(Build::build(&v[2])?), "ListToolsRequest" => u::RequestFromClient::ListToolsRequest(Build::build(&v[2])?), "CallToolRequest" => u::RequestFromClient::CallToolRequest(Build::build(&v[2])?), "CompleteRequest" => u::RequestFromClient::CompleteRequest(Build::build(&v[2])?), "DiscoverRequest" => u::RequestFromClient::DiscoverRequest(Build::build(&v[2])?), "SubscriptionsListenRequest" => u::RequestFromClient::SubscriptionsListenRequest(Build::build(&v[2])?), "CustomRequest" => u::RequestFromClient::CustomRequest(Build::build(&v[2])?), _ => return Err(bad("RequestFromClient", v)) }) } }
impl View for u::ClientJsonrpcNotification { fn view(&self) -> V { match self { u::ClientJsonrpcNotification::CancelledNotification(x) => json!(["E", "CancelledNotification", x.view()]), u::ClientJsonrpcNotification::CustomNotification(x) => json!(["E", "CustomNotification", x.view()]) } } }
impl Build for u::ClientJsonrpcNotification { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("ClientJsonrpcNotification", v)); } Ok(match v[1].as_str().unwrap_or("") { "CancelledNotification" => u::ClientJsonrpcNotification::CancelledNotification(Build::build(&v[2])?), "CustomNotification" => u::ClientJsonrpcNotification::CustomNotification(Build::build(&v[2])?), _ => return Err(bad("ClientJsonrpcNotification", v)) }) } }
impl View for u::NotificationFromClient { fn view(&self) -> V { match self { u::NotificationFromClient::CancelledNotification(x) => json!(["E", "CancelledNotification", x.view()]), u::NotificationFromClient::CustomNotification(x) => json!(["E", "CustomNotification", x.view()]) } } }
impl Build for u::NotificationFromClient { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("NotificationFromClient", v)); } Ok(match v[1].as_str().unwrap_or("") { "CancelledNotification" => u::NotificationFromClient::CancelledNotification(Build::build(&v[2])?), "CustomNotification" => u::NotificationFromClient::CustomNotification(Build::build(&v[2])?), _ => return Err(bad("NotificationFromClient", v)) }) } }
impl View for u::ClientJsonrpcResponse { fn view(&self) -> V { vs(vec![("id", self.id.view()), ("jsonrpc", self.jsonrpc().view()), ("result", self.result.view())]) } }
impl Build for u::ClientJsonrpcResponse { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ClientJsonrpcResponse", v)) } }
impl View for u::ResultFromClient { fn view(&self) -> V { match self { u::ResultFromClient::CreateMessageResult(x) => json!(["E", "CreateMessageResult", x.view()]), u::ResultFromClient::ListRootsResult(x) => json!(["E", "ListRootsResult", x.view()]), u::ResultFromClient::ElicitResult(x) => json!(["E", "ElicitResult", x.view()]), u::ResultFromClient::Result(x) => json!(["E", "Result", x.view()]) } } }
impl Build for u::ResultFromClient { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("ResultFromClient", v)); } Ok(match v[1].as_str().unwrap_or("") { "CreateMessageResult" => u::ResultFromClient::CreateMessageResult(Build::build(&v[2])?), "ListRootsResult" => u::ResultFromClient::ListRootsResult(Build::build(&v[2])?), "ElicitResult" => u::ResultFromClient::ElicitResult(Build::build(&v[2])?), "Result" => u::ResultFromClient::Result(Build::build(&v[2])?), _ => return Err(bad("ResultFromClient", v)) }) } }
impl View for u::ServerMessage { fn view(&self) -> V { match self { u::ServerMessage::Request(x) => json!(["E", "Request", x.view()]), u::ServerMessage::Notification(x) => json!(["E", "Notification", x.view()]), u::ServerMessage::Response(x) => json!(["E", "Response", x.view()]), u::ServerMessage::Error(x) => json!(["E", "Error", x.view()]) } } }
impl Build for u::ServerMessage { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("ServerMessage", v)); } Ok(match v[1].as_str().unwrap_or("") { "Request" => u::ServerMessage::Request(Build::build(&v[2])?), "Notification" => u::ServerMessage::Notification(Build::build(&v[2])?), "Response" => u::ServerMessage::Response(Build::build(&v[2])?), "Error" => u::ServerMessage::Error(Build::build(&v[2])?), _ => return Err(bad("ServerMessage", v)) }) } }
impl View for u::ServerJsonrpcRequest { fn view(&self) -> V { match self { u::ServerJsonrpcRequest::CreateMessageRequest { id, jsonrpc, request } => json!(["E", "CreateMessageRequest", vs(vec![("id", id.view()), ("jsonrpc", jsonrpc.view()), ("request", request.view())])]), u::ServerJsonrpcRequest::ListRootsRequest { id, jsonrpc, request } => json!(["E", "ListRootsRequest", vs(vec![("id", id.view()), ("jsonrpc", jsonrpc.view()), ("request", request.view())])]), u::ServerJsonrpcRequest::ElicitRequest { id, jsonrpc, request } => json!(["E", "ElicitRequest", vs(vec![("id", id.view()), ("jsonrpc", jsonrpc.view()), ("request", request.view())])]), u::ServerJsonrpcRequest::CustomRequest(x) => json!(["E", "CustomRequest", x.view()]) } } }
impl Build for u::ServerJsonrpcRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("ServerJsonrpcRequest", v)); } Ok(match v[1].as_str().unwrap_or("") { "CreateMessageRequest" => u::ServerJsonrpcRequest::CreateMessageRequest { id: fld(&v[2], "id")?, jsonrpc: fld(&v[2], "jsonrpc")?, request: fld(&v[2], "request")? }, "ListRootsRequest" => u::ServerJsonrpcRequest::ListRootsRequest { id: fld(&v[2], "id")?, jsonrpc: fld(&v[2], "jsonrpc")?, request: fld(&v[2], "request")? }, "ElicitRequest" => u::ServerJsonrpcRequest::ElicitRequest { id: fld(&v[2], "id")?, jsonrpc: fld(&v[2], "jsonrpc")?, request: fld(&v[2], "request")? }, "CustomRequest" => u::ServerJsonrpcRequest::CustomRequest(Build::build(&v[2])?), _ => return Err(bad("ServerJsonrpcRequest", v)) }) } }
impl View for u::CustomRequest { fn view(&self) -> V { vs(vec![("method", self.method.view()), ("params", self.params.view())]) } }
impl Build for u::CustomRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("CustomRequest", v)); } Ok(u::CustomRequest { method: fld(v, "method")?, params: fld(v, "params")? }) } }
impl View for u::RequestFromServer { fn view(&self) -> V { match self { u::RequestFromServer::CreateMessageRequest(x) => json!(["E", "CreateMessageRequest", x.view()]), u::RequestFromServer::ListRootsRequest(x) => json!(["E", "ListRootsRequest", x.view()]), u::RequestFromServer::ElicitRequest(x) => json!(["E", "ElicitRequest", x.view()]), u::RequestFromServer::CustomRequest(x) => json!(["E", "CustomRequest", x.view()]) } } }
impl Build for u::RequestFromServer { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("RequestFromServer", v)); } Ok(match v[1].as_str().unwrap_or("") { "CreateMessageRequest" => u::RequestFromServer::CreateMessageRequest(Build::build(&v[2])?), "ListRootsRequest" => u::RequestFromServer::ListRootsRequest(Build::build(&v[2])?), "ElicitRequest" => u::RequestFromServer::ElicitRequest(Build::build(&v[2])?), "CustomRequest" => u::RequestFromServer::CustomRequest(Build::build(&v[2])?), _ => return Err(bad("RequestFromServer", v)) }) } }
impl View for u::ServerJsonrpcNotification { fn view(&self) -> V { match self { u::ServerJsonrpcNotification::Standard(x) => json!(["E", "Standard", x.view()]), u::ServerJsonrpcNotification::Custom(x) => json!(["E", "Custom", x.view()]) } } }
impl Build for u::ServerJsonrpcNotification { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("ServerJsonrpcNotification", v)); } Ok(match v[1].as_str().unwrap_or("") { "Standard" => u::ServerJsonrpcNotification::Standard(Build::build(&v[2])?), "Custom" => u::ServerJsonrpcNotification::Custom(Build::build(&v[2])?), _ => return Err(bad("ServerJsonrpcNotification", v)) }) } }
impl View for u::NotificationFromServer { fn view(&self) -> V { match self { u::NotificationFromServer::CancelledNotification(x) => json!(["E", "CancelledNotification", x.view()]), u::NotificationFromServer::ProgressNotification(x) => json!(["E", "ProgressNotification", x.view()]), u::NotificationFromServer::ResourceListChangedNotification(x) => json!(["E", "ResourceListChangedNotification", x.view()]), u::NotificationFromServer::ResourceUpdatedNotification(x) => json!(["E", "ResourceUpdatedNotification", x.view()]), u::NotificationFromServer::PromptListChangedNotification(x) => json!(["E", "PromptListChangedNotification", x.view()]), u::NotificationFromServer::ToolListChangedNotification(x) => json!(["E", "ToolListChangedNotification", x.view()]), u::NotificationFromServer::LoggingMessageNotification(x) => json!(["E", "LoggingMessageNotification", x.view()]), u::NotificationFromServer::SubscriptionsAcknowledgedNotification(x) => json!(["E", "SubscriptionsAcknowledgedNotification", x.view()]), u::NotificationFromServer::CustomNotification(x) => json!(["E", "CustomNotification", x.view()]) } } }
impl Build for u::NotificationFromServer { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("NotificationFromServer", v)); } Ok(match v[1].as_str().unwrap_or("") { "CancelledNotification" => u::NotificationFromServer::CancelledNotification(Build::build(&v[2])?), "ProgressNotification" => u::NotificationFromServer::ProgressNotification(Build::build(&v[2])?), "ResourceListChangedNotification" => u::NotificationFromServer::ResourceListChangedNotification(Build::build(&v[2])?), "ResourceUpdatedNotification" => u::NotificationFromServer::ResourceUpdatedNotification(Build::build(&v[2])?), "PromptListChangedNotification" => u::NotificationFromServer::PromptListChangedNotification(Build::build(&v[2])?), "ToolListChangedNotification" => u::NotificationFromServer::ToolListChangedNotification(Build::build(&v[2])?), "LoggingMessageNotification" => u::NotificationFromServer::LoggingMessageNotification(Build::build(&v[2])?), "SubscriptionsAcknowledgedNotification" => u::NotificationFromServer::SubscriptionsAcknowledgedNotification(Build::build(&v[2])?), "CustomNotification" => u::NotificationFromServer::CustomNotification(Build::build(&v[2])?), _ => return Err(bad("NotificationFromServer", v)) }) } }
impl View for u::ServerJsonrpcResponse { fn view(&self) -> V { vs(vec![("id", self.id.view()), ("jsonrpc", self.jsonrpc().view()), ("result", self.result.view())]) } }
impl Build for u::ServerJsonrpcResponse { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ServerJsonrpcResponse", v)) } }
impl View for u::MessageFromServer { fn view(&self) -> V { match self { u::MessageFromServer::RequestFromServer(x) => json!(["E", "RequestFromServer", x.view()]), u::MessageFromServer::ServerResult(x) => json!(["E", "ServerResult", x.view()]), u::MessageFromServer::NotificationFromServer(x) => json!(["E", "NotificationFromServer", x.view()]), u::MessageFromServer::Error(x) => json!(["E", "Error", x.view()]) } } }
impl Build for u::MessageFromServer { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("MessageFromServer", v)); } Ok(match v[1].as_str().unwrap_or("") { "RequestFromServer" => u::MessageFromServer::RequestFromServer(Build::build(&v[2])?), "ServerResult" => u::MessageFromServer::ServerResult(Build::build(&v[2])?), "NotificationFromServer" => u::MessageFromServer::NotificationFromServer(Build::build(&v[2])?), "Error" => u::MessageFromServer::Error(Build::build(&v[2])?), _ => return Err(bad("MessageFromServer", v)) }) } }
impl View for u::MessageFromClient { fn view(&self) -> V { match self { u::MessageFromClient::RequestFromClient(x) => json!(["E", "RequestFromClient", x.view()]), u::MessageFromClient::ResultFromClient(x) => json!(["E", "ResultFromClient", x.view()]), u::MessageFromClient::NotificationFromClient(x) => json!(["E", "NotificationFromClient", x.view()]), u::MessageFromClient::Error(x) => json!(["E", "Error", x.view()]) } } }
impl Build for u::MessageFromClient { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("MessageFromClient", v)); } Ok(match v[1].as_str().unwrap_or("") { "RequestFromClient" => u::MessageFromClient::RequestFromClient(Build::build(&v[2])?), "ResultFromClient" => u::MessageFromClient::ResultFromClient(Build::build(&v[2])?), "NotificationFromClient" => u::MessageFromClient::NotificationFromClient(Build::build(&v[2])?), "Error" => u::MessageFromClient::Error(Build::build(&v[2])?), _ => return Err(bad("MessageFromClient", v)) }) } }
impl View for u::UnknownTool { fn view(&self) -> V { self.0.view() } }
impl View for u::CallToolError { fn view(&self) -> V { json!(["X", "CallToolError", self.0.to_string()]) } }
impl View for u::ClientMessages { fn view(&self) -> V { match self { u::ClientMessages::Single(x) => json!(["E", "Single", x.view()]), u::ClientMessages::Batch(x) => json!(["E", "Batch", x.view()]) } } }
impl Build for u::ClientMessages { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("ClientMessages", v)); } Ok(match v[1].as_str().unwrap_or("") { "Single" => u::ClientMessages::Single(Build::build(&v[2])?), "Batch" => u::ClientMessages::Batch(Build::build(&v[2])?), _ => return Err(bad("ClientMessages", v)) }) } }
impl View for u::ServerMessages { fn view(&self) -> V { match self { u::ServerMessages::Single(x) => json!(["E", "Single", x.view()]), u::ServerMessages::Batch(x) => json!(["E", "Batch", x.view()]) } } }
impl Build for u::ServerMessages { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("ServerMessages", v)); } Ok(match v[1].as_str().unwrap_or("") { "Single" => u::ServerMessages::Single(Build::build(&v[2])?), "Batch" => u::ServerMessages::Batch(Build::build(&v[2])?), _ => return Err(bad("ServerMessages", v)) }) } }
impl View for u::MessagesFromServer { fn view(&self) -> V { match self { u::MessagesFromServer::Single(x) => json!(["E", "Single", x.view()]), u::MessagesFromServer::Batch(x) => json!(["E", "Batch", x.view()]) } } }
impl Build for u::MessagesFromServer { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("MessagesFromServer", v)); } Ok(match v[1].as_str().unwrap_or("") { "Single" => u::MessagesFromServer::Single(Build::build(&v[2])?), "Batch" => u::MessagesFromServer::Batch(Build::build(&v[2])?), _ => return Err(bad("MessagesFromServer", v)) }) } }
impl View for u::MessagesFromClient { fn view(&self) -> V { match self { u::MessagesFromClient::Single(x) => json!(["E", "Single", x.view()]), u::MessagesFromClient::Batch(x) => json!(["E", "Batch", x.view()]) } } }
impl Build for u::MessagesFromClient { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("MessagesFromClient", v)); } Ok(match v[1].as_str().unwrap_or("") { "Single" => u::MessagesFromClient::Single(Build::build(&v[2])?), "Batch" => u::MessagesFromClient::Batch(Build::build(&v[2])?), _ => return Err(bad("MessagesFromClient", v)) }) } }
impl View for u::StringSchemaFormatError { fn view(&self) -> V { json!(["X", "StringSchemaFormatError"]) } }
impl View for u::SdkErrorCodes { fn view(&self) -> V { json!(["U", match self { u::SdkErrorCodes::CONNECTION_CLOSED => "CONNECTION_CLOSED", u::SdkErrorCodes::REQUEST_TIMEOUT => "REQUEST_TIMEOUT", u::SdkErrorCodes::RESOURCE_NOT_FOUND => "RESOURCE_NOT_FOUND", u::SdkErrorCodes::BAD_REQUEST => "BAD_REQUEST", u::SdkErrorCodes::SESSION_NOT_FOUND => "SESSION_NOT_FOUND", u::SdkErrorCodes::MISSING_REQUIRED_CLIENT_CAPABILITY => "MISSING_REQUIRED_CLIENT_CAPABILITY", u::SdkErrorCodes::UNSUPPORTED_PROTOCOL_VERSION => "UNSUPPORTED_PROTOCOL_VERSION", u::SdkErrorCodes::INVALID_REQUEST => "INVALID_REQUEST", u::SdkErrorCodes::METHOD_NOT_FOUND => "METHOD_NOT_FOUND", u::SdkErrorCodes::INVALID_PARAMS => "INVALID_PARAMS", u::SdkErrorCodes::INTERNAL_ERROR => "INTERNAL_ERROR", u::SdkErrorCodes::PARSE_ERROR => "PARSE_ERROR" }]) } }
impl Build for u::SdkErrorCodes { fn build(v: &V) -> R<Self> {  Ok(match v[1].as_str().unwrap_or("") { "CONNECTION_CLOSED" => u::SdkErrorCodes::CONNECTION_CLOSED, "REQUEST_TIMEOUT" => u::SdkErrorCodes::REQUEST_TIMEOUT, "RESOURCE_NOT_FOUND" => u::SdkErrorCodes::RESOURCE_NOT_FOUND, "BAD_REQUEST" => u::SdkErrorCodes::BAD_REQUEST, "SESSION_NOT_FOUND" => u::SdkErrorCodes::SESSION_NOT_FOUND, "MISSING_REQUIRED_CLIENT_CAPABILITY" => u::SdkErrorCodes::MISSING_REQUIRED_CLIENT_CAPABILITY, "UNSUPPORTED_PROTOCOL_VERSION" => u::SdkErrorCodes::UNSUPPORTED_PROTOCOL_VERSION, "INVALID_REQUEST" => u::SdkErrorCodes::INVALID_REQUEST, "METHOD_NOT_FOUND" => u::SdkErrorCodes::METHOD_NOT_FOUND, "INVALID_PARAMS" => u::SdkErrorCodes::INVALID_PARAMS, "INTERNAL_ERROR" => u::SdkErrorCodes::INTERNAL_ERROR, "PARSE_ERROR" => u::SdkErrorCodes::PARSE_ERROR, _ => return Err(bad("SdkErrorCodes", v)) }) } }
impl View for u::SdkError { fn view(&self) -> V { vs(vec![("code", self.code.view()), ("data", self.data.view()), ("message", self.message.view())]) } }
impl Build for u::SdkError { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("SdkError", v)); } Ok(u::SdkError { code: fld(v, "code")?, data: fld(v, "data")?, message: fld(v, "message")? }) } }
impl View for u::RpcErrorCodes { fn view(&self) -> V { json!(["U", match self { u::RpcErrorCodes::PARSE_ERROR => "PARSE_ERROR", u::RpcErrorCodes::INVALID_REQUEST => "INVALID_REQUEST", u::RpcErrorCodes::METHOD_NOT_FOUND => "METHOD_NOT_FOUND", u::RpcErrorCodes::INVALID_PARAMS => "INVALID_PARAMS", u::RpcErrorCodes::INTERNAL_ERROR => "INTERNAL_ERROR", u::RpcErrorCodes::HEADER_MISMATCH => "HEADER_MISMATCH", u::RpcErrorCodes::MISSING_REQUIRED_CLIENT_CAPABILITY => "MISSING_REQUIRED_CLIENT_CAPABILITY", u::RpcErrorCodes::UNSUPPORTED_PROTOCOL_VERSION => "UNSUPPORTED_PROTOCOL_VERSION" }]) } }
impl Build for u::RpcErrorCodes { fn build(v: &V) -> R<Self> {  Ok(match v[1].as_str().unwrap_or("") { "PARSE_ERROR" => u::RpcErrorCodes::PARSE_ERROR, "INVALID_REQUEST" => u::RpcErrorCodes::INVALID_REQUEST, "METHOD_NOT_FOUND" => u::RpcErrorCodes::METHOD_NOT_FOUND, "INVALID_PARAMS" => u::RpcErrorCodes::INVALID_PARAMS, "INTERNAL_ERROR" => u::RpcErrorCodes::INTERNAL_ERROR, "HEADER_MISMATCH" => u::RpcErrorCodes::HEADER_MISMATCH, "MISSING_REQUIRED_CLIENT_CAPABILITY" => u::RpcErrorCodes::MISSING_REQUIRED_CLIENT_CAPABILITY, "UNSUPPORTED_PROTOCOL_VERSION" => u::RpcErrorCodes::UNSUPPORTED_PROTOCOL_VERSION, _ => return Err(bad("RpcErrorCodes", v)) }) } }
impl Build for u::CallToolError { fn build(v: &V) -> R<Self> { let s: String = Build::build(v)?; Ok(u::CallToolError::from_message(s)) } }
impl Build for u::UnknownTool { fn build(v: &V) -> R<Self> { let s: String = Build::build(v)?; Ok(u::UnknownTool(s)) } }

pub fn run_codec(t: &str, d: &V) -> R<V> {
    Ok(match t {
        "Annotations" => codec::<m::Annotations>(d),
        "AudioContent" => codec::<m::AudioContent>(d),
        "BaseMetadata" => codec::<m::BaseMetadata>(d),
        "BlobResourceContents" => codec::<m::BlobResourceContents>(d),
        "BooleanSchema" => codec::<m::BooleanSchema>(d),
        "CacheableResult" => codec::<m::CacheableResult>(d),
        "CacheableResultCacheScope" => codec::<m::CacheableResultCacheScope>(d),
        "CallToolRequest" => codec::<m::CallToolRequest>(d),
        "CallToolRequestParams" => codec::<m::CallToolRequestParams>(d),
        "CallToolResult" => codec::<m::CallToolResult>(d),
        "CallToolResultResponse" => codec::<m::CallToolResultResponse>(d),
        "CallToolResultResponseResult" => codec::<m::CallToolResultResponseResult>(d),
        "CancelledNotification" => codec::<m::CancelledNotification>(d),
        "CancelledNotificationParams" => codec::<m::CancelledNotificationParams>(d),
        "ClientCapabilities" => codec::<m::ClientCapabilities>(d),
        "ClientElicitation" => codec::<m::ClientElicitation>(d),
        "ClientNotification" => codec::<m::ClientNotification>(d),
        "ClientRequest" => codec::<m::ClientRequest>(d),
        "ClientResult" => codec::<m::ClientResult>(d),
        "ClientSampling" => codec::<m::ClientSampling>(d),
        "CompleteRequest" => codec::<m::CompleteRequest>(d),
        "CompleteRequestArgument" => codec::<m::CompleteRequestArgument>(d),
        "CompleteRequestContext" => codec::<m::CompleteRequestContext>(d),
        "CompleteRequestParams" => codec::<m::CompleteRequestParams>(d),
        "CompleteRequestRef" => codec::<m::CompleteRequestRef>(d),
        "CompleteResult" => codec::<m::CompleteResult>(d),
        "CompleteResultCompletion" => codec::<m::CompleteResultCompletion>(d),
        "CompleteResultResponse" => codec::<m::CompleteResultResponse>(d),
        "ContentBlock" => codec::<m::ContentBlock>(d),
        "CreateMessageContent" => codec::<m::CreateMessageContent>(d),
        "CreateMessageRequest" => codec::<m::CreateMessageRequest>(d),
        "CreateMessageRequestParams" => codec::<m::CreateMessageRequestParams>(d),
        "CreateMessageResult" => codec::<m::CreateMessageResult>(d),
        "Cursor" => codec::<m::Cursor>(d),
        "DiscoverRequest" => codec::<m::DiscoverRequest>(d),
        "DiscoverResult" => codec::<m::DiscoverResult>(d),
        "DiscoverResultCacheScope" => codec::<m::DiscoverResultCacheScope>(d),
        "DiscoverResultResponse" => codec::<m::DiscoverResultResponse>(d),
        "ElicitRequest" => codec::<m::ElicitRequest>(d),
        "ElicitRequestFormParams" => codec::<m::ElicitRequestFormParams>(d),
        "ElicitRequestFormParamsRequestedSchema" => codec::<m::ElicitRequestFormParamsRequestedSchema>(d),
        "ElicitRequestParams" => codec::<m::ElicitRequestParams>(d),
        "ElicitRequestUrlParams" => codec::<m::ElicitRequestUrlParams>(d),
        "ElicitResult" => codec::<m::ElicitResult>(d),
        "ElicitResultAction" => codec::<m::ElicitResultAction>(d),
        "ElicitResultContent" => codec::<m::ElicitResultContent>(d),
        "ElicitResultContentPrimitive" => codec::<m::ElicitResultContentPrimitive>(d),
        "EmbeddedResource" => codec::<m::EmbeddedResource>(d),
        "EmbeddedResourceResource" => codec::<m::EmbeddedResourceResource>(d),
        "EmptyResult" => codec::<m::EmptyResult>(d),
        "EnumSchema" => codec::<m::EnumSchema>(d),
        "GetPromptRequest" => codec::<m::GetPromptRequest>(d),
        "GetPromptRequestParams" => codec::<m::GetPromptRequestParams>(d),
        "GetPromptResult" => codec::<m::GetPromptResult>(d),
        "GetPromptResultResponse" => codec::<m::GetPromptResultResponse>(d),
        "GetPromptResultResponseResult" => codec::<m::GetPromptResultResponseResult>(d),
        "HeaderMismatchError" => codec::<m::HeaderMismatchError>(d),
        "Icon" => codec::<m::Icon>(d),
        "IconTheme" => codec::<m::IconTheme>(d),
        "Icons" => codec::<m::Icons>(d),
        "ImageContent" => codec::<m::ImageContent>(d),
        "Implementation" => codec::<m::Implementation>(d),
        "IncludeContext" => codec::<m::IncludeContext>(d),
        "InputRequest" => codec::<m::InputRequest>(d),
        "InputRequests" => codec::<m::InputRequests>(d),
        "InputRequiredResult" => codec::<m::InputRequiredResult>(d),
        "InputResponse" => codec::<m::InputResponse>(d),
        "InputResponseRequestParams" => codec::<m::InputResponseRequestParams>(d),
        "InputResponses" => codec::<m::InputResponses>(d),
        "InternalError" => codec::<m::InternalError>(d),
        "InvalidParamsError" => codec::<m::InvalidParamsError>(d),
        "InvalidRequestError" => codec::<m::InvalidRequestError>(d),
        "JsonArray" => codec::<m::JsonArray>(d),
        "JsonObject" => codec::<m::JsonObject>(d),
        "JsonValue" => codec::<m::JsonValue>(d),
        "JsonValueVariant2" => codec::<m::JsonValueVariant2>(d),
        "JsonrpcErrorResponse" => codec::<m::JsonrpcErrorResponse>(d),
        "JsonrpcMessage" => codec::<m::JsonrpcMessage>(d),
        "JsonrpcNotification" => codec::<m::JsonrpcNotification>(d),
        "JsonrpcRequest" => codec::<m::JsonrpcRequest>(d),
        "JsonrpcResponse" => codec::<m::JsonrpcResponse>(d),
        "JsonrpcResultResponse" => codec::<m::JsonrpcResultResponse>(d),
        "LegacyTitledEnumSchema" => codec::<m::LegacyTitledEnumSchema>(d),
        "ListPromptsRequest" => codec::<m::ListPromptsRequest>(d),
        "ListPromptsResult" => codec::<m::ListPromptsResult>(d),
        "ListPromptsResultCacheScope" => codec::<m::ListPromptsResultCacheScope>(d),
        "ListPromptsResultResponse" => codec::<m::ListPromptsResultResponse>(d),
        "ListResourceTemplatesRequest" => codec::<m::ListResourceTemplatesRequest>(d),
        "ListResourceTemplatesResult" => codec::<m::ListResourceTemplatesResult>(d),
        "ListResourceTemplatesResultCacheScope" => codec::<m::ListResourceTemplatesResultCacheScope>(d),
        "ListResourceTemplatesResultResponse" => codec::<m::ListResourceTemplatesResultResponse>(d),
        "ListResourcesRequest" => codec::<m::ListResourcesRequest>(d),
        "ListResourcesResult" => codec::<m::ListResourcesResult>(d),
        "ListResourcesResultCacheScope" => codec::<m::ListResourcesResultCacheScope>(d),
        "ListResourcesResultResponse" => codec::<m::ListResourcesResultResponse>(d),
        "ListRootsRequest" => codec::<m::ListRootsRequest>(d),
        "ListRootsRequestParams" => codec::<m::ListRootsRequestParams>(d),
        "ListRootsResult" => codec::<m::ListRootsResult>(d),
        "ListToolsRequest" => codec::<m::ListToolsRequest>(d),
        "ListToolsResult" => codec::<m::ListToolsResult>(d),
        "ListToolsResultCacheScope" => codec::<m::ListToolsResultCacheScope>(d),
        "ListToolsResultResponse" => codec::<m::ListToolsResultResponse>(d),
        "LoggingLevel" => codec::<m::LoggingLevel>(d),
        "LoggingMessageNotification" => codec::<m::LoggingMessageNotification>(d),
        "LoggingMessageNotificationParams" => codec::<m::LoggingMessageNotificationParams>(d),
        "MetaObject" => codec::<m::MetaObject>(d),
        "MethodNotFoundError" => codec::<m::MethodNotFoundError>(d),
        "MissingRequiredClientCapabilityError" => codec::<m::MissingRequiredClientCapabilityError>(d),
        "MissingRequiredClientCapabilityErrorError" => codec::<m::MissingRequiredClientCapabilityErrorError>(d),
        "MissingRequiredClientCapabilityErrorErrorData" => codec::<m::MissingRequiredClientCapabilityErrorErrorData>(d),
        "ModelHint" => codec::<m::ModelHint>(d),
        "ModelPreferences" => codec::<m::ModelPreferences>(d),
        "MultiSelectEnumSchema" => codec::<m::MultiSelectEnumSchema>(d),
        "Notification" => codec::<m::Notification>(d),
        "NotificationMetaObject" => codec::<m::NotificationMetaObject>(d),
        "NotificationParams" => codec::<m::NotificationParams>(d),
        "NumberSchema" => codec::<m::NumberSchema>(d),
        "NumberSchemaType" => codec::<m::NumberSchemaType>(d),
        "PaginatedRequest" => codec::<m::PaginatedRequest>(d),
        "PaginatedRequestParams" => codec::<m::PaginatedRequestParams>(d),
        "PaginatedResult" => codec::<m::PaginatedResult>(d),
        "ParseError" => codec::<m::ParseError>(d),
        "PrimitiveSchemaDefinition" => codec::<m::PrimitiveSchemaDefinition>(d),
        "ProgressNotification" => codec::<m::ProgressNotification>(d),
        "ProgressNotificationParams" => codec::<m::ProgressNotificationParams>(d),
        "ProgressToken" => codec::<m::ProgressToken>(d),
        "Prompt" => codec::<m::Prompt>(d),
        "PromptArgument" => codec::<m::PromptArgument>(d),
        "PromptListChangedNotification" => codec::<m::PromptListChangedNotification>(d),
        "PromptMessage" => codec::<m::PromptMessage>(d),
        "PromptReference" => codec::<m::PromptReference>(d),
        "ReadResourceContent" => codec::<m::ReadResourceContent>(d),
        "ReadResourceRequest" => codec::<m::ReadResourceRequest>(d),
        "ReadResourceRequestParams" => codec::<m::ReadResourceRequestParams>(d),
        "ReadResourceResult" => codec::<m::ReadResourceResult>(d),
        "ReadResourceResultCacheScope" => codec::<m::ReadResourceResultCacheScope>(d),
        "ReadResourceResultResponse" => codec::<m::ReadResourceResultResponse>(d),
        "ReadResourceResultResponseResult" => codec::<m::ReadResourceResultResponseResult>(d),
        "Request" => codec::<m::Request>(d),
        "RequestId" => codec::<m::RequestId>(d),
        "RequestMetaObject" => codec::<m::RequestMetaObject>(d),
        "RequestParams" => codec::<m::RequestParams>(d),
        "Resource" => codec::<m::Resource>(d),
        "ResourceContents" => codec::<m::ResourceContents>(d),
        "ResourceLink" => codec::<m::ResourceLink>(d),
        "ResourceListChangedNotification" => codec::<m::ResourceListChangedNotification>(d),
        "ResourceRequestParams" => codec::<m::ResourceRequestParams>(d),
        "ResourceTemplate" => codec::<m::ResourceTemplate>(d),
        "ResourceTemplateReference" => codec::<m::ResourceTemplateReference>(d),
        "ResourceUpdatedNotification" => codec::<m::ResourceUpdatedNotification>(d),
        "ResourceUpdatedNotificationParams" => codec::<m::ResourceUpdatedNotificationParams>(d),
        "Result" => codec::<m::Result>(d),
        "ResultMetaObject" => codec::<m::ResultMetaObject>(d),
        "ResultType" => codec::<m::ResultType>(d),
        "Role" => codec::<m::Role>(d),
        "Root" => codec::<m::Root>(d),
        "RpcError" => codec::<m::RpcError>(d),
        "SamplingMessage" => codec::<m::SamplingMessage>(d),
        "SamplingMessageContent" => codec::<m::SamplingMessageContent>(d),
        "SamplingMessageContentBlock" => codec::<m::SamplingMessageContentBlock>(d),
        "ServerCapabilities" => codec::<m::ServerCapabilities>(d),
        "ServerCapabilitiesPrompts" => codec::<m::ServerCapabilitiesPrompts>(d),
        "ServerCapabilitiesResources" => codec::<m::ServerCapabilitiesResources>(d),
        "ServerCapabilitiesTools" => codec::<m::ServerCapabilitiesTools>(d),
        "ServerNotification" => codec::<m::ServerNotification>(d),
        "ServerResult" => codec::<m::ServerResult>(d),
        "SingleSelectEnumSchema" => codec::<m::SingleSelectEnumSchema>(d),
        "StringSchema" => codec::<m::StringSchema>(d),
        "StringSchemaFormat" => codec::<m::StringSchemaFormat>(d),
        "SubscriptionFilter" => codec::<m::SubscriptionFilter>(d),
        "SubscriptionsAcknowledgedNotification" => codec::<m::SubscriptionsAcknowledgedNotification>(d),
        "SubscriptionsAcknowledgedNotificationParams" => codec::<m::SubscriptionsAcknowledgedNotificationParams>(d),
        "SubscriptionsListenRequest" => codec::<m::SubscriptionsListenRequest>(d),
        "SubscriptionsListenRequestParams" => codec::<m::SubscriptionsListenRequestParams>(d),
        "SubscriptionsListenResult" => codec::<m::SubscriptionsListenResult>(d),
        "SubscriptionsListenResultMetaObject" => codec::<m::SubscriptionsListenResultMetaObject>(d),
        "SubscriptionsListenResultResponse" => codec::<m::SubscriptionsListenResultResponse>(d),
        "TextContent" => codec::<m::TextContent>(d),
        "TextResourceContents" => codec::<m::TextResourceContents>(d),
        "TitledMultiSelectEnumSchema" => codec::<m::TitledMultiSelectEnumSchema>(d),
        "TitledMultiSelectEnumSchemaItems" => codec::<m::TitledMultiSelectEnumSchemaItems>(d),
        "TitledMultiSelectEnumSchemaItemsAnyOfItem" => codec::<m::TitledMultiSelectEnumSchemaItemsAnyOfItem>(d),
        "TitledSingleSelectEnumSchema" => codec::<m::TitledSingleSelectEnumSchema>(d),
        "TitledSingleSelectEnumSchemaOneOfItem" => codec::<m::TitledSingleSelectEnumSchemaOneOfItem>(d),
        "Tool" => codec::<m::Tool>(d),
        "ToolAnnotations" => codec::<m::ToolAnnotations>(d),
        "ToolChoice" => codec::<m::ToolChoice>(d),
        "ToolChoiceMode" => codec::<m::ToolChoiceMode>(d),
        "ToolInputSchema" => codec::<m::ToolInputSchema>(d),
        "ToolListChangedNotification" => codec::<m::ToolListChangedNotification>(d),
        "ToolOutputSchema" => codec::<m::ToolOutputSchema>(d),
        "ToolResultContent" => codec::<m::ToolResultContent>(d),
        "ToolUseContent" => codec::<m::ToolUseContent>(d),
        "UnsupportedProtocolVersionError" => codec::<m::UnsupportedProtocolVersionError>(d),
        "UnsupportedProtocolVersionErrorError" => codec::<m::UnsupportedProtocolVersionErrorError>(d),
        "UnsupportedProtocolVersionErrorErrorData" => codec::<m::UnsupportedProtocolVersionErrorErrorData>(d),
        "UntitledMultiSelectEnumSchema" => codec::<m::UntitledMultiSelectEnumSchema>(d),
        "UntitledMultiSelectEnumSchemaItems" => codec::<m::UntitledMultiSelectEnumSchemaItems>(d),
        "UntitledSingleSelectEnumSchema" => codec::<m::UntitledSingleSelectEnumSchema>(d),
        "ClientMessage" => codec::<u::ClientMessage>(d),
        "ClientJsonrpcRequest" => codec::<u::ClientJsonrpcRequest>(d),
        "RequestFromClient" => codec::<u::RequestFromClient>(d),
        "ClientJsonrpcNotification" => codec::<u::ClientJsonrpcNotification>(d),
        "NotificationFromClient" => codec::<u::NotificationFromClient>(d),
        "ClientJsonrpcResponse" => codec::<u::ClientJsonrpcResponse>(d),
        "ResultFromClient" => codec::<u::ResultFromClient>(d),
        "ServerMessage" => codec::<u::ServerMessage>(d),
        "ServerJsonrpcRequest" => codec::<u::ServerJsonrpcRequest>(d),
        "CustomRequest" => codec::<u::CustomRequest>(d),
        "RequestFromServer" => codec::<u::RequestFromServer>(d),
        "ServerJsonrpcNotification" => codec::<u::ServerJsonrpcNotification>(d),
        "NotificationFromServer" => codec::<u::NotificationFromServer>(d),
        "ServerJsonrpcResponse" => codec::<u::ServerJsonrpcResponse>(d),
        "MessageFromServer" => codec::<u::MessageFromServer>(d),
        "MessageFromClient" => codec::<u::MessageFromClient>(d),
        "ClientMessages" => codec::<u::ClientMessages>(d),
        "ServerMessages" => codec::<u::ServerMessages>(d),
        "MessagesFromServer" => codec::<u::MessagesFromServer>(d),
        "MessagesFromClient" => codec::<u::MessagesFromClient>(d),
        "SdkError" => codec::<u::SdkError>(d),
        _ => return Err(bad("type", d)),
    })
}
pub fn run_call(f: &str, s: &V, a: &V) -> R<V> {
    match f {
        "AudioContent.new" => { let a0: ::std::string::String = arg(a, 0)?; let a1: ::std::string::String = arg(a, 1)?; let a2: ::std::option::Option<m::Annotations> = arg(a, 2)?; let a3: ::std::option::Option<m::MetaObject> = arg(a, 3)?; let r = m::AudioContent::new(a0, a1, a2, a3); Ok(out!(r)) }
        "AudioContent.type_" => { let s: m::AudioContent = arg(s, 0)?;  let r = m::AudioContent::type_(&s); Ok(out!(r)) }
        "AudioContent.type_value" => {  let r = m::AudioContent::type_value(); Ok(out!(r)) }
        "AudioContent.type_name" => {  let r = m::AudioContent::type_name(); Ok(out!(r)) }
        "BooleanSchema.new" => { let a0: ::std::option::Option<bool> = arg(a, 0)?; let a1: ::std::option::Option<::std::string::String> = arg(a, 1)?; let a2: ::std::option::Option<::std::string::String> = arg(a, 2)?; let r = m::BooleanSchema::new(a0, a1, a2); Ok(out!(r)) }
        "BooleanSchema.type_" => { let s: m::BooleanSchema = arg(s, 0)?;  let r = m::BooleanSchema::type_(&s); Ok(out!(r)) }
        "BooleanSchema.type_value" => {  let r = m::BooleanSchema::type_value(); Ok(out!(r)) }
        "BooleanSchema.type_name" => {  let r = m::BooleanSchema::type_name(); Ok(out!(r)) }
        "CacheableResultCacheScope.Display" => { let s: m::CacheableResultCacheScope = arg(s, 0)?; Ok(s.to_string().view()) }
        "CallToolRequest.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: m::CallToolRequestParams = arg(a, 1)?; let r = m::CallToolRequest::new(a0, a1); Ok(out!(r)) }
        "CallToolRequest.jsonrpc" => { let s: m::CallToolRequest = arg(s, 0)?;  let r = m::CallToolRequest::jsonrpc(&s); Ok(out!(r)) }
        "CallToolRequest.method" => { let s: m::CallToolRequest = arg(s, 0)?;  let r = m::CallToolRequest::method(&s); Ok(out!(r)) }
        "CallToolRequest.method_value" => {  let r = m::CallToolRequest::method_value(); Ok(out!(r)) }
        "CallToolRequest.method_name" => {  let r = m::CallToolRequest::method_name(); Ok(out!(r)) }
        "CallToolResultResponse.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: m::CallToolResultResponseResult = arg(a, 1)?; let r = m::CallToolResultResponse::new(a0, a1); Ok(out!(r)) }
        "CallToolResultResponse.jsonrpc" => { let s: m::CallToolResultResponse = arg(s, 0)?;  let r = m::CallToolResultResponse::jsonrpc(&s); Ok(out!(r)) }
        "CallToolResultResponseResult.From<InputRequiredResult>" => { let a0: m::InputRequiredResult = arg(a, 0)?; let r: m::CallToolResultResponseResult = From::from(a0); Ok(out!(r)) }
        "CallToolResultResponseResult.From<CallToolResult>" => { let a0: m::CallToolResult = arg(a, 0)?; let r: m::CallToolResultResponseResult = From::from(a0); Ok(out!(r)) }
        "CancelledNotification.new" => { let a0: m::CancelledNotificationParams = arg(a, 0)?; let r = m::CancelledNotification::new(a0); Ok(out!(r)) }
        "CancelledNotification.jsonrpc" => { let s: m::CancelledNotification = arg(s, 0)?;  let r = m::CancelledNotification::jsonrpc(&s); Ok(out!(r)) }
        "CancelledNotification.method" => { let s: m::CancelledNotification = arg(s, 0)?;  let r = m::CancelledNotification::method(&s); Ok(out!(r)) }
        "CancelledNotification.method_value" => {  let r = m::CancelledNotification::method_value(); Ok(out!(r)) }
        "CancelledNotification.method_name" => {  let r = m::CancelledNotification::method_name(); Ok(out!(r)) }
        "ClientNotification.new" => { let a0: m::CancelledNotificationParams = arg(a, 0)?; let r = m::ClientNotification::new(a0); Ok(out!(r)) }
        "ClientNotification.jsonrpc" => { let s: m::ClientNotification = arg(s, 0)?;  let r = m::ClientNotification::jsonrpc(&s); Ok(out!(r)) }
        "ClientNotification.method" => { let s: m::ClientNotification = arg(s, 0)?;  let r = m::ClientNotification::method(&s); Ok(out!(r)) }
        "ClientNotification.method_value" => {  let r = m::ClientNotification::method_value(); Ok(out!(r)) }
        "ClientNotification.method_name" => {  let r = m::ClientNotification::method_name(); Ok(out!(r)) }
        "ClientRequest.From<DiscoverRequest>" => { let a0: m::DiscoverRequest = arg(a, 0)?; let r: m::ClientRequest = From::from(a0); Ok(out!(r)) }
        "ClientRequest.From<ListResourcesRequest>" => { let a0: m::ListResourcesRequest = arg(a, 0)?; let r: m::ClientRequest = From::from(a0); Ok(out!(r)) }
        "ClientRequest.From<ListResourceTemplatesRequest>" => { let a0: m::ListResourceTemplatesRequest = arg(a, 0)?; let r: m::ClientRequest = From::from(a0); Ok(out!(r)) }
        "ClientRequest.From<ReadResourceRequest>" => { let a0: m::ReadResourceRequest = arg(a, 0)?; let r: m::ClientRequest = From::from(a0); Ok(out!(r)) }
        "ClientRequest.From<SubscriptionsListenRequest>" => { let a0: m::SubscriptionsListenRequest = arg(a, 0)?; let r: m::ClientRequest = From::from(a0); Ok(out!(r)) }
        "ClientRequest.From<ListPromptsRequest>" => { let a0: m::ListPromptsRequest = arg(a, 0)?; let r: m::ClientRequest = From::from(a0); Ok(out!(r)) }
        "ClientRequest.From<GetPromptRequest>" => { let a0: m::GetPromptRequest = arg(a, 0)?; let r: m::ClientRequest = From::from(a0); Ok(out!(r)) }
        "ClientRequest.From<ListToolsRequest>" => { let a0: m::ListToolsRequest = arg(a, 0)?; let r: m::ClientRequest = From::from(a0); Ok(out!(r)) }
        "ClientRequest.From<CallToolRequest>" => { let a0: m::CallToolRequest = arg(a, 0)?; let r: m::ClientRequest = From::from(a0); Ok(out!(r)) }
        "ClientRequest.From<CompleteRequest>" => { let a0: m::CompleteRequest = arg(a, 0)?; let r: m::ClientRequest = From::from(a0); Ok(out!(r)) }
        "CompleteRequest.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: m::CompleteRequestParams = arg(a, 1)?; let r = m::CompleteRequest::new(a0, a1); Ok(out!(r)) }
        "CompleteRequest.jsonrpc" => { let s: m::CompleteRequest = arg(s, 0)?;  let r = m::CompleteRequest::jsonrpc(&s); Ok(out!(r)) }
        "CompleteRequest.method" => { let s: m::CompleteRequest = arg(s, 0)?;  let r = m::CompleteRequest::method(&s); Ok(out!(r)) }
        "CompleteRequest.method_value" => {  let r = m::CompleteRequest::method_value(); Ok(out!(r)) }
        "CompleteRequest.method_name" => {  let r = m::CompleteRequest::method_name(); Ok(out!(r)) }
        "CompleteRequestRef.From<PromptReference>" => { let a0: m::PromptReference = arg(a, 0)?; let r: m::CompleteRequestRef = From::from(a0); Ok(out!(r)) }
        "CompleteRequestRef.From<ResourceTemplateReference>" => { let a0: m::ResourceTemplateReference = arg(a, 0)?; let r: m::CompleteRequestRef = From::from(a0); Ok(out!(r)) }
        "CompleteResultResponse.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: m::CompleteResult = arg(a, 1)?; let r = m::CompleteResultResponse::new(a0, a1); Ok(out!(r)) }
        "CompleteResultResponse.jsonrpc" => { let s: m::CompleteResultResponse = arg(s, 0)?;  let r = m::CompleteResultResponse::jsonrpc(&s); Ok(out!(r)) }
        "ContentBlock.From<TextContent>" => { let a0: m::TextContent = arg(a, 0)?; let r: m::ContentBlock = From::from(a0); Ok(out!(r)) }
        "ContentBlock.From<ImageContent>" => { let a0: m::ImageContent = arg(a, 0)?; let r: m::ContentBlock = From::from(a0); Ok(out!(r)) }
        "ContentBlock.From<AudioContent>" => { let a0: m::AudioContent = arg(a, 0)?; let r: m::ContentBlock = From::from(a0); Ok(out!(r)) }
        "ContentBlock.From<ResourceLink>" => { let a0: m::ResourceLink = arg(a, 0)?; let r: m::ContentBlock = From::from(a0); Ok(out!(r)) }
        "ContentBlock.From<EmbeddedResource>" => { let a0: m::EmbeddedResource = arg(a, 0)?; let r: m::ContentBlock = From::from(a0); Ok(out!(r)) }
        "CreateMessageContent.From<TextContent>" => { let a0: m::TextContent = arg(a, 0)?; let r: m::CreateMessageContent = From::from(a0); Ok(out!(r)) }
        "CreateMessageContent.From<ImageContent>" => { let a0: m::ImageContent = arg(a, 0)?; let r: m::CreateMessageContent = From::from(a0); Ok(out!(r)) }
        "CreateMessageContent.From<AudioContent>" => { let a0: m::AudioContent = arg(a, 0)?; let r: m::CreateMessageContent = From::from(a0); Ok(out!(r)) }
        "CreateMessageContent.From<ToolUseContent>" => { let a0: m::ToolUseContent = arg(a, 0)?; let r: m::CreateMessageContent = From::from(a0); Ok(out!(r)) }
        "CreateMessageContent.From<ToolResultContent>" => { let a0: m::ToolResultContent = arg(a, 0)?; let r: m::CreateMessageContent = From::from(a0); Ok(out!(r)) }
        "CreateMessageContent.From<Vec<SamplingMessageContentBlock>>" => { let a0: ::std::vec::Vec<m::SamplingMessageContentBlock> = arg(a, 0)?; let r: m::CreateMessageContent = From::from(a0); Ok(out!(r)) }
        "CreateMessageRequest.new" => { let a0: m::CreateMessageRequestParams = arg(a, 0)?; let r = m::CreateMessageRequest::new(a0); Ok(out!(r)) }
        "CreateMessageRequest.method" => { let s: m::CreateMessageRequest = arg(s, 0)?;  let r = m::CreateMessageRequest::method(&s); Ok(out!(r)) }
        "CreateMessageRequest.method_value" => {  let r = m::CreateMessageRequest::method_value(); Ok(out!(r)) }
        "CreateMessageRequest.method_name" => {  let r = m::CreateMessageRequest::method_name(); Ok(out!(r)) }
        "DiscoverRequest.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: m::RequestParams = arg(a, 1)?; let r = m::DiscoverRequest::new(a0, a1); Ok(out!(r)) }
        "DiscoverRequest.jsonrpc" => { let s: m::DiscoverRequest = arg(s, 0)?;  let r = m::DiscoverRequest::jsonrpc(&s); Ok(out!(r)) }
        "DiscoverRequest.method" => { let s: m::DiscoverRequest = arg(s, 0)?;  let r = m::DiscoverRequest::method(&s); Ok(out!(r)) }
        "DiscoverRequest.method_value" => {  let r = m::DiscoverRequest::method_value(); Ok(out!(r)) }
        "DiscoverRequest.method_name" => {  let r = m::DiscoverRequest::method_name(); Ok(out!(r)) }
        "DiscoverResultCacheScope.Display" => { let s: m::DiscoverResultCacheScope = arg(s, 0)?; Ok(s.to_string().view()) }
        "DiscoverResultResponse.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: m::DiscoverResult = arg(a, 1)?; let r = m::DiscoverResultResponse::new(a0, a1); Ok(out!(r)) }
        "DiscoverResultResponse.jsonrpc" => { let s: m::DiscoverResultResponse = arg(s, 0)?;  let r = m::DiscoverResultResponse::jsonrpc(&s); Ok(out!(r)) }
        "ElicitRequest.new" => { let a0: m::ElicitRequestParams = arg(a, 0)?; let r = m::ElicitRequest::new(a0); Ok(out!(r)) }
        "ElicitRequest.method" => { let s: m::ElicitRequest = arg(s, 0)?;  let r = m::ElicitRequest::method(&s); Ok(out!(r)) }
        "ElicitRequest.method_value" => {  let r = m::ElicitRequest::method_value(); Ok(out!(r)) }
        "ElicitRequest.method_name" => {  let r = m::ElicitRequest::method_name(); Ok(out!(r)) }
        "ElicitRequestFormParams.new" => { let a0: ::std::string::String = arg(a, 0)?; let a1: m::ElicitRequestFormParamsRequestedSchema = arg(a, 1)?; let r = m::ElicitRequestFormParams::new(a0, a1); Ok(out!(r)) }
        "ElicitRequestFormParams.mode" => { let s: m::ElicitRequestFormParams = arg(s, 0)?;  let r = m::ElicitRequestFormParams::mode(&s); Ok(out!(r)) }
        "ElicitRequestFormParams.mode_value" => {  let r = m::ElicitRequestFormParams::mode_value(); Ok(out!(r)) }
        "ElicitRequestFormParams.mode_name" => {  let r = m::ElicitRequestFormParams::mode_name(); Ok(out!(r)) }
        "ElicitRequestFormParamsRequestedSchema.new" => { let a0: std::collections::BTreeMap<::std::string::String,m::PrimitiveSchemaDefinition> = arg(a, 0)?; let a1: ::std::vec::Vec<::std::string::String> = arg(a, 1)?; let a2: ::std::option::Option<::std::string::String> = arg(a, 2)?; let r = m::ElicitRequestFormParamsRequestedSchema::new(a0, a1, a2); Ok(out!(r)) }
        "ElicitRequestFormParamsRequestedSchema.type_" => { let s: m::ElicitRequestFormParamsRequestedSchema = arg(s, 0)?;  let r = m::ElicitRequestFormParamsRequestedSchema::type_(&s); Ok(out!(r)) }
        "ElicitRequestFormParamsRequestedSchema.type_value" => {  let r = m::ElicitRequestFormParamsRequestedSchema::type_value(); Ok(out!(r)) }
        "ElicitRequestFormParamsRequestedSchema.type_name" => {  let r = m::ElicitRequestFormParamsRequestedSchema::type_name(); Ok(out!(r)) }
        "ElicitRequestParams.From<ElicitRequestFormParams>" => { let a0: m::ElicitRequestFormParams = arg(a, 0)?; let r: m::ElicitRequestParams = From::from(a0); Ok(out!(r)) }
        "ElicitRequestParams.From<ElicitRequestUrlParams>" => { let a0: m::ElicitRequestUrlParams = arg(a, 0)?; let r: m::ElicitRequestParams = From::from(a0); Ok(out!(r)) }
        "ElicitRequestUrlParams.new" => { let a0: ::std::string::String = arg(a, 0)?; let a1: ::std::string::String = arg(a, 1)?; let r = m::ElicitRequestUrlParams::new(a0, a1); Ok(out!(r)) }
        "ElicitRequestUrlParams.mode" => { let s: m::ElicitRequestUrlParams = arg(s, 0)?;  let r = m::ElicitRequestUrlParams::mode(&s); Ok(out!(r)) }
        "ElicitRequestUrlParams.mode_value" => {  let r = m::ElicitRequestUrlParams::mode_value(); Ok(out!(r)) }
        "ElicitRequestUrlParams.mode_name" => {  let r = m::ElicitRequestUrlParams::mode_name(); Ok(out!(r)) }
        "ElicitResultAction.Display" => { let s: m::ElicitResultAction = arg(s, 0)?; Ok(s.to_string().view()) }
        "ElicitResultContent.From<Vec<String>>" => { let a0: ::std::vec::Vec<::std::string::String> = arg(a, 0)?; let r: m::ElicitResultContent = From::from(a0); Ok(out!(r)) }
        "ElicitResultContent.From<ElicitResultContentPrimitive>" => { let a0: m::ElicitResultContentPrimitive = arg(a, 0)?; let r: m::ElicitResultContent = From::from(a0); Ok(out!(r)) }
        "ElicitResultContentPrimitive.From<bool>" => { let a0: bool = arg(a, 0)?; let r: m::ElicitResultContentPrimitive = From::from(a0); Ok(out!(r)) }
        "ElicitResultContentPrimitive.From<i64>" => { let a0: i64 = arg(a, 0)?; let r: m::ElicitResultContentPrimitive = From::from(a0); Ok(out!(r)) }
        "EmbeddedResource.new" => { let a0: m::EmbeddedResourceResource = arg(a, 0)?; let a1: ::std::option::Option<m::Annotations> = arg(a, 1)?; let a2: ::std::option::Option<m::MetaObject> = arg(a, 2)?; let r = m::EmbeddedResource::new(a0, a1, a2); Ok(out!(r)) }
        "EmbeddedResource.type_" => { let s: m::EmbeddedResource = arg(s, 0)?;  let r = m::EmbeddedResource::type_(&s); Ok(out!(r)) }
        "EmbeddedResource.type_value" => {  let r = m::EmbeddedResource::type_value(); Ok(out!(r)) }
        "EmbeddedResource.type_name" => {  let r = m::EmbeddedResource::type_name(); Ok(out!(r)) }
        "EmbeddedResourceResource.From<TextResourceContents>" => { let a0: m::TextResourceContents = arg(a, 0)?; let r: m::EmbeddedResourceResource = From::from(a0); Ok(out!(r)) }
        "EmbeddedResourceResource.From<BlobResourceContents>" => { let a0: m::BlobResourceContents = arg(a, 0)?; let r: m::EmbeddedResourceResource = From::from(a0); Ok(out!(r)) }
        "EnumSchema.From<UntitledSingleSelectEnumSchema>" => { let a0: m::UntitledSingleSelectEnumSchema = arg(a, 0)?; let r: m::EnumSchema = From::from(a0); Ok(out!(r)) }
        "EnumSchema.From<TitledSingleSelectEnumSchema>" => { let a0: m::TitledSingleSelectEnumSchema = arg(a, 0)?; let r: m::EnumSchema = From::from(a0); Ok(out!(r)) }
        "EnumSchema.From<UntitledMultiSelectEnumSchema>" => { let a0: m::UntitledMultiSelectEnumSchema = arg(a, 0)?; let r: m::EnumSchema = From::from(a0); Ok(out!(r)) }
        "EnumSchema.From<TitledMultiSelectEnumSchema>" => { let a0: m::TitledMultiSelectEnumSchema = arg(a, 0)?; let r: m::EnumSchema = From::from(a0); Ok(out!(r)) }
        "EnumSchema.From<LegacyTitledEnumSchema>" => { let a0: m::LegacyTitledEnumSchema = arg(a, 0)?; let r: m::EnumSchema = From::from(a0); Ok(out!(r)) }
        "GetPromptRequest.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: m::GetPromptRequestParams = arg(a, 1)?; let r = m::GetPromptRequest::new(a0, a1); Ok(out!(r)) }
        "GetPromptRequest.jsonrpc" => { let s: m::GetPromptRequest = arg(s, 0)?;  let r = m::GetPromptRequest::jsonrpc(&s); Ok(out!(r)) }
        "GetPromptRequest.method" => { let s: m::GetPromptRequest = arg(s, 0)?;  let r = m::GetPromptRequest::method(&s); Ok(out!(r)) }
        "GetPromptRequest.method_value" => {  let r = m::GetPromptRequest::method_value(); Ok(out!(r)) }
        "GetPromptRequest.method_name" => {  let r = m::GetPromptRequest::method_name(); Ok(out!(r)) }
        "GetPromptResultResponse.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: m::GetPromptResultResponseResult = arg(a, 1)?; let r = m::GetPromptResultResponse::new(a0, a1); Ok(out!(r)) }
        "GetPromptResultResponse.jsonrpc" => { let s: m::GetPromptResultResponse = arg(s, 0)?;  let r = m::GetPromptResultResponse::jsonrpc(&s); Ok(out!(r)) }
        "GetPromptResultResponseResult.From<InputRequiredResult>" => { let a0: m::InputRequiredResult = arg(a, 0)?; let r: m::GetPromptResultResponseResult = From::from(a0); Ok(out!(r)) }
        "GetPromptResultResponseResult.From<GetPromptResult>" => { let a0: m::GetPromptResult = arg(a, 0)?; let r: m::GetPromptResultResponseResult = From::from(a0); Ok(out!(r)) }
        "HeaderMismatchError.new" => { let a0: m::RpcError = arg(a, 0)?; let a1: ::std::option::Option<m::RequestId> = arg(a, 1)?; let r = m::HeaderMismatchError::new(a0, a1); Ok(out!(r)) }
        "HeaderMismatchError.jsonrpc" => { let s: m::HeaderMismatchError = arg(s, 0)?;  let r = m::HeaderMismatchError::jsonrpc(&s); Ok(out!(r)) }
        "IconTheme.Display" => { let s: m::IconTheme = arg(s, 0)?; Ok(s.to_string().view()) }
        "ImageContent.new" => { let a0: ::std::string::String = arg(a, 0)?; let a1: ::std::string::String = arg(a, 1)?; let a2: ::std::option::Option<m::Annotations> = arg(a, 2)?; let a3: ::std::option::Option<m::MetaObject> = arg(a, 3)?; let r = m::ImageContent::new(a0, a1, a2, a3); Ok(out!(r)) }
        "ImageContent.type_" => { let s: m::ImageContent = arg(s, 0)?;  let r = m::ImageContent::type_(&s); Ok(out!(r)) }
        "ImageContent.type_value" => {  let r = m::ImageContent::type_value(); Ok(out!(r)) }
        "ImageContent.type_name" => {  let r = m::ImageContent::type_name(); Ok(out!(r)) }
        "IncludeContext.Display" => { let s: m::IncludeContext = arg(s, 0)?; Ok(s.to_string().view()) }
        "InputRequest.From<CreateMessageRequest>" => { let a0: m::CreateMessageRequest = arg(a, 0)?; let r: m::InputRequest = From::from(a0); Ok(out!(r)) }
        "InputRequest.From<ListRootsRequest>" => { let a0: m::ListRootsRequest = arg(a, 0)?; let r: m::InputRequest = From::from(a0); Ok(out!(r)) }
        "InputRequest.From<ElicitRequest>" => { let a0: m::ElicitRequest = arg(a, 0)?; let r: m::InputRequest = From::from(a0); Ok(out!(r)) }
        "InputResponse.From<CreateMessageResult>" => { let a0: m::CreateMessageResult = arg(a, 0)?; let r: m::InputResponse = From::from(a0); Ok(out!(r)) }
        "InputResponse.From<ListRootsResult>" => { let a0: m::ListRootsResult = arg(a, 0)?; let r: m::InputResponse = From::from(a0); Ok(out!(r)) }
        "InputResponse.From<ElicitResult>" => { let a0: m::ElicitResult = arg(a, 0)?; let r: m::InputResponse = From::from(a0); Ok(out!(r)) }
        "JsonValue.From<JsonObject>" => { let a0: m::JsonObject = arg(a, 0)?; let r: m::JsonValue = From::from(a0); Ok(out!(r)) }
        "JsonValue.From<Vec<JsonValue>>" => { let a0: ::std::vec::Vec<m::JsonValue> = arg(a, 0)?; let r: m::JsonValue = From::from(a0); Ok(out!(r)) }
        "JsonValue.From<JsonValueVariant2>" => { let a0: m::JsonValueVariant2 = arg(a, 0)?; let r: m::JsonValue = From::from(a0); Ok(out!(r)) }
        "JsonValueVariant2.From<bool>" => { let a0: bool = arg(a, 0)?; let r: m::JsonValueVariant2 = From::from(a0); Ok(out!(r)) }
        "JsonValueVariant2.From<i64>" => { let a0: i64 = arg(a, 0)?; let r: m::JsonValueVariant2 = From::from(a0); Ok(out!(r)) }
        "JsonrpcErrorResponse.new" => { let a0: m::RpcError = arg(a, 0)?; let a1: ::std::option::Option<m::RequestId> = arg(a, 1)?; let r = m::JsonrpcErrorResponse::new(a0, a1); Ok(out!(r)) }
        "JsonrpcErrorResponse.jsonrpc" => { let s: m::JsonrpcErrorResponse = arg(s, 0)?;  let r = m::JsonrpcErrorResponse::jsonrpc(&s); Ok(out!(r)) }
        "JsonrpcMessage.From<JsonrpcRequest>" => { let a0: m::JsonrpcRequest = arg(a, 0)?; let r: m::JsonrpcMessage = From::from(a0); Ok(out!(r)) }
        "JsonrpcMessage.From<JsonrpcNotification>" => { let a0: m::JsonrpcNotification = arg(a, 0)?; let r: m::JsonrpcMessage = From::from(a0); Ok(out!(r)) }
        "JsonrpcMessage.From<JsonrpcResultResponse>" => { let a0: m::JsonrpcResultResponse = arg(a, 0)?; let r: m::JsonrpcMessage = From::from(a0); Ok(out!(r)) }
        "JsonrpcMessage.From<JsonrpcErrorResponse>" => { let a0: m::JsonrpcErrorResponse = arg(a, 0)?; let r: m::JsonrpcMessage = From::from(a0); Ok(out!(r)) }
        "JsonrpcNotification.new" => { let a0: ::std::string::String = arg(a, 0)?; let a1: ::std::option::Option<::serde_json::Map<::std::string::String,::serde_json::Value>> = arg(a, 1)?; let r = m::JsonrpcNotification::new(a0, a1); Ok(out!(r)) }
        "JsonrpcNotification.jsonrpc" => { let s: m::JsonrpcNotification = arg(s, 0)?;  let r = m::JsonrpcNotification::jsonrpc(&s); Ok(out!(r)) }
        "JsonrpcRequest.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: ::std::string::String = arg(a, 1)?; let a2: ::std::option::Option<::serde_json::Map<::std::string::String,::serde_json::Value>> = arg(a, 2)?; let r = m::JsonrpcRequest::new(a0, a1, a2); Ok(out!(r)) }
        "JsonrpcRequest.jsonrpc" => { let s: m::JsonrpcRequest = arg(s, 0)?;  let r = m::JsonrpcRequest::jsonrpc(&s); Ok(out!(r)) }
        "JsonrpcResponse.From<JsonrpcResultResponse>" => { let a0: m::JsonrpcResultResponse = arg(a, 0)?; let r: m::JsonrpcResponse = From::from(a0); Ok(out!(r)) }
        "JsonrpcResponse.From<JsonrpcErrorResponse>" => { let a0: m::JsonrpcErrorResponse = arg(a, 0)?; let r: m::JsonrpcResponse = From::from(a0); Ok(out!(r)) }
        "JsonrpcResultResponse.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: m::Result = arg(a, 1)?; let r = m::JsonrpcResultResponse::new(a0, a1); Ok(out!(r)) }
        "JsonrpcResultResponse.jsonrpc" => { let s: m::JsonrpcResultResponse = arg(s, 0)?;  let r = m::JsonrpcResultResponse::jsonrpc(&s); Ok(out!(r)) }
        "LegacyTitledEnumSchema.new" => { let a0: ::std::vec::Vec<::std::string::String> = arg(a, 0)?; let a1: ::std::vec::Vec<::std::string::String> = arg(a, 1)?; let a2: ::std::option::Option<::std::string::String> = arg(a, 2)?; let a3: ::std::option::Option<::std::string::String> = arg(a, 3)?; let a4: ::std::option::Option<::std::string::String> = arg(a, 4)?; let r = m::LegacyTitledEnumSchema::new(a0, a1, a2, a3, a4); Ok(out!(r)) }
        "LegacyTitledEnumSchema.type_" => { let s: m::LegacyTitledEnumSchema = arg(s, 0)?;  let r = m::LegacyTitledEnumSchema::type_(&s); Ok(out!(r)) }
        "LegacyTitledEnumSchema.type_value" => {  let r = m::LegacyTitledEnumSchema::type_value(); Ok(out!(r)) }
        "LegacyTitledEnumSchema.type_name" => {  let r = m::LegacyTitledEnumSchema::type_name(); Ok(out!(r)) }
        "ListPromptsRequest.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: m::PaginatedRequestParams = arg(a, 1)?; let r = m::ListPromptsRequest::new(a0, a1); Ok(out!(r)) }
        "ListPromptsRequest.jsonrpc" => { let s: m::ListPromptsRequest = arg(s, 0)?;  let r = m::ListPromptsRequest::jsonrpc(&s); Ok(out!(r)) }
        "ListPromptsRequest.method" => { let s: m::ListPromptsRequest = arg(s, 0)?;  let r = m::ListPromptsRequest::method(&s); Ok(out!(r)) }
        "ListPromptsRequest.method_value" => {  let r = m::ListPromptsRequest::method_value(); Ok(out!(r)) }
        "ListPromptsRequest.method_name" => {  let r = m::ListPromptsRequest::method_name(); Ok(out!(r)) }
        "ListPromptsResultCacheScope.Display" => { let s: m::ListPromptsResultCacheScope = arg(s, 0)?; Ok(s.to_string().view()) }
        "ListPromptsResultResponse.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: m::ListPromptsResult = arg(a, 1)?; let r = m::ListPromptsResultResponse::new(a0, a1); Ok(out!(r)) }
        "ListPromptsResultResponse.jsonrpc" => { let s: m::ListPromptsResultResponse = arg(s, 0)?;  let r = m::ListPromptsResultResponse::jsonrpc(&s); Ok(out!(r)) }
        "ListResourceTemplatesRequest.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: m::PaginatedRequestParams = arg(a, 1)?; let r = m::ListResourceTemplatesRequest::new(a0, a1); Ok(out!(r)) }
        "ListResourceTemplatesRequest.jsonrpc" => { let s: m::ListResourceTemplatesRequest = arg(s, 0)?;  let r = m::ListResourceTemplatesRequest::jsonrpc(&s); Ok(out!(r)) }
        "ListResourceTemplatesRequest.method" => { let s: m::ListResourceTemplatesRequest = arg(s, 0)?;  let r = m::ListResourceTemplatesRequest::method(&s); Ok(out!(r)) }
        "ListResourceTemplatesRequest.method_value" => {  let r = m::ListResourceTemplatesRequest::method_value(); Ok(out!(r)) }
        "ListResourceTemplatesRequest.method_name" => {  let r = m::ListResourceTemplatesRequest::method_name(); Ok(out!(r)) }
        "ListResourceTemplatesResultCacheScope.Display" => { let s: m::ListResourceTemplatesResultCacheScope = arg(s, 0)?; Ok(s.to_string().view()) }
        "ListResourceTemplatesResultResponse.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: m::ListResourceTemplatesResult = arg(a, 1)?; let r = m::ListResourceTemplatesResultResponse::new(a0, a1); Ok(out!(r)) }
        "ListResourceTemplatesResultResponse.jsonrpc" => { let s: m::ListResourceTemplatesResultResponse = arg(s, 0)?;  let r = m::ListResourceTemplatesResultResponse::jsonrpc(&s); Ok(out!(r)) }
        "ListResourcesRequest.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: m::PaginatedRequestParams = arg(a, 1)?; let r = m::ListResourcesRequest::new(a0, a1); Ok(out!(r)) }
        "ListResourcesRequest.jsonrpc" => { let s: m::ListResourcesRequest = arg(s, 0)?;  let r = m::ListResourcesRequest::jsonrpc(&s); Ok(out!(r)) }
        "ListResourcesRequest.method" => { let s: m::ListResourcesRequest = arg(s, 0)?;  let r = m::ListResourcesRequest::method(&s); Ok(out!(r)) }
        "ListResourcesRequest.method_value" => {  let r = m::ListResourcesRequest::method_value(); Ok(out!(r)) }
        "ListResourcesRequest.method_name" => {  let r = m::ListResourcesRequest::method_name(); Ok(out!(r)) }
        "ListResourcesResultCacheScope.Display" => { let s: m::ListResourcesResultCacheScope = arg(s, 0)?; Ok(s.to_string().view()) }
        "ListResourcesResultResponse.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: m::ListResourcesResult = arg(a, 1)?; let r = m::ListResourcesResultResponse::new(a0, a1); Ok(out!(r)) }
        "ListResourcesResultResponse.jsonrpc" => { let s: m::ListResourcesResultResponse = arg(s, 0)?;  let r = m::ListResourcesResultResponse::jsonrpc(&s); Ok(out!(r)) }
        "ListRootsRequest.new" => { let a0: ::std::option::Option<m::ListRootsRequestParams> = arg(a, 0)?; let r = m::ListRootsRequest::new(a0); Ok(out!(r)) }
        "ListRootsRequest.method" => { let s: m::ListRootsRequest = arg(s, 0)?;  let r = m::ListRootsRequest::method(&s); Ok(out!(r)) }
        "ListRootsRequest.method_value" => {  let r = m::ListRootsRequest::method_value(); Ok(out!(r)) }
        "ListRootsRequest.method_name" => {  let r = m::ListRootsRequest::method_name(); Ok(out!(r)) }
        "ListToolsRequest.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: m::PaginatedRequestParams = arg(a, 1)?; let r = m::ListToolsRequest::new(a0, a1); Ok(out!(r)) }
        "ListToolsRequest.jsonrpc" => { let s: m::ListToolsRequest = arg(s, 0)?;  let r = m::ListToolsRequest::jsonrpc(&s); Ok(out!(r)) }
        "ListToolsRequest.method" => { let s: m::ListToolsRequest = arg(s, 0)?;  let r = m::ListToolsRequest::method(&s); Ok(out!(r)) }
        "ListToolsRequest.method_value" => {  let r = m::ListToolsRequest::method_value(); Ok(out!(r)) }
        "ListToolsRequest.method_name" => {  let r = m::ListToolsRequest::method_name(); Ok(out!(r)) }
        "ListToolsResultCacheScope.Display" => { let s: m::ListToolsResultCacheScope = arg(s, 0)?; Ok(s.to_string().view()) }
        "ListToolsResultResponse.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: m::ListToolsResult = arg(a, 1)?; let r = m::ListToolsResultResponse::new(a0, a1); Ok(out!(r)) }
        "ListToolsResultResponse.jsonrpc" => { let s: m::ListToolsResultResponse = arg(s, 0)?;  let r = m::ListToolsResultResponse::jsonrpc(&s); Ok(out!(r)) }
        "LoggingLevel.Display" => { let s: m::LoggingLevel = arg(s, 0)?; Ok(s.to_string().view()) }
        "LoggingMessageNotification.new" => { let a0: m::LoggingMessageNotificationParams = arg(a, 0)?; let r = m::LoggingMessageNotification::new(a0); Ok(out!(r)) }
        "LoggingMessageNotification.jsonrpc" => { let s: m::LoggingMessageNotification = arg(s, 0)?;  let r = m::LoggingMessageNotification::jsonrpc(&s); Ok(out!(r)) }
        "LoggingMessageNotification.method" => { let s: m::LoggingMessageNotification = arg(s, 0)?;  let r = m::LoggingMessageNotification::method(&s); Ok(out!(r)) }
        "LoggingMessageNotification.method_value" => {  let r = m::LoggingMessageNotification::method_value(); Ok(out!(r)) }
        "LoggingMessageNotification.method_name" => {  let r = m::LoggingMessageNotification::method_name(); Ok(out!(r)) }
        "MissingRequiredClientCapabilityError.new" => { let a0: m::MissingRequiredClientCapabilityErrorError = arg(a, 0)?; let a1: ::std::option::Option<m::RequestId> = arg(a, 1)?; let r = m::MissingRequiredClientCapabilityError::new(a0, a1); Ok(out!(r)) }
        "MissingRequiredClientCapabilityError.jsonrpc" => { let s: m::MissingRequiredClientCapabilityError = arg(s, 0)?;  let r = m::MissingRequiredClientCapabilityError::jsonrpc(&s); Ok(out!(r)) }
        "MultiSelectEnumSchema.From<UntitledMultiSelectEnumSchema>" => { let a0: m::UntitledMultiSelectEnumSchema = arg(a, 0)?; let r: m::MultiSelectEnumSchema = From::from(a0); Ok(out!(r)) }
        "MultiSelectEnumSchema.From<TitledMultiSelectEnumSchema>" => { let a0: m::TitledMultiSelectEnumSchema = arg(a, 0)?; let r: m::MultiSelectEnumSchema = From::from(a0); Ok(out!(r)) }
        "NumberSchemaType.Display" => { let s: m::NumberSchemaType = arg(s, 0)?; Ok(s.to_string().view()) }
        "PaginatedRequest.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: ::std::string::String = arg(a, 1)?; let a2: m::PaginatedRequestParams = arg(a, 2)?; let r = m::PaginatedRequest::new(a0, a1, a2); Ok(out!(r)) }
        "PaginatedRequest.jsonrpc" => { let s: m::PaginatedRequest = arg(s, 0)?;  let r = m::PaginatedRequest::jsonrpc(&s); Ok(out!(r)) }
        "PrimitiveSchemaDefinition.From<StringSchema>" => { let a0: m::StringSchema = arg(a, 0)?; let r: m::PrimitiveSchemaDefinition = From::from(a0); Ok(out!(r)) }
        "PrimitiveSchemaDefinition.From<NumberSchema>" => { let a0: m::NumberSchema = arg(a, 0)?; let r: m::PrimitiveSchemaDefinition = From::from(a0); Ok(out!(r)) }
        "PrimitiveSchemaDefinition.From<BooleanSchema>" => { let a0: m::BooleanSchema = arg(a, 0)?; let r: m::PrimitiveSchemaDefinition = From::from(a0); Ok(out!(r)) }
        "PrimitiveSchemaDefinition.From<UntitledSingleSelectEnumSchema>" => { let a0: m::UntitledSingleSelectEnumSchema = arg(a, 0)?; let r: m::PrimitiveSchemaDefinition = From::from(a0); Ok(out!(r)) }
        "PrimitiveSchemaDefinition.From<TitledSingleSelectEnumSchema>" => { let a0: m::TitledSingleSelectEnumSchema = arg(a, 0)?; let r: m::PrimitiveSchemaDefinition = From::from(a0); Ok(out!(r)) }
        "PrimitiveSchemaDefinition.From<UntitledMultiSelectEnumSchema>" => { let a0: m::UntitledMultiSelectEnumSchema = arg(a, 0)?; let r: m::PrimitiveSchemaDefinition = From::from(a0); Ok(out!(r)) }
        "PrimitiveSchemaDefinition.From<TitledMultiSelectEnumSchema>" => { let a0: m::TitledMultiSelectEnumSchema = arg(a, 0)?; let r: m::PrimitiveSchemaDefinition = From::from(a0); Ok(out!(r)) }
        "PrimitiveSchemaDefinition.From<LegacyTitledEnumSchema>" => { let a0: m::LegacyTitledEnumSchema = arg(a, 0)?; let r: m::PrimitiveSchemaDefinition = From::from(a0); Ok(out!(r)) }
        "ProgressNotification.new" => { let a0: m::ProgressNotificationParams = arg(a, 0)?; let r = m::ProgressNotification::new(a0); Ok(out!(r)) }
        "ProgressNotification.jsonrpc" => { let s: m::ProgressNotification = arg(s, 0)?;  let r = m::ProgressNotification::jsonrpc(&s); Ok(out!(r)) }
        "ProgressNotification.method" => { let s: m::ProgressNotification = arg(s, 0)?;  let r = m::ProgressNotification::method(&s); Ok(out!(r)) }
        "ProgressNotification.method_value" => {  let r = m::ProgressNotification::method_value(); Ok(out!(r)) }
        "ProgressNotification.method_name" => {  let r = m::ProgressNotification::method_name(); Ok(out!(r)) }
        "ProgressToken.From<i64>" => { let a0: i64 = arg(a, 0)?; let r: m::ProgressToken = From::from(a0); Ok(out!(r)) }
        "PromptListChangedNotification.new" => { let a0: ::std::option::Option<m::NotificationParams> = arg(a, 0)?; let r = m::PromptListChangedNotification::new(a0); Ok(out!(r)) }
        "PromptListChangedNotification.jsonrpc" => { let s: m::PromptListChangedNotification = arg(s, 0)?;  let r = m::PromptListChangedNotification::jsonrpc(&s); Ok(out!(r)) }
        "PromptListChangedNotification.method" => { let s: m::PromptListChangedNotification = arg(s, 0)?;  let r = m::PromptListChangedNotification::method(&s); Ok(out!(r)) }
        "PromptListChangedNotification.method_value" => {  let r = m::PromptListChangedNotification::method_value(); Ok(out!(r)) }
        "PromptListChangedNotification.method_name" => {  let r = m::PromptListChangedNotification::method_name(); Ok(out!(r)) }
        "PromptReference.new" => { let a0: ::std::string::String = arg(a, 0)?; let a1: ::std::option::Option<::std::string::String> = arg(a, 1)?; let r = m::PromptReference::new(a0, a1); Ok(out!(r)) }
        "PromptReference.type_" => { let s: m::PromptReference = arg(s, 0)?;  let r = m::PromptReference::type_(&s); Ok(out!(r)) }
        "PromptReference.type_value" => {  let r = m::PromptReference::type_value(); Ok(out!(r)) }
        "PromptReference.type_name" => {  let r = m::PromptReference::type_name(); Ok(out!(r)) }
        "ReadResourceContent.From<TextResourceContents>" => { let a0: m::TextResourceContents = arg(a, 0)?; let r: m::ReadResourceContent = From::from(a0); Ok(out!(r)) }
        "ReadResourceContent.From<BlobResourceContents>" => { let a0: m::BlobResourceContents = arg(a, 0)?; let r: m::ReadResourceContent = From::from(a0); Ok(out!(r)) }
        "ReadResourceRequest.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: m::ReadResourceRequestParams = arg(a, 1)?; let r = m::ReadResourceRequest::new(a0, a1); Ok(out!(r)) }
        "ReadResourceRequest.jsonrpc" => { let s: m::ReadResourceRequest = arg(s, 0)?;  let r = m::ReadResourceRequest::jsonrpc(&s); Ok(out!(r)) }
        "ReadResourceRequest.method" => { let s: m::ReadResourceRequest = arg(s, 0)?;  let r = m::ReadResourceRequest::method(&s); Ok(out!(r)) }
        "ReadResourceRequest.method_value" => {  let r = m::ReadResourceRequest::method_value(); Ok(out!(r)) }
        "ReadResourceRequest.method_name" => {  let r = m::ReadResourceRequest::method_name(); Ok(out!(r)) }
        "ReadResourceResultCacheScope.Display" => { let s: m::ReadResourceResultCacheScope = arg(s, 0)?; Ok(s.to_string().view()) }
        "ReadResourceResultResponse.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: m::ReadResourceResultResponseResult = arg(a, 1)?; let r = m::ReadResourceResultResponse::new(a0, a1); Ok(out!(r)) }
        "ReadResourceResultResponse.jsonrpc" => { let s: m::ReadResourceResultResponse = arg(s, 0)?;  let r = m::ReadResourceResultResponse::jsonrpc(&s); Ok(out!(r)) }
        "ReadResourceResultResponseResult.From<InputRequiredResult>" => { let a0: m::InputRequiredResult = arg(a, 0)?; let r: m::ReadResourceResultResponseResult = From::from(a0); Ok(out!(r)) }
        "ReadResourceResultResponseResult.From<ReadResourceResult>" => { let a0: m::ReadResourceResult = arg(a, 0)?; let r: m::ReadResourceResultResponseResult = From::from(a0); Ok(out!(r)) }
        "RequestId.From<i64>" => { let a0: i64 = arg(a, 0)?; let r: m::RequestId = From::from(a0); Ok(out!(r)) }
        "ResourceLink.new" => { let a0: ::std::vec::Vec<m::Icon> = arg(a, 0)?; let a1: ::std::string::String = arg(a, 1)?; let a2: ::std::string::String = arg(a, 2)?; let a3: ::std::option::Option<m::Annotations> = arg(a, 3)?; let a4: ::std::option::Option<::std::string::String> = arg(a, 4)?; let a5: ::std::option::Option<m::MetaObject> = arg(a, 5)?; let a6: ::std::option::Option<::std::string::String> = arg(a, 6)?; let a7: ::std::option::Option<i64> = arg(a, 7)?; let a8: ::std::option::Option<::std::string::String> = arg(a, 8)?; let r = m::ResourceLink::new(a0, a1, a2, a3, a4, a5, a6, a7, a8); Ok(out!(r)) }
        "ResourceLink.type_" => { let s: m::ResourceLink = arg(s, 0)?;  let r = m::ResourceLink::type_(&s); Ok(out!(r)) }
        "ResourceLink.type_value" => {  let r = m::ResourceLink::type_value(); Ok(out!(r)) }
        "ResourceLink.type_name" => {  let r = m::ResourceLink::type_name(); Ok(out!(r)) }
        "ResourceListChangedNotification.new" => { let a0: ::std::option::Option<m::NotificationParams> = arg(a, 0)?; let r = m::ResourceListChangedNotification::new(a0); Ok(out!(r)) }
        "ResourceListChangedNotification.jsonrpc" => { let s: m::ResourceListChangedNotification = arg(s, 0)?;  let r = m::ResourceListChangedNotification::jsonrpc(&s); Ok(out!(r)) }
        "ResourceListChangedNotification.method" => { let s: m::ResourceListChangedNotification = arg(s, 0)?;  let r = m::ResourceListChangedNotification::method(&s); Ok(out!(r)) }
        "ResourceListChangedNotification.method_value" => {  let r = m::ResourceListChangedNotification::method_value(); Ok(out!(r)) }
        "ResourceListChangedNotification.method_name" => {  let r = m::ResourceListChangedNotification::method_name(); Ok(out!(r)) }
        "ResourceTemplateReference.new" => { let a0: ::std::string::String = arg(a, 0)?; let r = m::ResourceTemplateReference::new(a0); Ok(out!(r)) }
        "ResourceTemplateReference.type_" => { let s: m::ResourceTemplateReference = arg(s, 0)?;  let r = m::ResourceTemplateReference::type_(&s); Ok(out!(r)) }
        "ResourceTemplateReference.type_value" => {  let r = m::ResourceTemplateReference::type_value(); Ok(out!(r)) }
        "ResourceTemplateReference.type_name" => {  let r = m::ResourceTemplateReference::type_name(); Ok(out!(r)) }
        "ResourceUpdatedNotification.new" => { let a0: m::ResourceUpdatedNotificationParams = arg(a, 0)?; let r = m::ResourceUpdatedNotification::new(a0); Ok(out!(r)) }
        "ResourceUpdatedNotification.jsonrpc" => { let s: m::ResourceUpdatedNotification = arg(s, 0)?;  let r = m::ResourceUpdatedNotification::jsonrpc(&s); Ok(out!(r)) }
        "ResourceUpdatedNotification.method" => { let s: m::ResourceUpdatedNotification = arg(s, 0)?;  let r = m::ResourceUpdatedNotification::method(&s); Ok(out!(r)) }
        "ResourceUpdatedNotification.method_value" => {  let r = m::ResourceUpdatedNotification::method_value(); Ok(out!(r)) }
        "ResourceUpdatedNotification.method_name" => {  let r = m::ResourceUpdatedNotification::method_name(); Ok(out!(r)) }
        "Role.Display" => { let s: m::Role = arg(s, 0)?; Ok(s.to_string().view()) }
        "SamplingMessageContent.From<TextContent>" => { let a0: m::TextContent = arg(a, 0)?; let r: m::SamplingMessageContent = From::from(a0); Ok(out!(r)) }
        "SamplingMessageContent.From<ImageContent>" => { let a0: m::ImageContent = arg(a, 0)?; let r: m::SamplingMessageContent = From::from(a0); Ok(out!(r)) }
        "SamplingMessageContent.From<AudioContent>" => { let a0: m::AudioContent = arg(a, 0)?; let r: m::SamplingMessageContent = From::from(a0); Ok(out!(r)) }
        "SamplingMessageContent.From<ToolUseContent>" => { let a0: m::ToolUseContent = arg(a, 0)?; let r: m::SamplingMessageContent = From::from(a0); Ok(out!(r)) }
        "SamplingMessageContent.From<ToolResultContent>" => { let a0: m::ToolResultContent = arg(a, 0)?; let r: m::SamplingMessageContent = From::from(a0); Ok(out!(r)) }
        "SamplingMessageContent.From<Vec<SamplingMessageContentBlock>>" => { let a0: ::std::vec::Vec<m::SamplingMessageContentBlock> = arg(a, 0)?; let r: m::SamplingMessageContent = From::from(a0); Ok(out!(r)) }
        "SamplingMessageContentBlock.From<TextContent>" => { let a0: m::TextContent = arg(a, 0)?; let r: m::SamplingMessageContentBlock = From::from(a0); Ok(out!(r)) }
        "SamplingMessageContentBlock.From<ImageContent>" => { let a0: m::ImageContent = arg(a, 0)?; let r: m::SamplingMessageContentBlock = From::from(a0); Ok(out!(r)) }
        "SamplingMessageContentBlock.From<AudioContent>" => { let a0: m::AudioContent = arg(a, 0)?; let r: m::SamplingMessageContentBlock = From::from(a0); Ok(out!(r)) }
        "SamplingMessageContentBlock.From<ToolUseContent>" => { let a0: m::ToolUseContent = arg(a, 0)?; let r: m::SamplingMessageContentBlock = From::from(a0); Ok(out!(r)) }
        "SamplingMessageContentBlock.From<ToolResultContent>" => { let a0: m::ToolResultContent = arg(a, 0)?; let r: m::SamplingMessageContentBlock = From::from(a0); Ok(out!(r)) }
        "ServerNotification.From<CancelledNotification>" => { let a0: m::CancelledNotification = arg(a, 0)?; let r: m::ServerNotification = From::from(a0); Ok(out!(r)) }
        "ServerNotification.From<ProgressNotification>" => { let a0: m::ProgressNotification = arg(a, 0)?; let r: m::ServerNotification = From::from(a0); Ok(out!(r)) }
        "ServerNotification.From<ResourceListChangedNotification>" => { let a0: m::ResourceListChangedNotification = arg(a, 0)?; let r: m::ServerNotification = From::from(a0); Ok(out!(r)) }
        "ServerNotification.From<SubscriptionsAcknowledgedNotification>" => { let a0: m::SubscriptionsAcknowledgedNotification = arg(a, 0)?; let r: m::ServerNotification = From::from(a0); Ok(out!(r)) }
        "ServerNotification.From<ResourceUpdatedNotification>" => { let a0: m::ResourceUpdatedNotification = arg(a, 0)?; let r: m::ServerNotification = From::from(a0); Ok(out!(r)) }
        "ServerNotification.From<PromptListChangedNotification>" => { let a0: m::PromptListChangedNotification = arg(a, 0)?; let r: m::ServerNotification = From::from(a0); Ok(out!(r)) }
        "ServerNotification.From<ToolListChangedNotification>" => { let a0: m::ToolListChangedNotification = arg(a, 0)?; let r: m::ServerNotification = From::from(a0); Ok(out!(r)) }
        "ServerNotification.From<LoggingMessageNotification>" => { let a0: m::LoggingMessageNotification = arg(a, 0)?; let r: m::ServerNotification = From::from(a0); Ok(out!(r)) }
        "ServerResult.From<InputRequiredResult>" => { let a0: m::InputRequiredResult = arg(a, 0)?; let r: m::ServerResult = From::from(a0); Ok(out!(r)) }
        "ServerResult.From<DiscoverResult>" => { let a0: m::DiscoverResult = arg(a, 0)?; let r: m::ServerResult = From::from(a0); Ok(out!(r)) }
        "ServerResult.From<ListResourcesResult>" => { let a0: m::ListResourcesResult = arg(a, 0)?; let r: m::ServerResult = From::from(a0); Ok(out!(r)) }
        "ServerResult.From<ListResourceTemplatesResult>" => { let a0: m::ListResourceTemplatesResult = arg(a, 0)?; let r: m::ServerResult = From::from(a0); Ok(out!(r)) }
        "ServerResult.From<ReadResourceResult>" => { let a0: m::ReadResourceResult = arg(a, 0)?; let r: m::ServerResult = From::from(a0); Ok(out!(r)) }
        "ServerResult.From<SubscriptionsListenResult>" => { let a0: m::SubscriptionsListenResult = arg(a, 0)?; let r: m::ServerResult = From::from(a0); Ok(out!(r)) }
        "ServerResult.From<ListPromptsResult>" => { let a0: m::ListPromptsResult = arg(a, 0)?; let r: m::ServerResult = From::from(a0); Ok(out!(r)) }
        "ServerResult.From<GetPromptResult>" => { let a0: m::GetPromptResult = arg(a, 0)?; let r: m::ServerResult = From::from(a0); Ok(out!(r)) }
        "ServerResult.From<ListToolsResult>" => { let a0: m::ListToolsResult = arg(a, 0)?; let r: m::ServerResult = From::from(a0); Ok(out!(r)) }
        "ServerResult.From<CallToolResult>" => { let a0: m::CallToolResult = arg(a, 0)?; let r: m::ServerResult = From::from(a0); Ok(out!(r)) }
        "ServerResult.From<CompleteResult>" => { let a0: m::CompleteResult = arg(a, 0)?; let r: m::ServerResult = From::from(a0); Ok(out!(r)) }
        "ServerResult.From<Result>" => { let a0: m::Result = arg(a, 0)?; let r: m::ServerResult = From::from(a0); Ok(out!(r)) }
        "SingleSelectEnumSchema.From<UntitledSingleSelectEnumSchema>" => { let a0: m::UntitledSingleSelectEnumSchema = arg(a, 0)?; let r: m::SingleSelectEnumSchema = From::from(a0); Ok(out!(r)) }
        "SingleSelectEnumSchema.From<TitledSingleSelectEnumSchema>" => { let a0: m::TitledSingleSelectEnumSchema = arg(a, 0)?; let r: m::SingleSelectEnumSchema = From::from(a0); Ok(out!(r)) }
        "StringSchema.new" => { let a0: ::std::option::Option<::std::string::String> = arg(a, 0)?; let a1: ::std::option::Option<::std::string::String> = arg(a, 1)?; let a2: ::std::option::Option<m::StringSchemaFormat> = arg(a, 2)?; let a3: ::std::option::Option<i64> = arg(a, 3)?; let a4: ::std::option::Option<i64> = arg(a, 4)?; let a5: ::std::option::Option<::std::string::String> = arg(a, 5)?; let r = m::StringSchema::new(a0, a1, a2, a3, a4, a5); Ok(out!(r)) }
        "StringSchema.type_" => { let s: m::StringSchema = arg(s, 0)?;  let r = m::StringSchema::type_(&s); Ok(out!(r)) }
        "StringSchema.type_value" => {  let r = m::StringSchema::type_value(); Ok(out!(r)) }
        "StringSchema.type_name" => {  let r = m::StringSchema::type_name(); Ok(out!(r)) }
        "StringSchemaFormat.Display" => { let s: m::StringSchemaFormat = arg(s, 0)?; Ok(s.to_string().view()) }
        "SubscriptionsAcknowledgedNotification.new" => { let a0: m::SubscriptionsAcknowledgedNotificationParams = arg(a, 0)?; let r = m::SubscriptionsAcknowledgedNotification::new(a0); Ok(out!(r)) }
        "SubscriptionsAcknowledgedNotification.jsonrpc" => { let s: m::SubscriptionsAcknowledgedNotification = arg(s, 0)?;  let r = m::SubscriptionsAcknowledgedNotification::jsonrpc(&s); Ok(out!(r)) }
        "SubscriptionsAcknowledgedNotification.method" => { let s: m::SubscriptionsAcknowledgedNotification = arg(s, 0)?;  let r = m::SubscriptionsAcknowledgedNotification::method(&s); Ok(out!(r)) }
        "SubscriptionsAcknowledgedNotification.method_value" => {  let r = m::SubscriptionsAcknowledgedNotification::method_value(); Ok(out!(r)) }
        "SubscriptionsAcknowledgedNotification.method_name" => {  let r = m::SubscriptionsAcknowledgedNotification::method_name(); Ok(out!(r)) }
        "SubscriptionsListenRequest.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: m::SubscriptionsListenRequestParams = arg(a, 1)?; let r = m::SubscriptionsListenRequest::new(a0, a1); Ok(out!(r)) }
        "SubscriptionsListenRequest.jsonrpc" => { let s: m::SubscriptionsListenRequest = arg(s, 0)?;  let r = m::SubscriptionsListenRequest::jsonrpc(&s); Ok(out!(r)) }
        "SubscriptionsListenRequest.method" => { let s: m::SubscriptionsListenRequest = arg(s, 0)?;  let r = m::SubscriptionsListenRequest::method(&s); Ok(out!(r)) }
        "SubscriptionsListenRequest.method_value" => {  let r = m::SubscriptionsListenRequest::method_value(); Ok(out!(r)) }
        "SubscriptionsListenRequest.method_name" => {  let r = m::SubscriptionsListenRequest::method_name(); Ok(out!(r)) }
        "SubscriptionsListenResultResponse.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: m::SubscriptionsListenResult = arg(a, 1)?; let r = m::SubscriptionsListenResultResponse::new(a0, a1); Ok(out!(r)) }
        "SubscriptionsListenResultResponse.jsonrpc" => { let s: m::SubscriptionsListenResultResponse = arg(s, 0)?;  let r = m::SubscriptionsListenResultResponse::jsonrpc(&s); Ok(out!(r)) }
        "TextContent.new" => { let a0: ::std::string::String = arg(a, 0)?; let a1: ::std::option::Option<m::Annotations> = arg(a, 1)?; let a2: ::std::option::Option<m::MetaObject> = arg(a, 2)?; let r = m::TextContent::new(a0, a1, a2); Ok(out!(r)) }
        "TextContent.type_" => { let s: m::TextContent = arg(s, 0)?;  let r = m::TextContent::type_(&s); Ok(out!(r)) }
        "TextContent.type_value" => {  let r = m::TextContent::type_value(); Ok(out!(r)) }
        "TextContent.type_name" => {  let r = m::TextContent::type_name(); Ok(out!(r)) }
        "TitledMultiSelectEnumSchema.new" => { let a0: ::std::vec::Vec<::std::string::String> = arg(a, 0)?; let a1: m::TitledMultiSelectEnumSchemaItems = arg(a, 1)?; let a2: ::std::option::Option<::std::string::String> = arg(a, 2)?; let a3: ::std::option::Option<i64> = arg(a, 3)?; let a4: ::std::option::Option<i64> = arg(a, 4)?; let a5: ::std::option::Option<::std::string::String> = arg(a, 5)?; let r = m::TitledMultiSelectEnumSchema::new(a0, a1, a2, a3, a4, a5); Ok(out!(r)) }
        "TitledMultiSelectEnumSchema.type_" => { let s: m::TitledMultiSelectEnumSchema = arg(s, 0)?;  let r = m::TitledMultiSelectEnumSchema::type_(&s); Ok(out!(r)) }
        "TitledMultiSelectEnumSchema.type_value" => {  let r = m::TitledMultiSelectEnumSchema::type_value(); Ok(out!(r)) }
        "TitledMultiSelectEnumSchema.type_name" => {  let r = m::TitledMultiSelectEnumSchema::type_name(); Ok(out!(r)) }
        "TitledSingleSelectEnumSchema.new" => { let a0: ::std::vec::Vec<m::TitledSingleSelectEnumSchemaOneOfItem> = arg(a, 0)?; let a1: ::std::option::Option<::std::string::String> = arg(a, 1)?; let a2: ::std::option::Option<::std::string::String> = arg(a, 2)?; let a3: ::std::option::Option<::std::string::String> = arg(a, 3)?; let r = m::TitledSingleSelectEnumSchema::new(a0, a1, a2, a3); Ok(out!(r)) }
        "TitledSingleSelectEnumSchema.type_" => { let s: m::TitledSingleSelectEnumSchema = arg(s, 0)?;  let r = m::TitledSingleSelectEnumSchema::type_(&s); Ok(out!(r)) }
        "TitledSingleSelectEnumSchema.type_value" => {  let r = m::TitledSingleSelectEnumSchema::type_value(); Ok(out!(r)) }
        "TitledSingleSelectEnumSchema.type_name" => {  let r = m::TitledSingleSelectEnumSchema::type_name(); Ok(out!(r)) }
        "ToolChoiceMode.Display" => { let s: m::ToolChoiceMode = arg(s, 0)?; Ok(s.to_string().view()) }
        "ToolInputSchema.new" => { let a0: ::std::option::Option<::std::string::String> = arg(a, 0)?; let a1: ::std::option::Option<::serde_json::Map<::std::string::String,::serde_json::Value>> = arg(a, 1)?; let r = m::ToolInputSchema::new(a0, a1); Ok(out!(r)) }
        "ToolInputSchema.type_" => { let s: m::ToolInputSchema = arg(s, 0)?;  let r = m::ToolInputSchema::type_(&s); Ok(out!(r)) }
        "ToolInputSchema.type_value" => {  let r = m::ToolInputSchema::type_value(); Ok(out!(r)) }
        "ToolInputSchema.type_name" => {  let r = m::ToolInputSchema::type_name(); Ok(out!(r)) }
        "ToolListChangedNotification.new" => { let a0: ::std::option::Option<m::NotificationParams> = arg(a, 0)?; let r = m::ToolListChangedNotification::new(a0); Ok(out!(r)) }
        "ToolListChangedNotification.jsonrpc" => { let s: m::ToolListChangedNotification = arg(s, 0)?;  let r = m::ToolListChangedNotification::jsonrpc(&s); Ok(out!(r)) }
        "ToolListChangedNotification.method" => { let s: m::ToolListChangedNotification = arg(s, 0)?;  let r = m::ToolListChangedNotification::method(&s); Ok(out!(r)) }
        "ToolListChangedNotification.method_value" => {  let r = m::ToolListChangedNotification::method_value(); Ok(out!(r)) }
        "ToolListChangedNotification.method_name" => {  let r = m::ToolListChangedNotification::method_name(); Ok(out!(r)) }
        "ToolResultContent.new" => { let a0: ::std::vec::Vec<m::ContentBlock> = arg(a, 0)?; let a1: ::std::string::String = arg(a, 1)?; let a2: ::std::option::Option<bool> = arg(a, 2)?; let a3: ::std::option::Option<m::MetaObject> = arg(a, 3)?; let a4: ::std::option::Option<::serde_json::Value> = arg(a, 4)?; let r = m::ToolResultContent::new(a0, a1, a2, a3, a4); Ok(out!(r)) }
        "ToolResultContent.type_" => { let s: m::ToolResultContent = arg(s, 0)?;  let r = m::ToolResultContent::type_(&s); Ok(out!(r)) }
        "ToolResultContent.type_value" => {  let r = m::ToolResultContent::type_value(); Ok(out!(r)) }
        "ToolResultContent.type_name" => {  let r = m::ToolResultContent::type_name(); Ok(out!(r)) }
        "ToolUseContent.new" => { let a0: ::std::string::String = arg(a, 0)?; let a1: ::serde_json::Map<::std::string::String,::serde_json::Value> = arg(a, 1)?; let a2: ::std::string::String = arg(a, 2)?; let a3: ::std::option::Option<m::MetaObject> = arg(a, 3)?; let r = m::ToolUseContent::new(a0, a1, a2, a3); Ok(out!(r)) }
        "ToolUseContent.type_" => { let s: m::ToolUseContent = arg(s, 0)?;  let r = m::ToolUseContent::type_(&s); Ok(out!(r)) }
        "ToolUseContent.type_value" => {  let r = m::ToolUseContent::type_value(); Ok(out!(r)) }
        "ToolUseContent.type_name" => {  let r = m::ToolUseContent::type_name(); Ok(out!(r)) }
        "UnsupportedProtocolVersionError.new" => { let a0: m::UnsupportedProtocolVersionErrorError = arg(a, 0)?; let a1: ::std::option::Option<m::RequestId> = arg(a, 1)?; let r = m::UnsupportedProtocolVersionError::new(a0, a1); Ok(out!(r)) }
        "UnsupportedProtocolVersionError.jsonrpc" => { let s: m::UnsupportedProtocolVersionError = arg(s, 0)?;  let r = m::UnsupportedProtocolVersionError::jsonrpc(&s); Ok(out!(r)) }
        "UntitledMultiSelectEnumSchema.new" => { let a0: ::std::vec::Vec<::std::string::String> = arg(a, 0)?; let a1: m::UntitledMultiSelectEnumSchemaItems = arg(a, 1)?; let a2: ::std::option::Option<::std::string::String> = arg(a, 2)?; let a3: ::std::option::Option<i64> = arg(a, 3)?; let a4: ::std::option::Option<i64> = arg(a, 4)?; let a5: ::std::option::Option<::std::string::String> = arg(a, 5)?; let r = m::UntitledMultiSelectEnumSchema::new(a0, a1, a2, a3, a4, a5); Ok(out!(r)) }
        "UntitledMultiSelectEnumSchema.type_" => { let s: m::UntitledMultiSelectEnumSchema = arg(s, 0)?;  let r = m::UntitledMultiSelectEnumSchema::type_(&s); Ok(out!(r)) }
        "UntitledMultiSelectEnumSchema.type_value" => {  let r = m::UntitledMultiSelectEnumSchema::type_value(); Ok(out!(r)) }
        "UntitledMultiSelectEnumSchema.type_name" => {  let r = m::UntitledMultiSelectEnumSchema::type_name(); Ok(out!(r)) }
        "UntitledMultiSelectEnumSchemaItems.new" => { let a0: ::std::vec::Vec<::std::string::String> = arg(a, 0)?; let r = m::UntitledMultiSelectEnumSchemaItems::new(a0); Ok(out!(r)) }
        "UntitledMultiSelectEnumSchemaItems.type_" => { let s: m::UntitledMultiSelectEnumSchemaItems = arg(s, 0)?;  let r = m::UntitledMultiSelectEnumSchemaItems::type_(&s); Ok(out!(r)) }
        "UntitledMultiSelectEnumSchemaItems.type_value" => {  let r = m::UntitledMultiSelectEnumSchemaItems::type_value(); Ok(out!(r)) }
        "UntitledMultiSelectEnumSchemaItems.type_name" => {  let r = m::UntitledMultiSelectEnumSchemaItems::type_name(); Ok(out!(r)) }
        "UntitledSingleSelectEnumSchema.new" => { let a0: ::std::vec::Vec<::std::string::String> = arg(a, 0)?; let a1: ::std::option::Option<::std::string::String> = arg(a, 1)?; let a2: ::std::option::Option<::std::string::String> = arg(a, 2)?; let a3: ::std::option::Option<::std::string::String> = arg(a, 3)?; let r = m::UntitledSingleSelectEnumSchema::new(a0, a1, a2, a3); Ok(out!(r)) }
        "UntitledSingleSelectEnumSchema.type_" => { let s: m::UntitledSingleSelectEnumSchema = arg(s, 0)?;  let r = m::UntitledSingleSelectEnumSchema::type_(&s); Ok(out!(r)) }
        "UntitledSingleSelectEnumSchema.type_value" => {  let r = m::UntitledSingleSelectEnumSchema::type_value(); Ok(out!(r)) }
        "UntitledSingleSelectEnumSchema.type_name" => {  let r = m::UntitledSingleSelectEnumSchema::type_name(); Ok(out!(r)) }
        "ClientRequest.method" => { let s: m::ClientRequest = arg(s, 0)?;  let r = m::ClientRequest::method(&s); Ok(out!(r)) }
        "ServerNotification.method" => { let s: m::ServerNotification = arg(s, 0)?;  let r = m::ServerNotification::method(&s); Ok(out!(r)) }
        "GenericResult.From<InputRequiredResult>" => { let a0: m::InputRequiredResult = arg(a, 0)?; let r: m::GenericResult = From::from(a0); Ok(out!(r)) }
        "GenericResult.From<DiscoverResult>" => { let a0: m::DiscoverResult = arg(a, 0)?; let r: m::GenericResult = From::from(a0); Ok(out!(r)) }
        "GenericResult.From<ListResourcesResult>" => { let a0: m::ListResourcesResult = arg(a, 0)?; let r: m::GenericResult = From::from(a0); Ok(out!(r)) }
        "GenericResult.From<ListResourceTemplatesResult>" => { let a0: m::ListResourceTemplatesResult = arg(a, 0)?; let r: m::GenericResult = From::from(a0); Ok(out!(r)) }
        "GenericResult.From<ReadResourceResult>" => { let a0: m::ReadResourceResult = arg(a, 0)?; let r: m::GenericResult = From::from(a0); Ok(out!(r)) }
        "GenericResult.From<SubscriptionsListenResult>" => { let a0: m::SubscriptionsListenResult = arg(a, 0)?; let r: m::GenericResult = From::from(a0); Ok(out!(r)) }
        "GenericResult.From<ListPromptsResult>" => { let a0: m::ListPromptsResult = arg(a, 0)?; let r: m::GenericResult = From::from(a0); Ok(out!(r)) }
        "GenericResult.From<GetPromptResult>" => { let a0: m::GetPromptResult = arg(a, 0)?; let r: m::GenericResult = From::from(a0); Ok(out!(r)) }
        "GenericResult.From<ListToolsResult>" => { let a0: m::ListToolsResult = arg(a, 0)?; let r: m::GenericResult = From::from(a0); Ok(out!(r)) }
        "GenericResult.From<CallToolResult>" => { let a0: m::CallToolResult = arg(a, 0)?; let r: m::GenericResult = From::from(a0); Ok(out!(r)) }
        "GenericResult.From<CompleteResult>" => { let a0: m::CompleteResult = arg(a, 0)?; let r: m::GenericResult = From::from(a0); Ok(out!(r)) }
        "ClientRequest.request_id" => { let s: m::ClientRequest = arg(s, 0)?;  let r = m::ClientRequest::request_id(&s); Ok(out!(r)) }
        "MessageTypes.Display" => { let s: u::MessageTypes = arg(s, 0)?; Ok(s.to_string().view()) }
        "RequestId.Display" => { let s: m::RequestId = arg(s, 0)?; Ok(s.to_string().view()) }
        "ClientMessage.as_response" => { let s: u::ClientMessage = arg(s, 0)?;  let r = u::ClientMessage::as_response(s); Ok(out!(r)) }
        "ClientMessage.as_request" => { let s: u::ClientMessage = arg(s, 0)?;  let r = u::ClientMessage::as_request(s); Ok(out!(r)) }
        "ClientMessage.as_notification" => { let s: u::ClientMessage = arg(s, 0)?;  let r = u::ClientMessage::as_notification(s); Ok(out!(r)) }
        "ClientMessage.as_error" => { let s: u::ClientMessage = arg(s, 0)?;  let r = u::ClientMessage::as_error(s); Ok(out!(r)) }
        "ClientMessage.is_initialize_request" => { let s: u::ClientMessage = arg(s, 0)?;  let r = u::ClientMessage::is_initialize_request(&s); Ok(out!(r)) }
        "ClientMessage.is_initialized_notification" => { let s: u::ClientMessage = arg(s, 0)?;  let r = u::ClientMessage::is_initialized_notification(&s); Ok(out!(r)) }
        "ClientMessage.From<ClientJsonrpcNotification>" => { let a0: u::ClientJsonrpcNotification = arg(a, 0)?; let r: u::ClientMessage = From::from(a0); Ok(out!(r)) }
        "ClientMessage.From<ClientJsonrpcRequest>" => { let a0: u::ClientJsonrpcRequest = arg(a, 0)?; let r: u::ClientMessage = From::from(a0); Ok(out!(r)) }
        "ClientMessage.From<ClientJsonrpcResponse>" => { let a0: u::ClientJsonrpcResponse = arg(a, 0)?; let r: u::ClientMessage = From::from(a0); Ok(out!(r)) }
        "ClientMessage.request_id" => { let s: u::ClientMessage = arg(s, 0)?;  let r = <u::ClientMessage as u::RpcMessage>::request_id(&s); Ok(out!(r)) }
        "ClientMessage.jsonrpc" => { let s: u::ClientMessage = arg(s, 0)?;  let r = <u::ClientMessage as u::RpcMessage>::jsonrpc(&s); Ok(out!(r)) }
        "ClientMessage.method" => { let s: u::ClientMessage = arg(s, 0)?;  let r = <u::ClientMessage as u::RpcMessage>::method(&s); Ok(out!(r)) }
        "ClientMessage.is_response" => { let s: u::ClientMessage = arg(s, 0)?;  let r = <u::ClientMessage as u::McpMessage>::is_response(&s); Ok(out!(r)) }
        "ClientMessage.is_request" => { let s: u::ClientMessage = arg(s, 0)?;  let r = <u::ClientMessage as u::McpMessage>::is_request(&s); Ok(out!(r)) }
        "ClientMessage.is_notification" => { let s: u::ClientMessage = arg(s, 0)?;  let r = <u::ClientMessage as u::McpMessage>::is_notification(&s); Ok(out!(r)) }
        "ClientMessage.is_error" => { let s: u::ClientMessage = arg(s, 0)?;  let r = <u::ClientMessage as u::McpMessage>::is_error(&s); Ok(out!(r)) }
        "ClientMessage.message_type" => { let s: u::ClientMessage = arg(s, 0)?;  let r = <u::ClientMessage as u::McpMessage>::message_type(&s); Ok(out!(r)) }
        "ClientJsonrpcRequest.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: u::RequestFromClient = arg(a, 1)?; let r = u::ClientJsonrpcRequest::new(a0, a1); Ok(out!(r)) }
        "ClientJsonrpcRequest.jsonrpc" => { let s: u::ClientJsonrpcRequest = arg(s, 0)?;  let r = u::ClientJsonrpcRequest::jsonrpc(&s); Ok(out!(r)) }
        "ClientJsonrpcRequest.request_id" => { let s: u::ClientJsonrpcRequest = arg(s, 0)?;  let r = u::ClientJsonrpcRequest::request_id(&s); Ok(out!(r)) }
        "ClientJsonrpcRequest.method" => { let s: u::ClientJsonrpcRequest = arg(s, 0)?;  let r = u::ClientJsonrpcRequest::method(&s); Ok(out!(r)) }
        "RequestFromClient.From<ClientJsonrpcRequest>" => { let a0: u::ClientJsonrpcRequest = arg(a, 0)?; let r: u::RequestFromClient = From::from(a0); Ok(out!(r)) }
        "ClientJsonrpcRequest.Display" => { let s: u::ClientJsonrpcRequest = arg(s, 0)?; Ok(s.to_string().view()) }
        "ClientJsonrpcRequest.FromStr" => { let a0: String = arg(a, 0)?; let r: Result<u::ClientJsonrpcRequest, _> = std::str::FromStr::from_str(&a0); let o = out!(r); Ok(readers(&a0, &r, o)) }
        "RequestFromClient.method" => { let s: u::RequestFromClient = arg(s, 0)?;  let r = u::RequestFromClient::method(&s); Ok(out!(r)) }
        "RequestFromClient.is_initialize_request" => { let s: u::RequestFromClient = arg(s, 0)?;  let r = u::RequestFromClient::is_initialize_request(&s); Ok(out!(r)) }
        "RequestFromClient.with_meta" => { let s: u::RequestFromClient = arg(s, 0)?; let a0: m::RequestMetaObject = arg(a, 0)?; let r = u::RequestFromClient::with_meta(s, a0); Ok(out!(r)) }
        "RequestFromClient.meta" => { let s: u::RequestFromClient = arg(s, 0)?;  let r = u::RequestFromClient::meta(&s); Ok(out!(r)) }
        "RequestFromClient.with_input_responses" => { let s: u::RequestFromClient = arg(s, 0)?; let a0: m::InputResponses = arg(a, 0)?; let a1: Option<String> = arg(a, 1)?; let r = u::RequestFromClient::with_input_responses(s, a0, a1); Ok(out!(r)) }
        "ClientJsonrpcNotification.new" => { let a0: u::NotificationFromClient = arg(a, 0)?; let r = u::ClientJsonrpcNotification::new(a0); Ok(out!(r)) }
        "ClientJsonrpcNotification.jsonrpc" => { let s: u::ClientJsonrpcNotification = arg(s, 0)?;  let r = u::ClientJsonrpcNotification::jsonrpc(&s); Ok(out!(r)) }
        "ClientJsonrpcNotification.method" => { let s: u::ClientJsonrpcNotification = arg(s, 0)?;  let r = u::ClientJsonrpcNotification::method(&s); Ok(out!(r)) }
        "NotificationFromClient.From<ClientJsonrpcNotification>" => { let a0: u::ClientJsonrpcNotification = arg(a, 0)?; let r: u::NotificationFromClient = From::from(a0); Ok(out!(r)) }
        "ClientJsonrpcNotification.Display" => { let s: u::ClientJsonrpcNotification = arg(s, 0)?; Ok(s.to_string().view()) }
        "ClientJsonrpcNotification.FromStr" => { let a0: String = arg(a, 0)?; let r: Result<u::ClientJsonrpcNotification, _> = std::str::FromStr::from_str(&a0); let o = out!(r); Ok(readers(&a0, &r, o)) }
        "NotificationFromClient.method" => { let s: u::NotificationFromClient = arg(s, 0)?;  let r = u::NotificationFromClient::method(&s); Ok(out!(r)) }
        "ClientJsonrpcResponse.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: u::ResultFromClient = arg(a, 1)?; let r = u::ClientJsonrpcResponse::new(a0, a1); Ok(out!(r)) }
        "ClientJsonrpcResponse.jsonrpc" => { let s: u::ClientJsonrpcResponse = arg(s, 0)?;  let r = u::ClientJsonrpcResponse::jsonrpc(&s); Ok(out!(r)) }
        "ClientJsonrpcResponse.Display" => { let s: u::ClientJsonrpcResponse = arg(s, 0)?; Ok(s.to_string().view()) }
        "ClientJsonrpcResponse.FromStr" => { let a0: String = arg(a, 0)?; let r: Result<u::ClientJsonrpcResponse, _> = std::str::FromStr::from_str(&a0); let o = out!(r); Ok(readers(&a0, &r, o)) }
        "ClientMessage.FromStr" => { let a0: String = arg(a, 0)?; let r: Result<u::ClientMessage, _> = std::str::FromStr::from_str(&a0); let o = out!(r); Ok(readers(&a0, &r, o)) }
        "ClientMessage.Display" => { let s: u::ClientMessage = arg(s, 0)?; Ok(s.to_string().view()) }
        "ServerMessage.as_response" => { let s: u::ServerMessage = arg(s, 0)?;  let r = u::ServerMessage::as_response(s); Ok(out!(r)) }
        "ServerMessage.as_request" => { let s: u::ServerMessage = arg(s, 0)?;  let r = u::ServerMessage::as_request(s); Ok(out!(r)) }
        "ServerMessage.as_notification" => { let s: u::ServerMessage = arg(s, 0)?;  let r = u::ServerMessage::as_notification(s); Ok(out!(r)) }
        "ServerMessage.as_error" => { let s: u::ServerMessage = arg(s, 0)?;  let r = u::ServerMessage::as_error(s); Ok(out!(r)) }
        "ServerMessage.From<ServerJsonrpcNotification>" => { let a0: u::ServerJsonrpcNotification = arg(a, 0)?; let r: u::ServerMessage = From::from(a0); Ok(out!(r)) }
        "ServerMessage.From<ServerJsonrpcRequest>" => { let a0: u::ServerJsonrpcRequest = arg(a, 0)?; let r: u::ServerMessage = From::from(a0); Ok(out!(r)) }
        "ServerMessage.From<ServerJsonrpcResponse>" => { let a0: u::ServerJsonrpcResponse = arg(a, 0)?; let r: u::ServerMessage = From::from(a0); Ok(out!(r)) }
        "ServerMessage.request_id" => { let s: u::ServerMessage = arg(s, 0)?;  let r = <u::ServerMessage as u::RpcMessage>::request_id(&s); Ok(out!(r)) }
        "ServerMessage.jsonrpc" => { let s: u::ServerMessage = arg(s, 0)?;  let r = <u::ServerMessage as u::RpcMessage>::jsonrpc(&s); Ok(out!(r)) }
        "ServerMessage.method" => { let s: u::ServerMessage = arg(s, 0)?;  let r = <u::ServerMessage as u::RpcMessage>::method(&s); Ok(out!(r)) }
        "ServerMessage.is_response" => { let s: u::ServerMessage = arg(s, 0)?;  let r = <u::ServerMessage as u::McpMessage>::is_response(&s); Ok(out!(r)) }
        "ServerMessage.is_request" => { let s: u::ServerMessage = arg(s, 0)?;  let r = <u::ServerMessage as u::McpMessage>::is_request(&s); Ok(out!(r)) }
        "ServerMessage.is_notification" => { let s: u::ServerMessage = arg(s, 0)?;  let r = <u::ServerMessage as u::McpMessage>::is_notification(&s); Ok(out!(r)) }
        "ServerMessage.is_error" => { let s: u::ServerMessage = arg(s, 0)?;  let r = <u::ServerMessage as u::McpMessage>::is_error(&s); Ok(out!(r)) }
        "ServerMessage.message_type" => { let s: u::ServerMessage = arg(s, 0)?;  let r = <u::ServerMessage as u::McpMessage>::message_type(&s); Ok(out!(r)) }
        "ServerMessage.FromStr" => { let a0: String = arg(a, 0)?; let r: Result<u::ServerMessage, _> = std::str::FromStr::from_str(&a0); let o = out!(r); Ok(readers(&a0, &r, o)) }
        "ServerMessage.Display" => { let s: u::ServerMessage = arg(s, 0)?; Ok(s.to_string().view()) }
        "ServerJsonrpcRequest.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: u::RequestFromServer = arg(a, 1)?; let r = u::ServerJsonrpcRequest::new(a0, a1); Ok(out!(r)) }
        "ServerJsonrpcRequest.request_id" => { let s: u::ServerJsonrpcRequest = arg(s, 0)?;  let r = u::ServerJsonrpcRequest::request_id(&s); Ok(out!(r)) }
        "ServerJsonrpcRequest.jsonrpc" => { let s: u::ServerJsonrpcRequest = arg(s, 0)?;  let r = u::ServerJsonrpcRequest::jsonrpc(&s); Ok(out!(r)) }
        "ServerJsonrpcRequest.method" => { let s: u::ServerJsonrpcRequest = arg(s, 0)?;  let r = u::ServerJsonrpcRequest::method(&s); Ok(out!(r)) }
        "ServerJsonrpcRequest.Display" => { let s: u::ServerJsonrpcRequest = arg(s, 0)?; Ok(s.to_string().view()) }
        "ServerJsonrpcRequest.FromStr" => { let a0: String = arg(a, 0)?; let r: Result<u::ServerJsonrpcRequest, _> = std::str::FromStr::from_str(&a0); let o = out!(r); Ok(readers(&a0, &r, o)) }
        "RequestFromServer.From<ServerJsonrpcRequest>" => { let a0: u::ServerJsonrpcRequest = arg(a, 0)?; let r: u::RequestFromServer = From::from(a0); Ok(out!(r)) }
        "RequestFromServer.method" => { let s: u::RequestFromServer = arg(s, 0)?;  let r = u::RequestFromServer::method(&s); Ok(out!(r)) }
        "NotificationFromServer.From<ServerJsonrpcNotification>" => { let a0: u::ServerJsonrpcNotification = arg(a, 0)?; let r: u::NotificationFromServer = From::from(a0); Ok(out!(r)) }
        "ServerJsonrpcNotification.new" => { let a0: u::NotificationFromServer = arg(a, 0)?; let r = u::ServerJsonrpcNotification::new(a0); Ok(out!(r)) }
        "ServerJsonrpcNotification.jsonrpc" => { let s: u::ServerJsonrpcNotification = arg(s, 0)?;  let r = u::ServerJsonrpcNotification::jsonrpc(&s); Ok(out!(r)) }
        "ServerJsonrpcNotification.method" => { let s: u::ServerJsonrpcNotification = arg(s, 0)?;  let r = u::ServerJsonrpcNotification::method(&s); Ok(out!(r)) }
        "ServerJsonrpcNotification.Display" => { let s: u::ServerJsonrpcNotification = arg(s, 0)?; Ok(s.to_string().view()) }
        "ServerJsonrpcNotification.FromStr" => { let a0: String = arg(a, 0)?; let r: Result<u::ServerJsonrpcNotification, _> = std::str::FromStr::from_str(&a0); let o = out!(r); Ok(readers(&a0, &r, o)) }
        "NotificationFromServer.method" => { let s: u::NotificationFromServer = arg(s, 0)?;  let r = u::NotificationFromServer::method(&s); Ok(out!(r)) }
        "ServerJsonrpcResponse.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: m::ServerResult = arg(a, 1)?; let r = u::ServerJsonrpcResponse::new(a0, a1); Ok(out!(r)) }
        "ServerJsonrpcResponse.jsonrpc" => { let s: u::ServerJsonrpcResponse = arg(s, 0)?;  let r = u::ServerJsonrpcResponse::jsonrpc(&s); Ok(out!(r)) }
        "ServerJsonrpcResponse.Display" => { let s: u::ServerJsonrpcResponse = arg(s, 0)?; Ok(s.to_string().view()) }
        "ServerJsonrpcResponse.FromStr" => { let a0: String = arg(a, 0)?; let r: Result<u::ServerJsonrpcResponse, _> = std::str::FromStr::from_str(&a0); let o = out!(r); Ok(readers(&a0, &r, o)) }
        "JsonrpcErrorResponse.Display" => { let s: m::JsonrpcErrorResponse = arg(s, 0)?; Ok(s.to_string().view()) }
        "JsonrpcErrorResponse.FromStr" => { let a0: String = arg(a, 0)?; let r: Result<m::JsonrpcErrorResponse, _> = std::str::FromStr::from_str(&a0); let o = out!(r); Ok(readers(&a0, &r, o)) }
        "MessageFromServer.From<RequestFromServer>" => { let a0: u::RequestFromServer = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.From<ServerResult>" => { let a0: m::ServerResult = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.From<NotificationFromServer>" => { let a0: u::NotificationFromServer = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.From<RpcError>" => { let a0: m::RpcError = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.is_response" => { let s: u::MessageFromServer = arg(s, 0)?;  let r = <u::MessageFromServer as u::McpMessage>::is_response(&s); Ok(out!(r)) }
        "MessageFromServer.is_request" => { let s: u::MessageFromServer = arg(s, 0)?;  let r = <u::MessageFromServer as u::McpMessage>::is_request(&s); Ok(out!(r)) }
        "MessageFromServer.is_notification" => { let s: u::MessageFromServer = arg(s, 0)?;  let r = <u::MessageFromServer as u::McpMessage>::is_notification(&s); Ok(out!(r)) }
        "MessageFromServer.is_error" => { let s: u::MessageFromServer = arg(s, 0)?;  let r = <u::MessageFromServer as u::McpMessage>::is_error(&s); Ok(out!(r)) }
        "MessageFromServer.message_type" => { let s: u::MessageFromServer = arg(s, 0)?;  let r = <u::MessageFromServer as u::McpMessage>::message_type(&s); Ok(out!(r)) }
        "ServerMessage.FromMessage<MessageFromServer>" => { let a0: u::MessageFromServer = arg(a, 0)?; let a1: Option<m::RequestId> = arg(a, 1)?; let r = <u::ServerMessage as u::FromMessage<u::MessageFromServer>>::from_message(a0, a1); Ok(out!(r)) }
        "MessageFromClient.is_initialize_request" => { let s: u::MessageFromClient = arg(s, 0)?;  let r = u::MessageFromClient::is_initialize_request(&s); Ok(out!(r)) }
        "MessageFromClient.is_initialized_notification" => { let s: u::MessageFromClient = arg(s, 0)?;  let r = u::MessageFromClient::is_initialized_notification(&s); Ok(out!(r)) }
        "MessageFromClient.From<RequestFromClient>" => { let a0: u::RequestFromClient = arg(a, 0)?; let r: u::MessageFromClient = From::from(a0); Ok(out!(r)) }
        "MessageFromClient.From<ResultFromClient>" => { let a0: u::ResultFromClient = arg(a, 0)?; let r: u::MessageFromClient = From::from(a0); Ok(out!(r)) }
        "MessageFromClient.From<NotificationFromClient>" => { let a0: u::NotificationFromClient = arg(a, 0)?; let r: u::MessageFromClient = From::from(a0); Ok(out!(r)) }
        "MessageFromClient.From<RpcError>" => { let a0: m::RpcError = arg(a, 0)?; let r: u::MessageFromClient = From::from(a0); Ok(out!(r)) }
        "MessageFromClient.is_response" => { let s: u::MessageFromClient = arg(s, 0)?;  let r = <u::MessageFromClient as u::McpMessage>::is_response(&s); Ok(out!(r)) }
        "MessageFromClient.is_request" => { let s: u::MessageFromClient = arg(s, 0)?;  let r = <u::MessageFromClient as u::McpMessage>::is_request(&s); Ok(out!(r)) }
        "MessageFromClient.is_notification" => { let s: u::MessageFromClient = arg(s, 0)?;  let r = <u::MessageFromClient as u::McpMessage>::is_notification(&s); Ok(out!(r)) }
        "MessageFromClient.is_error" => { let s: u::MessageFromClient = arg(s, 0)?;  let r = <u::MessageFromClient as u::McpMessage>::is_error(&s); Ok(out!(r)) }
        "MessageFromClient.message_type" => { let s: u::MessageFromClient = arg(s, 0)?;  let r = <u::MessageFromClient as u::McpMessage>::message_type(&s); Ok(out!(r)) }
        "ClientMessage.FromMessage<MessageFromClient>" => { let a0: u::MessageFromClient = arg(a, 0)?; let a1: Option<m::RequestId> = arg(a, 1)?; let r = <u::ClientMessage as u::FromMessage<u::MessageFromClient>>::from_message(a0, a1); Ok(out!(r)) }
        "UnknownTool.Display" => { let s: u::UnknownTool = arg(s, 0)?; Ok(s.to_string().view()) }
        "CallToolError.unknown_tool" => { let a0: String = arg(a, 0)?; let r = u::CallToolError::unknown_tool(a0); Ok(out!(r)) }
        "CallToolError.unsupported_task_augmented_tool_call" => {  let r = u::CallToolError::unsupported_task_augmented_tool_call(); Ok(out!(r)) }
        "CallToolError.invalid_arguments" => { let a0: String = arg(a, 0)?; let a1: Option<String> = arg(a, 1)?; let r = u::CallToolError::invalid_arguments(a0, a1); Ok(out!(r)) }
        "CallToolError.from_message" => { let a0: String = arg(a, 0)?; let r = u::CallToolError::from_message(a0); Ok(out!(r)) }
        "RpcError.From<CallToolError>" => { let a0: u::CallToolError = arg(a, 0)?; let r: m::RpcError = From::from(a0); Ok(out!(r)) }
        "CallToolResult.From<CallToolError>" => { let a0: u::CallToolError = arg(a, 0)?; let r: m::CallToolResult = From::from(a0); Ok(out!(r)) }
        "CallToolError.Display" => { let s: u::CallToolError = arg(s, 0)?; Ok(s.to_string().view()) }
        "CallToolRequest.tool_name" => { let s: m::CallToolRequest = arg(s, 0)?;  let r = m::CallToolRequest::tool_name(&s); Ok(out!(r)) }
        "TextContent.From<T>" => { let a0: String = arg(a, 0)?; let r: m::TextContent = From::from(a0); Ok(out!(r)) }
        "TextResourceContents.new" => { let a0: String = arg(a, 0)?; let a1: String = arg(a, 1)?; let r = m::TextResourceContents::new(a0, a1); Ok(out!(r)) }
        "TextResourceContents.with_meta" => { let s: m::TextResourceContents = arg(s, 0)?; let a0: m::MetaObject = arg(a, 0)?; let r = m::TextResourceContents::with_meta(s, a0); Ok(out!(r)) }
        "TextResourceContents.with_mime_type" => { let s: m::TextResourceContents = arg(s, 0)?; let a0: String = arg(a, 0)?; let r = m::TextResourceContents::with_mime_type(s, a0); Ok(out!(r)) }
        "TextResourceContents.with_uri" => { let s: m::TextResourceContents = arg(s, 0)?; let a0: String = arg(a, 0)?; let r = m::TextResourceContents::with_uri(s, a0); Ok(out!(r)) }
        "BlobResourceContents.new" => { let a0: String = arg(a, 0)?; let a1: String = arg(a, 1)?; let r = m::BlobResourceContents::new(a0, a1); Ok(out!(r)) }
        "BlobResourceContents.with_meta" => { let s: m::BlobResourceContents = arg(s, 0)?; let a0: m::MetaObject = arg(a, 0)?; let r = m::BlobResourceContents::with_meta(s, a0); Ok(out!(r)) }
        "BlobResourceContents.with_mime_type" => { let s: m::BlobResourceContents = arg(s, 0)?; let a0: String = arg(a, 0)?; let r = m::BlobResourceContents::with_mime_type(s, a0); Ok(out!(r)) }
        "BlobResourceContents.with_uri" => { let s: m::BlobResourceContents = arg(s, 0)?; let a0: String = arg(a, 0)?; let r = m::BlobResourceContents::with_uri(s, a0); Ok(out!(r)) }
        "ClientMessages.is_batch" => { let s: u::ClientMessages = arg(s, 0)?;  let r = u::ClientMessages::is_batch(&s); Ok(out!(r)) }
        "ClientMessages.includes_request" => { let s: u::ClientMessages = arg(s, 0)?;  let r = u::ClientMessages::includes_request(&s); Ok(out!(r)) }
        "ClientMessages.as_single" => { let s: u::ClientMessages = arg(s, 0)?;  let r = u::ClientMessages::as_single(s); Ok(out!(r)) }
        "ClientMessages.as_batch" => { let s: u::ClientMessages = arg(s, 0)?;  let r = u::ClientMessages::as_batch(s); Ok(out!(r)) }
        "ClientMessages.From<ClientMessage>" => { let a0: u::ClientMessage = arg(a, 0)?; let r: u::ClientMessages = From::from(a0); Ok(out!(r)) }
        "ClientMessages.From<Vec<ClientMessage>>" => { let a0: Vec<u::ClientMessage> = arg(a, 0)?; let r: u::ClientMessages = From::from(a0); Ok(out!(r)) }
        "ClientMessages.Display" => { let s: u::ClientMessages = arg(s, 0)?; Ok(s.to_string().view()) }
        "ServerMessages.is_batch" => { let s: u::ServerMessages = arg(s, 0)?;  let r = u::ServerMessages::is_batch(&s); Ok(out!(r)) }
        "ServerMessages.includes_request" => { let s: u::ServerMessages = arg(s, 0)?;  let r = u::ServerMessages::includes_request(&s); Ok(out!(r)) }
        "ServerMessages.as_single" => { let s: u::ServerMessages = arg(s, 0)?;  let r = u::ServerMessages::as_single(s); Ok(out!(r)) }
        "ServerMessages.as_batch" => { let s: u::ServerMessages = arg(s, 0)?;  let r = u::ServerMessages::as_batch(s); Ok(out!(r)) }
        "ServerMessages.From<ServerMessage>" => { let a0: u::ServerMessage = arg(a, 0)?; let r: u::ServerMessages = From::from(a0); Ok(out!(r)) }
        "ServerMessages.From<Vec<ServerMessage>>" => { let a0: Vec<u::ServerMessage> = arg(a, 0)?; let r: u::ServerMessages = From::from(a0); Ok(out!(r)) }
        "ServerMessages.Display" => { let s: u::ServerMessages = arg(s, 0)?; Ok(s.to_string().view()) }
        "MessagesFromServer.is_batch" => { let s: u::MessagesFromServer = arg(s, 0)?;  let r = u::MessagesFromServer::is_batch(&s); Ok(out!(r)) }
        "MessagesFromServer.includes_request" => { let s: u::MessagesFromServer = arg(s, 0)?;  let r = u::MessagesFromServer::includes_request(&s); Ok(out!(r)) }
        "MessagesFromServer.as_single" => { let s: u::MessagesFromServer = arg(s, 0)?;  let r = u::MessagesFromServer::as_single(s); Ok(out!(r)) }
        "MessagesFromServer.as_batch" => { let s: u::MessagesFromServer = arg(s, 0)?;  let r = u::MessagesFromServer::as_batch(s); Ok(out!(r)) }
        "MessagesFromServer.From<MessageFromServer>" => { let a0: u::MessageFromServer = arg(a, 0)?; let r: u::MessagesFromServer = From::from(a0); Ok(out!(r)) }
        "MessagesFromServer.From<Vec<MessageFromServer>>" => { let a0: Vec<u::MessageFromServer> = arg(a, 0)?; let r: u::MessagesFromServer = From::from(a0); Ok(out!(r)) }
        "MessagesFromClient.is_batch" => { let s: u::MessagesFromClient = arg(s, 0)?;  let r = u::MessagesFromClient::is_batch(&s); Ok(out!(r)) }
        "MessagesFromClient.includes_request" => { let s: u::MessagesFromClient = arg(s, 0)?;  let r = u::MessagesFromClient::includes_request(&s); Ok(out!(r)) }
        "MessagesFromClient.as_single" => { let s: u::MessagesFromClient = arg(s, 0)?;  let r = u::MessagesFromClient::as_single(s); Ok(out!(r)) }
        "MessagesFromClient.as_batch" => { let s: u::MessagesFromClient = arg(s, 0)?;  let r = u::MessagesFromClient::as_batch(s); Ok(out!(r)) }
        "MessagesFromClient.From<MessageFromClient>" => { let a0: u::MessageFromClient = arg(a, 0)?; let r: u::MessagesFromClient = From::from(a0); Ok(out!(r)) }
        "MessagesFromClient.From<Vec<MessageFromClient>>" => { let a0: Vec<u::MessageFromClient> = arg(a, 0)?; let r: u::MessagesFromClient = From::from(a0); Ok(out!(r)) }
        "StringSchemaFormat.FromStr" => { let a0: String = arg(a, 0)?; let r: Result<m::StringSchemaFormat, _> = std::str::FromStr::from_str(&a0); Ok(out!(r)) }
        "PrimitiveSchemaDefinition.TryFrom<&Map<String,Value>>" => { let a0: serde_json::Map<String,serde_json::Value> = arg(a, 0)?; let r: Result<m::PrimitiveSchemaDefinition, _> = TryFrom::try_from(&a0); Ok(out!(r)) }
        "ElicitRequestParams.message" => { let s: m::ElicitRequestParams = arg(s, 0)?;  let r = m::ElicitRequestParams::message(&s); Ok(out!(r)) }
        "ServerCapabilities.can_handle_request" => { let s: m::ServerCapabilities = arg(s, 0)?; let a0: u::ClientJsonrpcRequest = arg(a, 0)?; let r = m::ServerCapabilities::can_handle_request(&s, &a0); Ok(out!(r)) }
        "ServerCapabilities.can_accept_notification" => { let s: m::ServerCapabilities = arg(s, 0)?; let a0: String = arg(a, 0)?; let r = m::ServerCapabilities::can_accept_notification(&s, a0.as_str()); Ok(out!(r)) }
        "ClientCapabilities.can_handle_request" => { let s: m::ClientCapabilities = arg(s, 0)?; let a0: u::ServerJsonrpcRequest = arg(a, 0)?; let r = m::ClientCapabilities::can_handle_request(&s, &a0); Ok(out!(r)) }
        "ClientCapabilities.can_accept_notification" => { let s: m::ClientCapabilities = arg(s, 0)?; let a0: String = arg(a, 0)?; let r = m::ClientCapabilities::can_accept_notification(&s, a0.as_str()); Ok(out!(r)) }
        "CustomRequest.From<JsonrpcRequest>" => { let a0: m::JsonrpcRequest = arg(a, 0)?; let r: u::CustomRequest = From::from(a0); Ok(out!(r)) }
        "CustomNotification.From<JsonrpcNotification>" => { let a0: m::JsonrpcNotification = arg(a, 0)?; let r: u::CustomNotification = From::from(a0); Ok(out!(r)) }
        "Role.FromStr" => { let a0: String = arg(a, 0)?; let r: Result<m::Role, _> = std::str::FromStr::from_str(&a0); Ok(out!(r)) }
        "ServerResult.is_input_required" => { let s: m::ServerResult = arg(s, 0)?;  let r = m::ServerResult::is_input_required(&s); Ok(out!(r)) }
        "ServerResult.is_complete" => { let s: m::ServerResult = arg(s, 0)?;  let r = m::ServerResult::is_complete(&s); Ok(out!(r)) }
        "ServerResult.as_input_required" => { let s: m::ServerResult = arg(s, 0)?;  let r = m::ServerResult::as_input_required(&s); Ok(out!(r)) }
        "RequestMetaObject.new" => { let a0: String = arg(a, 0)?; let a1: m::ClientCapabilities = arg(a, 1)?; let r = m::RequestMetaObject::new(a0, a1); Ok(out!(r)) }
        "RequestMetaObject.with_client_info" => { let s: m::RequestMetaObject = arg(s, 0)?; let a0: m::Implementation = arg(a, 0)?; let r = m::RequestMetaObject::with_client_info(s, a0); Ok(out!(r)) }
        "RequestMetaObject.with_log_level" => { let s: m::RequestMetaObject = arg(s, 0)?; let a0: m::LoggingLevel = arg(a, 0)?; let r = m::RequestMetaObject::with_log_level(s, a0); Ok(out!(r)) }
        "RequestMetaObject.with_progress_token" => { let s: m::RequestMetaObject = arg(s, 0)?; let a0: m::ProgressToken = arg(a, 0)?; let r = m::RequestMetaObject::with_progress_token(s, a0); Ok(out!(r)) }
        "RequestMetaObject.traceparent" => { let s: m::RequestMetaObject = arg(s, 0)?;  let r = m::RequestMetaObject::traceparent(&s); Ok(out!(r)) }
        "RequestMetaObject.with_traceparent" => { let s: m::RequestMetaObject = arg(s, 0)?; let a0: String = arg(a, 0)?; let r = m::RequestMetaObject::with_traceparent(s, a0); Ok(out!(r)) }
        "RequestMetaObject.tracestate" => { let s: m::RequestMetaObject = arg(s, 0)?;  let r = m::RequestMetaObject::tracestate(&s); Ok(out!(r)) }
        "RequestMetaObject.with_tracestate" => { let s: m::RequestMetaObject = arg(s, 0)?; let a0: String = arg(a, 0)?; let r = m::RequestMetaObject::with_tracestate(s, a0); Ok(out!(r)) }
        "RequestMetaObject.baggage" => { let s: m::RequestMetaObject = arg(s, 0)?;  let r = m::RequestMetaObject::baggage(&s); Ok(out!(r)) }
        "RequestMetaObject.with_baggage" => { let s: m::RequestMetaObject = arg(s, 0)?; let a0: String = arg(a, 0)?; let r = m::RequestMetaObject::with_baggage(s, a0); Ok(out!(r)) }
        "InputRequests.iter" => { let s: m::InputRequests = arg(s, 0)?; Ok(V::Array(vec!["I".into(), V::Array(s.iter().map(|x| x.view()).collect())])) }
        "InputRequests.keys" => { let s: m::InputRequests = arg(s, 0)?; Ok(V::Array(vec!["I".into(), V::Array(s.keys().map(|x| x.view()).collect())])) }
        "InputRequests.get" => { let s: m::InputRequests = arg(s, 0)?; let a0: String = arg(a, 0)?; let r = m::InputRequests::get(&s, a0.as_str()); Ok(out!(r)) }
        "InputRequests.len" => { let s: m::InputRequests = arg(s, 0)?;  let r = m::InputRequests::len(&s); Ok(out!(r)) }
        "InputRequests.is_empty" => { let s: m::InputRequests = arg(s, 0)?;  let r = m::InputRequests::is_empty(&s); Ok(out!(r)) }
        "InputResponses.new" => {  let r = m::InputResponses::new(); Ok(out!(r)) }
        "InputResponses.insert" => { let s: m::InputResponses = arg(s, 0)?; let a0: String = arg(a, 0)?; let a1: m::InputResponse = arg(a, 1)?; let r = m::InputResponses::insert(s, a0, a1); Ok(out!(r)) }
        "InputResponses.len" => { let s: m::InputResponses = arg(s, 0)?;  let r = m::InputResponses::len(&s); Ok(out!(r)) }
        "InputResponses.is_empty" => { let s: m::InputResponses = arg(s, 0)?;  let r = m::InputResponses::is_empty(&s); Ok(out!(r)) }
        "InputRequest.as_create_message" => { let s: m::InputRequest = arg(s, 0)?;  let r = m::InputRequest::as_create_message(&s); Ok(out!(r)) }
        "InputRequest.as_list_roots" => { let s: m::InputRequest = arg(s, 0)?;  let r = m::InputRequest::as_list_roots(&s); Ok(out!(r)) }
        "InputRequest.as_elicit" => { let s: m::InputRequest = arg(s, 0)?;  let r = m::InputRequest::as_elicit(&s); Ok(out!(r)) }
        "InputRequest.method" => { let s: m::InputRequest = arg(s, 0)?;  let r = m::InputRequest::method(&s); Ok(out!(r)) }
        "ResultFromClient.From<CreateMessageResult>" => { let a0: m::CreateMessageResult = arg(a, 0)?; let r: u::ResultFromClient = From::from(a0); Ok(out!(r)) }
        "ResultFromClient.From<ListRootsResult>" => { let a0: m::ListRootsResult = arg(a, 0)?; let r: u::ResultFromClient = From::from(a0); Ok(out!(r)) }
        "ResultFromClient.From<ElicitResult>" => { let a0: m::ElicitResult = arg(a, 0)?; let r: u::ResultFromClient = From::from(a0); Ok(out!(r)) }
        "ResultFromClient.From<Result>" => { let a0: m::Result = arg(a, 0)?; let r: u::ResultFromClient = From::from(a0); Ok(out!(r)) }
        "MessageFromClient.From<CreateMessageResult>" => { let a0: m::CreateMessageResult = arg(a, 0)?; let r: u::MessageFromClient = From::from(a0); Ok(out!(r)) }
        "MessageFromClient.From<ListRootsResult>" => { let a0: m::ListRootsResult = arg(a, 0)?; let r: u::MessageFromClient = From::from(a0); Ok(out!(r)) }
        "MessageFromClient.From<ElicitResult>" => { let a0: m::ElicitResult = arg(a, 0)?; let r: u::MessageFromClient = From::from(a0); Ok(out!(r)) }
        "MessageFromClient.From<Result>" => { let a0: m::Result = arg(a, 0)?; let r: u::MessageFromClient = From::from(a0); Ok(out!(r)) }
        "ClientJsonrpcRequest.From<DiscoverRequest>" => { let a0: m::DiscoverRequest = arg(a, 0)?; let r: u::ClientJsonrpcRequest = From::from(a0); Ok(out!(r)) }
        "ClientJsonrpcRequest.From<ListResourcesRequest>" => { let a0: m::ListResourcesRequest = arg(a, 0)?; let r: u::ClientJsonrpcRequest = From::from(a0); Ok(out!(r)) }
        "ClientJsonrpcRequest.From<ListResourceTemplatesRequest>" => { let a0: m::ListResourceTemplatesRequest = arg(a, 0)?; let r: u::ClientJsonrpcRequest = From::from(a0); Ok(out!(r)) }
        "ClientJsonrpcRequest.From<ReadResourceRequest>" => { let a0: m::ReadResourceRequest = arg(a, 0)?; let r: u::ClientJsonrpcRequest = From::from(a0); Ok(out!(r)) }
        "ClientJsonrpcRequest.From<SubscriptionsListenRequest>" => { let a0: m::SubscriptionsListenRequest = arg(a, 0)?; let r: u::ClientJsonrpcRequest = From::from(a0); Ok(out!(r)) }
        "ClientJsonrpcRequest.From<ListPromptsRequest>" => { let a0: m::ListPromptsRequest = arg(a, 0)?; let r: u::ClientJsonrpcRequest = From::from(a0); Ok(out!(r)) }
        "ClientJsonrpcRequest.From<GetPromptRequest>" => { let a0: m::GetPromptRequest = arg(a, 0)?; let r: u::ClientJsonrpcRequest = From::from(a0); Ok(out!(r)) }
        "ClientJsonrpcRequest.From<ListToolsRequest>" => { let a0: m::ListToolsRequest = arg(a, 0)?; let r: u::ClientJsonrpcRequest = From::from(a0); Ok(out!(r)) }
        "ClientJsonrpcRequest.From<CallToolRequest>" => { let a0: m::CallToolRequest = arg(a, 0)?; let r: u::ClientJsonrpcRequest = From::from(a0); Ok(out!(r)) }
        "ClientJsonrpcRequest.From<CompleteRequest>" => { let a0: m::CompleteRequest = arg(a, 0)?; let r: u::ClientJsonrpcRequest = From::from(a0); Ok(out!(r)) }
        "i64.From<SdkErrorCodes>" => { let a0: u::SdkErrorCodes = arg(a, 0)?; let r: i64 = From::from(a0); Ok(out!(r)) }
        "SdkError.Display" => { let s: u::SdkError = arg(s, 0)?; Ok(s.to_string().view()) }
        "SdkError.new" => { let a0: u::SdkErrorCodes = arg(a, 0)?; let a1: ::std::string::String = arg(a, 1)?; let a2: ::std::option::Option<::serde_json::Value> = arg(a, 2)?; let r = u::SdkError::new(a0, a1, a2); Ok(out!(r)) }
        "SdkError.connection_closed" => {  let r = u::SdkError::connection_closed(); Ok(out!(r)) }
        "SdkError.request_timeout" => { let a0: u128 = arg(a, 0)?; let r = u::SdkError::request_timeout(a0); Ok(out!(r)) }
        "SdkError.session_not_found" => {  let r = u::SdkError::session_not_found(); Ok(out!(r)) }
        "SdkError.invalid_request" => {  let r = u::SdkError::invalid_request(); Ok(out!(r)) }
        "SdkError.method_not_found" => {  let r = u::SdkError::method_not_found(); Ok(out!(r)) }
        "SdkError.invalid_params" => {  let r = u::SdkError::invalid_params(); Ok(out!(r)) }
        "SdkError.internal_error" => {  let r = u::SdkError::internal_error(); Ok(out!(r)) }
        "SdkError.parse_error" => {  let r = u::SdkError::parse_error(); Ok(out!(r)) }
        "SdkError.resource_not_found" => {  let r = u::SdkError::resource_not_found(); Ok(out!(r)) }
        "SdkError.bad_request" => {  let r = u::SdkError::bad_request(); Ok(out!(r)) }
        "SdkError.with_message" => { let s: u::SdkError = arg(s, 0)?; let a0: String = arg(a, 0)?; let r = u::SdkError::with_message(s, a0.as_str()); Ok(out!(r)) }
        "SdkError.with_data" => { let s: u::SdkError = arg(s, 0)?; let a0: ::std::option::Option<::serde_json::Value> = arg(a, 0)?; let r = u::SdkError::with_data(s, a0); Ok(out!(r)) }
        "i64.From<RpcErrorCodes>" => { let a0: u::RpcErrorCodes = arg(a, 0)?; let r: i64 = From::from(a0); Ok(out!(r)) }
        "RpcError.new" => { let a0: u::RpcErrorCodes = arg(a, 0)?; let a1: ::std::string::String = arg(a, 1)?; let a2: ::std::option::Option<::serde_json::Value> = arg(a, 2)?; let r = m::RpcError::new(a0, a1, a2); Ok(out!(r)) }
        "RpcError.method_not_found" => {  let r = m::RpcError::method_not_found(); Ok(out!(r)) }
        "RpcError.invalid_params" => {  let r = m::RpcError::invalid_params(); Ok(out!(r)) }
        "RpcError.invalid_request" => {  let r = m::RpcError::invalid_request(); Ok(out!(r)) }
        "RpcError.internal_error" => {  let r = m::RpcError::internal_error(); Ok(out!(r)) }
        "RpcError.parse_error" => {  let r = m::RpcError::parse_error(); Ok(out!(r)) }
        "RpcError.with_message" => { let s: m::RpcError = arg(s, 0)?; let a0: String = arg(a, 0)?; let r = m::RpcError::with_message(s, a0); Ok(out!(r)) }
        "RpcError.with_data" => { let s: m::RpcError = arg(s, 0)?; let a0: ::std::option::Option<::serde_json::Value> = arg(a, 0)?; let r = m::RpcError::with_data(s, a0); Ok(out!(r)) }
        "RpcError.Display" => { let s: m::RpcError = arg(s, 0)?; Ok(s.to_string().view()) }
        "RpcError.FromStr" => { let a0: String = arg(a, 0)?; let r: Result<m::RpcError, _> = std::str::FromStr::from_str(&a0); let o = out!(r); Ok(readers(&a0, &r, o)) }
        "JsonrpcErrorResponse.create" => { let a0: Option<m::RequestId> = arg(a, 0)?; let a1: u::RpcErrorCodes = arg(a, 1)?; let a2: ::std::string::String = arg(a, 2)?; let a3: ::std::option::Option<::serde_json::Value> = arg(a, 3)?; let r = m::JsonrpcErrorResponse::create(a0, a1, a2, a3); Ok(out!(r)) }
        "RpcError.From<MissingRequiredClientCapabilityError>" => { let a0: m::MissingRequiredClientCapabilityError = arg(a, 0)?; let r: m::RpcError = From::from(a0); Ok(out!(r)) }
        "RpcError.From<UnsupportedProtocolVersionError>" => { let a0: m::UnsupportedProtocolVersionError = arg(a, 0)?; let r: m::RpcError = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.From<Result>" => { let a0: m::Result = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.From<InputRequiredResult>" => { let a0: m::InputRequiredResult = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.From<DiscoverResult>" => { let a0: m::DiscoverResult = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.From<ListResourcesResult>" => { let a0: m::ListResourcesResult = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.From<ListResourceTemplatesResult>" => { let a0: m::ListResourceTemplatesResult = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.From<ReadResourceResult>" => { let a0: m::ReadResourceResult = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.From<SubscriptionsListenResult>" => { let a0: m::SubscriptionsListenResult = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.From<ListPromptsResult>" => { let a0: m::ListPromptsResult = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.From<GetPromptResult>" => { let a0: m::GetPromptResult = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.From<ListToolsResult>" => { let a0: m::ListToolsResult = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.From<CallToolResult>" => { let a0: m::CallToolResult = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.From<CompleteResult>" => { let a0: m::CompleteResult = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "CreateMessageResult.TryFrom<ResultFromClient>" => { let a0: u::ResultFromClient = arg(a, 0)?; let r: Result<m::CreateMessageResult, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "ListRootsResult.TryFrom<ResultFromClient>" => { let a0: u::ResultFromClient = arg(a, 0)?; let r: Result<m::ListRootsResult, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "ElicitResult.TryFrom<ResultFromClient>" => { let a0: u::ResultFromClient = arg(a, 0)?; let r: Result<m::ElicitResult, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "GenericResult.TryFrom<ResultFromClient>" => { let a0: u::ResultFromClient = arg(a, 0)?; let r: Result<m::GenericResult, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "GenericResult.TryFrom<ServerResult>" => { let a0: m::ServerResult = arg(a, 0)?; let r: Result<m::GenericResult, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "InputRequiredResult.TryFrom<ServerResult>" => { let a0: m::ServerResult = arg(a, 0)?; let r: Result<m::InputRequiredResult, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "DiscoverResult.TryFrom<ServerResult>" => { let a0: m::ServerResult = arg(a, 0)?; let r: Result<m::DiscoverResult, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "ListResourcesResult.TryFrom<ServerResult>" => { let a0: m::ServerResult = arg(a, 0)?; let r: Result<m::ListResourcesResult, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "ListResourceTemplatesResult.TryFrom<ServerResult>" => { let a0: m::ServerResult = arg(a, 0)?; let r: Result<m::ListResourceTemplatesResult, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "ReadResourceResult.TryFrom<ServerResult>" => { let a0: m::ServerResult = arg(a, 0)?; let r: Result<m::ReadResourceResult, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "SubscriptionsListenResult.TryFrom<ServerResult>" => { let a0: m::ServerResult = arg(a, 0)?; let r: Result<m::SubscriptionsListenResult, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "ListPromptsResult.TryFrom<ServerResult>" => { let a0: m::ServerResult = arg(a, 0)?; let r: Result<m::ListPromptsResult, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "GetPromptResult.TryFrom<ServerResult>" => { let a0: m::ServerResult = arg(a, 0)?; let r: Result<m::GetPromptResult, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "ListToolsResult.TryFrom<ServerResult>" => { let a0: m::ServerResult = arg(a, 0)?; let r: Result<m::ListToolsResult, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "CallToolResult.TryFrom<ServerResult>" => { let a0: m::ServerResult = arg(a, 0)?; let r: Result<m::CallToolResult, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "CompleteResult.TryFrom<ServerResult>" => { let a0: m::ServerResult = arg(a, 0)?; let r: Result<m::CompleteResult, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "ContentBlock.text_content" => { let a0: ::std::string::String = arg(a, 0)?; let r = m::ContentBlock::text_content(a0); Ok(out!(r)) }
        "ContentBlock.image_content" => { let a0: ::std::string::String = arg(a, 0)?; let a1: ::std::string::String = arg(a, 1)?; let r = m::ContentBlock::image_content(a0, a1); Ok(out!(r)) }
        "ContentBlock.audio_content" => { let a0: ::std::string::String = arg(a, 0)?; let a1: ::std::string::String = arg(a, 1)?; let r = m::ContentBlock::audio_content(a0, a1); Ok(out!(r)) }
        "ContentBlock.resource_link" => { let a0: m::ResourceLink = arg(a, 0)?; let r = m::ContentBlock::resource_link(a0); Ok(out!(r)) }
        "ContentBlock.embedded_resource" => { let a0: m::EmbeddedResourceResource = arg(a, 0)?; let r = m::ContentBlock::embedded_resource(a0); Ok(out!(r)) }
        "ContentBlock.content_type" => { let s: m::ContentBlock = arg(s, 0)?;  let r = m::ContentBlock::content_type(&s); Ok(out!(r)) }
        "ContentBlock.as_text_content" => { let s: m::ContentBlock = arg(s, 0)?;  let r = m::ContentBlock::as_text_content(&s); Ok(out!(r)) }
        "ContentBlock.as_image_content" => { let s: m::ContentBlock = arg(s, 0)?;  let r = m::ContentBlock::as_image_content(&s); Ok(out!(r)) }
        "ContentBlock.as_audio_content" => { let s: m::ContentBlock = arg(s, 0)?;  let r = m::ContentBlock::as_audio_content(&s); Ok(out!(r)) }
        "ContentBlock.as_resource_link" => { let s: m::ContentBlock = arg(s, 0)?;  let r = m::ContentBlock::as_resource_link(&s); Ok(out!(r)) }
        "ContentBlock.as_embedded_resource" => { let s: m::ContentBlock = arg(s, 0)?;  let r = m::ContentBlock::as_embedded_resource(&s); Ok(out!(r)) }
        "CallToolResult.text_content" => { let a0: Vec<m::TextContent> = arg(a, 0)?; let r = m::CallToolResult::text_content(a0); Ok(out!(r)) }
        "CallToolResult.image_content" => { let a0: Vec<m::ImageContent> = arg(a, 0)?; let r = m::CallToolResult::image_content(a0); Ok(out!(r)) }
        "CallToolResult.audio_content" => { let a0: Vec<m::AudioContent> = arg(a, 0)?; let r = m::CallToolResult::audio_content(a0); Ok(out!(r)) }
        "CallToolResult.resource_link" => { let a0: Vec<m::ResourceLink> = arg(a, 0)?; let r = m::CallToolResult::resource_link(a0); Ok(out!(r)) }
        "CallToolResult.embedded_resource" => { let a0: Vec<m::EmbeddedResource> = arg(a, 0)?; let r = m::CallToolResult::embedded_resource(a0); Ok(out!(r)) }
        "CallToolResult.with_error" => { let a0: u::CallToolError = arg(a, 0)?; let r = m::CallToolResult::with_error(a0); Ok(out!(r)) }
        "CallToolResult.with_meta" => { let s: m::CallToolResult = arg(s, 0)?; let a0: Option<m::ResultMetaObject> = arg(a, 0)?; let r = m::CallToolResult::with_meta(s, a0); Ok(out!(r)) }
        "CallToolResult.with_structured_content" => { let s: m::CallToolResult = arg(s, 0)?; let a0: ::serde_json::Map<::std::string::String,::serde_json::Value> = arg(a, 0)?; let r = m::CallToolResult::with_structured_content(s, a0); Ok(out!(r)) }
        "CallToolResult.from_content" => { let a0: Vec<m::ContentBlock> = arg(a, 0)?; let r = m::CallToolResult::from_content(a0); Ok(out!(r)) }
        "CallToolResult.add_content" => { let s: m::CallToolResult = arg(s, 0)?; let a0: m::ContentBlock = arg(a, 0)?; let r = m::CallToolResult::add_content(s, a0); Ok(out!(r)) }
        "CallToolRequestParams.new" => { let a0: String = arg(a, 0)?; let a1: m::RequestMetaObject = arg(a, 1)?; let r = m::CallToolRequestParams::new(a0, a1); Ok(out!(r)) }
        "CallToolRequestParams.with_arguments" => { let s: m::CallToolRequestParams = arg(s, 0)?; let a0: serde_json::Map<String,serde_json::Value> = arg(a, 0)?; let r = m::CallToolRequestParams::with_arguments(s, a0); Ok(out!(r)) }
        "CallToolRequestParams.with_input_responses" => { let s: m::CallToolRequestParams = arg(s, 0)?; let a0: m::InputResponses = arg(a, 0)?; let r = m::CallToolRequestParams::with_input_responses(s, a0); Ok(out!(r)) }
        "CallToolRequestParams.with_request_state" => { let s: m::CallToolRequestParams = arg(s, 0)?; let a0: String = arg(a, 0)?; let r = m::CallToolRequestParams::with_request_state(s, a0); Ok(out!(r)) }
        "GetPromptRequestParams.with_input_responses" => { let s: m::GetPromptRequestParams = arg(s, 0)?; let a0: m::InputResponses = arg(a, 0)?; let r = m::GetPromptRequestParams::with_input_responses(s, a0); Ok(out!(r)) }
        "GetPromptRequestParams.with_request_state" => { let s: m::GetPromptRequestParams = arg(s, 0)?; let a0: String = arg(a, 0)?; let r = m::GetPromptRequestParams::with_request_state(s, a0); Ok(out!(r)) }
        "InputRequiredResult.with_request_state" => { let s: m::InputRequiredResult = arg(s, 0)?; let a0: String = arg(a, 0)?; let r = m::InputRequiredResult::with_request_state(s, a0); Ok(out!(r)) }
        "InputRequiredResult.with_input_requests" => { let s: m::InputRequiredResult = arg(s, 0)?; let a0: m::InputRequests = arg(a, 0)?; let r = m::InputRequiredResult::with_input_requests(s, a0); Ok(out!(r)) }
        "InputResponseRequestParams.with_input_responses" => { let s: m::InputResponseRequestParams = arg(s, 0)?; let a0: m::InputResponses = arg(a, 0)?; let r = m::InputResponseRequestParams::with_input_responses(s, a0); Ok(out!(r)) }
        "InputResponseRequestParams.with_request_state" => { let s: m::InputResponseRequestParams = arg(s, 0)?; let a0: String = arg(a, 0)?; let r = m::InputResponseRequestParams::with_request_state(s, a0); Ok(out!(r)) }
        "ReadResourceRequestParams.with_input_responses" => { let s: m::ReadResourceRequestParams = arg(s, 0)?; let a0: m::InputResponses = arg(a, 0)?; let r = m::ReadResourceRequestParams::with_input_responses(s, a0); Ok(out!(r)) }
        "ReadResourceRequestParams.with_request_state" => { let s: m::ReadResourceRequestParams = arg(s, 0)?; let a0: String = arg(a, 0)?; let r = m::ReadResourceRequestParams::with_request_state(s, a0); Ok(out!(r)) }
        "Annotations.default" => { let r: m::Annotations = Default::default(); Ok(out!(r)) }
        "BaseMetadata.default" => { let r: m::BaseMetadata = Default::default(); Ok(out!(r)) }
        "BlobResourceContents.default" => { let r: m::BlobResourceContents = Default::default(); Ok(out!(r)) }
        "CancelledNotificationParams.default" => { let r: m::CancelledNotificationParams = Default::default(); Ok(out!(r)) }
        "ClientCapabilities.default" => { let r: m::ClientCapabilities = Default::default(); Ok(out!(r)) }
        "ClientElicitation.default" => { let r: m::ClientElicitation = Default::default(); Ok(out!(r)) }
        "ClientSampling.default" => { let r: m::ClientSampling = Default::default(); Ok(out!(r)) }
        "CompleteRequestArgument.default" => { let r: m::CompleteRequestArgument = Default::default(); Ok(out!(r)) }
        "CompleteRequestContext.default" => { let r: m::CompleteRequestContext = Default::default(); Ok(out!(r)) }
        "Cursor.default" => { let r: m::Cursor = Default::default(); Ok(out!(r)) }
        "EmptyResult.default" => { let r: m::EmptyResult = Default::default(); Ok(out!(r)) }
        "Icons.default" => { let r: m::Icons = Default::default(); Ok(out!(r)) }
        "Implementation.default" => { let r: m::Implementation = Default::default(); Ok(out!(r)) }
        "InputResponses.default" => { let r: m::InputResponses = Default::default(); Ok(out!(r)) }
        "ListRootsRequestParams.default" => { let r: m::ListRootsRequestParams = Default::default(); Ok(out!(r)) }
        "LoggingLevel.default" => { let r: m::LoggingLevel = Default::default(); Ok(out!(r)) }
        "LoggingMessageNotificationParams.default" => { let r: m::LoggingMessageNotificationParams = Default::default(); Ok(out!(r)) }
        "MetaObject.default" => { let r: m::MetaObject = Default::default(); Ok(out!(r)) }
        "ModelHint.default" => { let r: m::ModelHint = Default::default(); Ok(out!(r)) }
        "ModelPreferences.default" => { let r: m::ModelPreferences = Default::default(); Ok(out!(r)) }
        "NotificationMetaObject.default" => { let r: m::NotificationMetaObject = Default::default(); Ok(out!(r)) }
        "NotificationParams.default" => { let r: m::NotificationParams = Default::default(); Ok(out!(r)) }
        "PaginatedRequestParams.default" => { let r: m::PaginatedRequestParams = Default::default(); Ok(out!(r)) }
        "PaginatedResult.default" => { let r: m::PaginatedResult = Default::default(); Ok(out!(r)) }
        "ProgressNotificationParams.default" => { let r: m::ProgressNotificationParams = Default::default(); Ok(out!(r)) }
        "ProgressToken.default" => { let r: m::ProgressToken = Default::default(); Ok(out!(r)) }
        "RequestId.default" => { let r: m::RequestId = Default::default(); Ok(out!(r)) }
        "RequestMetaObject.default" => { let r: m::RequestMetaObject = Default::default(); Ok(out!(r)) }
        "RequestParams.default" => { let r: m::RequestParams = Default::default(); Ok(out!(r)) }
        "ResourceUpdatedNotificationParams.default" => { let r: m::ResourceUpdatedNotificationParams = Default::default(); Ok(out!(r)) }
        "Result.default" => { let r: m::Result = Default::default(); Ok(out!(r)) }
        "ResultMetaObject.default" => { let r: m::ResultMetaObject = Default::default(); Ok(out!(r)) }
        "ServerCapabilities.default" => { let r: m::ServerCapabilities = Default::default(); Ok(out!(r)) }
        "ServerCapabilitiesPrompts.default" => { let r: m::ServerCapabilitiesPrompts = Default::default(); Ok(out!(r)) }
        "ServerCapabilitiesResources.default" => { let r: m::ServerCapabilitiesResources = Default::default(); Ok(out!(r)) }
        "ServerCapabilitiesTools.default" => { let r: m::ServerCapabilitiesTools = Default::default(); Ok(out!(r)) }
        "SubscriptionFilter.default" => { let r: m::SubscriptionFilter = Default::default(); Ok(out!(r)) }
        "SubscriptionsAcknowledgedNotificationParams.default" => { let r: m::SubscriptionsAcknowledgedNotificationParams = Default::default(); Ok(out!(r)) }
        "ToolAnnotations.default" => { let r: m::ToolAnnotations = Default::default(); Ok(out!(r)) }
        "ToolChoice.default" => { let r: m::ToolChoice = Default::default(); Ok(out!(r)) }
        "ToolOutputSchema.default" => { let r: m::ToolOutputSchema = Default::default(); Ok(out!(r)) }
        "RequestId.eq" => { let s: m::RequestId = arg(s, 0)?; let a0: m::RequestId = arg(a, 0)?; Ok(same_id(&s, &a0, &s == a0, &a0 == s)) }
        "RequestId.find" => { let a0: Vec<m::RequestId> = arg(a, 0)?; let a1: m::RequestId = arg(a, 1)?; Ok(find_id(a0, &a1)) }
        _ => Err(format!("no function {f}")),
    }
}
#[allow(unused_mut, unused_assignments, unused_variables)]
pub fn run_chain(t: &str, s: &V, calls: &[V]) -> R<(V, V)> {
    match t {
        "RequestFromClient" => { let mut s: u::RequestFromClient = arg(s, 0)?; for c in calls { let a = &c[1]; let _ = a; match c[0].as_str().unwrap_or("") { "with_meta" => { let a0: m::RequestMetaObject = arg(a, 0)?; s = u::RequestFromClient::with_meta(s, a0); } x => return Err(bad(x, c)) } } Ok((s.view(), text(&s))) }
        "TextResourceContents" => { let mut s: m::TextResourceContents = arg(s, 0)?; for c in calls { let a = &c[1]; let _ = a; match c[0].as_str().unwrap_or("") { "with_meta" => { let a0: m::MetaObject = arg(a, 0)?; s = m::TextResourceContents::with_meta(s, a0); } "with_mime_type" => { let a0: String = arg(a, 0)?; s = m::TextResourceContents::with_mime_type(s, a0); } "with_uri" => { let a0: String = arg(a, 0)?; s = m::TextResourceContents::with_uri(s, a0); } x => return Err(bad(x, c)) } } Ok((s.view(), text(&s))) }
        "BlobResourceContents" => { let mut s: m::BlobResourceContents = arg(s, 0)?; for c in calls { let a = &c[1]; let _ = a; match c[0].as_str().unwrap_or("") { "with_meta" => { let a0: m::MetaObject = arg(a, 0)?; s = m::BlobResourceContents::with_meta(s, a0); } "with_mime_type" => { let a0: String = arg(a, 0)?; s = m::BlobResourceContents::with_mime_type(s, a0); } "with_uri" => { let a0: String = arg(a, 0)?; s = m::BlobResourceContents::with_uri(s, a0); } x => return Err(bad(x, c)) } } Ok((s.view(), text(&s))) }
        "RequestMetaObject" => { let mut s: m::RequestMetaObject = arg(s, 0)?; for c in calls { let a = &c[1]; let _ = a; match c[0].as_str().unwrap_or("") { "with_client_info" => { let a0: m::Implementation = arg(a, 0)?; s = m::RequestMetaObject::with_client_info(s, a0); } "with_log_level" => { let a0: m::LoggingLevel = arg(a, 0)?; s = m::RequestMetaObject::with_log_level(s, a0); } "with_progress_token" => { let a0: m::ProgressToken = arg(a, 0)?; s = m::RequestMetaObject::with_progress_token(s, a0); } "with_traceparent" => { let a0: String = arg(a, 0)?; s = m::RequestMetaObject::with_traceparent(s, a0); } "with_tracestate" => { let a0: String = arg(a, 0)?; s = m::RequestMetaObject::with_tracestate(s, a0); } "with_baggage" => { let a0: String = arg(a, 0)?; s = m::RequestMetaObject::with_baggage(s, a0); } x => return Err(bad(x, c)) } } Ok((s.view(), text(&s))) }
        "InputResponses" => { let mut s: m::InputResponses = arg(s, 0)?; for c in calls { let a = &c[1]; let _ = a; match c[0].as_str().unwrap_or("") { "insert" => { let a0: String = arg(a, 0)?; let a1: m::InputResponse = arg(a, 1)?; s = m::InputResponses::insert(s, a0, a1); } x => return Err(bad(x, c)) } } Ok((s.view(), text(&s))) }
        "SdkError" => { let mut s: u::SdkError = arg(s, 0)?; for c in calls { let a = &c[1]; let _ = a; match c[0].as_str().unwrap_or("") { "with_message" => { let a0: String = arg(a, 0)?; s = u::SdkError::with_message(s, a0.as_str()); } "with_data" => { let a0: ::std::option::Option<::serde_json::Value> = arg(a, 0)?; s = u::SdkError::with_data(s, a0); } x => return Err(bad(x, c)) } } Ok((s.view(), text(&s))) }
        "RpcError" => { let mut s: m::RpcError = arg(s, 0)?; for c in calls { let a = &c[1]; let _ = a; match c[0].as_str().unwrap_or("") { "with_message" => { let a0: String = arg(a, 0)?; s = m::RpcError::with_message(s, a0); } "with_data" => { let a0: ::std::option::Option<::serde_json::Value> = arg(a, 0)?; s = m::RpcError::with_data(s, a0); } x => return Err(bad(x, c)) } } Ok((s.view(), text(&s))) }
        "CallToolResult" => { let mut s: m::CallToolResult = arg(s, 0)?; for c in calls { let a = &c[1]; let _ = a; match c[0].as_str().unwrap_or("") { "with_meta" => { let a0: Option<m::ResultMetaObject> = arg(a, 0)?; s = m::CallToolResult::with_meta(s, a0); } "with_structured_content" => { let a0: ::serde_json::Map<::std::string::String,::serde_json::Value> = arg(a, 0)?; s = m::CallToolResult::with_structured_content(s, a0); } "add_content" => { let a0: m::ContentBlock = arg(a, 0)?; s = m::CallToolResult::add_content(s, a0); } x => return Err(bad(x, c)) } } Ok((s.view(), text(&s))) }
        "CallToolRequestParams" => { let mut s: m::CallToolRequestParams = arg(s, 0)?; for c in calls { let a = &c[1]; let _ = a; match c[0].as_str().unwrap_or("") { "with_arguments" => { let a0: serde_json::Map<String,serde_json::Value> = arg(a, 0)?; s = m::CallToolRequestParams::with_arguments(s, a0); } "with_input_responses" => { let a0: m::InputResponses = arg(a, 0)?; s = m::CallToolRequestParams::with_input_responses(s, a0); } "with_request_state" => { let a0: String = arg(a, 0)?; s = m::CallToolRequestParams::with_request_state(s, a0); } x => return Err(bad(x, c)) } } Ok((s.view(), text(&s))) }
        "GetPromptRequestParams" => { let mut s: m::GetPromptRequestParams = arg(s, 0)?; for c in calls { let a = &c[1]; let _ = a; match c[0].as_str().unwrap_or("") { "with_input_responses" => { let a0: m::InputResponses = arg(a, 0)?; s = m::GetPromptRequestParams::with_input_responses(s, a0); } "with_request_state" => { let a0: String = arg(a, 0)?; s = m::GetPromptRequestParams::with_request_state(s, a0); } x => return Err(bad(x, c)) } } Ok((s.view(), text(&s))) }
        "InputRequiredResult" => { let mut s: m::InputRequiredResult = arg(s, 0)?; for c in calls { let a = &c[1]; let _ = a; match c[0].as_str().unwrap_or("") { "with_request_state" => { let a0: String = arg(a, 0)?; s = m::InputRequiredResult::with_request_state(s, a0); } "with_input_requests" => { let a0: m::InputRequests = arg(a, 0)?; s = m::InputRequiredResult::with_input_requests(s, a0); } x => return Err(bad(x, c)) } } Ok((s.view(), text(&s))) }
        "InputResponseRequestParams" => { let mut s: m::InputResponseRequestParams = arg(s, 0)?; for c in calls { let a = &c[1]; let _ = a; match c[0].as_str().unwrap_or("") { "with_input_responses" => { let a0: m::InputResponses = arg(a, 0)?; s = m::InputResponseRequestParams::with_input_responses(s, a0); } "with_request_state" => { let a0: String = arg(a, 0)?; s = m::InputResponseRequestParams::with_request_state(s, a0); } x => return Err(bad(x, c)) } } Ok((s.view(), text(&s))) }
        "ReadResourceRequestParams" => { let mut s: m::ReadResourceRequestParams = arg(s, 0)?; for c in calls { let a = &c[1]; let _ = a; match c[0].as_str().unwrap_or("") { "with_input_responses" => { let a0: m::InputResponses = arg(a, 0)?; s = m::ReadResourceRequestParams::with_input_responses(s, a0); } "with_request_state" => { let a0: String = arg(a, 0)?; s = m::ReadResourceRequestParams::with_request_state(s, a0); } x => return Err(bad(x, c)) } } Ok((s.view(), text(&s))) }
        _ => Err(format!("no chain {t}")),
    }
}
pub fn consts() -> V {
    json!({"LATEST_PROTOCOL_VERSION": m::LATEST_PROTOCOL_VERSION, "JSONRPC_VERSION": m::JSONRPC_VERSION, "PARSE_ERROR": m::PARSE_ERROR, "INVALID_REQUEST": m::INVALID_REQUEST, "METHOD_NOT_FOUND": m::METHOD_NOT_FOUND, "INVALID_PARAMS": m::INVALID_PARAMS, "INTERNAL_ERROR": m::INTERNAL_ERROR, "HEADER_MISMATCH": m::HEADER_MISMATCH, "MISSING_REQUIRED_CLIENT_CAPABILITY": m::MISSING_REQUIRED_CLIENT_CAPABILITY, "UNSUPPORTED_PROTOCOL_VERSION": m::UNSUPPORTED_PROTOCOL_VERSION})
}
pub const CALLS: &[&str] = &["AudioContent.new", "AudioContent.type_", "AudioContent.type_value", "AudioContent.type_name", "BooleanSchema.new", "BooleanSchema.type_", "BooleanSchema.type_value", "BooleanSchema.type_name", "CacheableResultCacheScope.Display", "CallToolRequest.new", "CallToolRequest.jsonrpc", "CallToolRequest.method", "CallToolRequest.method_value", "CallToolRequest.method_name", "CallToolResultResponse.new", "CallToolResultResponse.jsonrpc", "CallToolResultResponseResult.From<InputRequiredResult>", "CallToolResultResponseResult.From<CallToolResult>", "CancelledNotification.new", "CancelledNotification.jsonrpc", "CancelledNotification.method", "CancelledNotification.method_value", "CancelledNotification.method_name", "ClientNotification.new", "ClientNotification.jsonrpc", "ClientNotification.method", "ClientNotification.method_value", "ClientNotification.method_name", "ClientRequest.From<DiscoverRequest>", "ClientRequest.From<ListResourcesRequest>", "ClientRequest.From<ListResourceTemplatesRequest>", "ClientRequest.From<ReadResourceRequest>", "ClientRequest.From<SubscriptionsListenRequest>", "ClientRequest.From<ListPromptsRequest>", "ClientRequest.From<GetPromptRequest>", "ClientRequest.From<ListToolsRequest>", "ClientRequest.From<CallToolRequest>", "ClientRequest.From<CompleteRequest>", "CompleteRequest.new", "CompleteRequest.jsonrpc", "CompleteRequest.method", "CompleteRequest.method_value", "CompleteRequest.method_name", "CompleteRequestRef.From<PromptReference>", "CompleteRequestRef.From<ResourceTemplateReference>", "CompleteResultResponse.new", "CompleteResultResponse.jsonrpc", "ContentBlock.From<TextContent>", "ContentBlock.From<ImageContent>", "ContentBlock.From<AudioContent>", "ContentBlock.From<ResourceLink>", "ContentBlock.From<EmbeddedResource>", "CreateMessageContent.From<TextContent>", "CreateMessageContent.From<ImageContent>", "CreateMessageContent.From<AudioContent>", "CreateMessageContent.From<ToolUseContent>", "CreateMessageContent.From<ToolResultContent>", "CreateMessageContent.From<Vec<SamplingMessageContentBlock>>", "CreateMessageRequest.new", "CreateMessageRequest.method", "CreateMessageRequest.method_value", "CreateMessageRequest.method_name", "DiscoverRequest.new", "DiscoverRequest.jsonrpc", "DiscoverRequest.method", "DiscoverRequest.method_value", "DiscoverRequest.method_name", "DiscoverResultCacheScope.Display", "DiscoverResultResponse.new", "DiscoverResultResponse.jsonrpc", "ElicitRequest.new", "ElicitRequest.method", "ElicitRequest.method_value", "ElicitRequest.method_name", "ElicitRequestFormParams.new", "ElicitRequestFormParams.mode", "ElicitRequestFormParams.mode_value", "ElicitRequestFormParams.mode_name", "ElicitRequestFormParamsRequestedSchema.new", "ElicitRequestFormParamsRequestedSchema.type_", "ElicitRequestFormParamsRequestedSchema.type_value", "ElicitRequestFormParamsRequestedSchema.type_name", "ElicitRequestParams.From<ElicitRequestFormParams>", "ElicitRequestParams.From<ElicitRequestUrlParams>", "ElicitRequestUrlParams.new", "ElicitRequestUrlParams.mode", "ElicitRequestUrlParams.mode_value", "ElicitRequestUrlParams.mode_name", "ElicitResultAction.Display", "ElicitResultContent.From<Vec<String>>", "ElicitResultContent.From<ElicitResultContentPrimitive>", "ElicitResultContentPrimitive.From<bool>", "ElicitResultContentPrimitive.From<i64>", "EmbeddedResource.new", "EmbeddedResource.type_", "EmbeddedResource.type_value", "EmbeddedResource.type_name", "EmbeddedResourceResource.From<TextResourceContents>", "EmbeddedResourceResource.From<BlobResourceContents>", "EnumSchema.From<UntitledSingleSelectEnumSchema>", "EnumSchema.From<TitledSingleSelectEnumSchema>", "EnumSchema.From<UntitledMultiSelectEnumSchema>", "EnumSchema.From<TitledMultiSelectEnumSchema>", "EnumSchema.From<LegacyTitledEnumSchema>", "GetPromptRequest.new", "GetPromptRequest.jsonrpc", "GetPromptRequest.method", "GetPromptRequest.method_value", "GetPromptRequest.method_name", "GetPromptResultResponse.new", "GetPromptResultResponse.jsonrpc", "GetPromptResultResponseResult.From<InputRequiredResult>", "GetPromptResultResponseResult.From<GetPromptResult>", "HeaderMismatchError.new", "HeaderMismatchError.jsonrpc", "IconTheme.Display", "ImageContent.new", "ImageContent.type_", "ImageContent.type_value", "ImageContent.type_name", "IncludeContext.Display", "InputRequest.From<CreateMessageRequest>", "InputRequest.From<ListRootsRequest>", "InputRequest.From<ElicitRequest>", "InputResponse.From<CreateMessageResult>", "InputResponse.From<ListRootsResult>", "InputResponse.From<ElicitResult>", "JsonValue.From<JsonObject>", "JsonValue.From<Vec<JsonValue>>", "JsonValue.From<JsonValueVariant2>", "JsonValueVariant2.From<bool>", "JsonValueVariant2.From<i64>", "JsonrpcErrorResponse.new", "JsonrpcErrorResponse.jsonrpc", "JsonrpcMessage.From<JsonrpcRequest>", "JsonrpcMessage.From<JsonrpcNotification>", "JsonrpcMessage.From<JsonrpcResultResponse>", "JsonrpcMessage.From<JsonrpcErrorResponse>", "JsonrpcNotification.new", "JsonrpcNotification.jsonrpc", "JsonrpcRequest.new", "JsonrpcRequest.jsonrpc", "JsonrpcResponse.From<JsonrpcResultResponse>", "JsonrpcResponse.From<JsonrpcErrorResponse>", "JsonrpcResultResponse.new", "JsonrpcResultResponse.jsonrpc", "LegacyTitledEnumSchema.new", "LegacyTitledEnumSchema.type_", "LegacyTitledEnumSchema.type_value", "LegacyTitledEnumSchema.type_name", "ListPromptsRequest.new", "ListPromptsRequest.jsonrpc", "ListPromptsRequest.method", "ListPromptsRequest.method_value", "ListPromptsRequest.method_name", "ListPromptsResultCacheScope.Display", "ListPromptsResultResponse.new", "ListPromptsResultResponse.jsonrpc", "ListResourceTemplatesRequest.new", "ListResourceTemplatesRequest.jsonrpc", "ListResourceTemplatesRequest.method", "ListResourceTemplatesRequest.method_value", "ListResourceTemplatesRequest.method_name", "ListResourceTemplatesResultCacheScope.Display", "ListResourceTemplatesResultResponse.new", "ListResourceTemplatesResultResponse.jsonrpc", "ListResourcesRequest.new", "ListResourcesRequest.jsonrpc", "ListResourcesRequest.method", "ListResourcesRequest.method_value", "ListResourcesRequest.method_name", "ListResourcesResultCacheScope.Display", "ListResourcesResultResponse.new", "ListResourcesResultResponse.jsonrpc", "ListRootsRequest.new", "ListRootsRequest.method", "ListRootsRequest.method_value", "ListRootsRequest.method_name", "ListToolsRequest.new", "ListToolsRequest.jsonrpc", "ListToolsRequest.method", "ListToolsRequest.method_value", "ListToolsRequest.method_name", "ListToolsResultCacheScope.Display", "ListToolsResultResponse.new", "ListToolsResultResponse.jsonrpc", "LoggingLevel.Display", "LoggingMessageNotification.new", "LoggingMessageNotification.jsonrpc", "LoggingMessageNotification.method", "LoggingMessageNotification.method_value", "LoggingMessageNotification.method_name", "MissingRequiredClientCapabilityError.new", "MissingRequiredClientCapabilityError.jsonrpc", "MultiSelectEnumSchema.From<UntitledMultiSelectEnumSchema>", "MultiSelectEnumSchema.From<TitledMultiSelectEnumSchema>", "NumberSchemaType.Display", "PaginatedRequest.new", "PaginatedRequest.jsonrpc", "PrimitiveSchemaDefinition.From<StringSchema>", "PrimitiveSchemaDefinition.From<NumberSchema>", "PrimitiveSchemaDefinition.From<BooleanSchema>", "PrimitiveSchemaDefinition.From<UntitledSingleSelectEnumSchema>", "PrimitiveSchemaDefinition.From<TitledSingleSelectEnumSchema>", "PrimitiveSchemaDefinition.From<UntitledMultiSelectEnumSchema>", "PrimitiveSchemaDefinition.From<TitledMultiSelectEnumSchema>", "PrimitiveSchemaDefinition.From<LegacyTitledEnumSchema>", "ProgressNotification.new", "ProgressNotification.jsonrpc", "ProgressNotification.method", "ProgressNotification.method_value", "ProgressNotification.method_name", "ProgressToken.From<i64>", "PromptListChangedNotification.new", "PromptListChangedNotification.jsonrpc", "PromptListChangedNotification.method", "PromptListChangedNotification.method_value", "PromptListChangedNotification.method_name", "PromptReference.new", "PromptReference.type_", "PromptReference.type_value", "PromptReference.type_name", "ReadResourceContent.From<TextResourceContents>", "ReadResourceContent.From<BlobResourceContents>", "ReadResourceRequest.new", "ReadResourceRequest.jsonrpc", "ReadResourceRequest.method", "ReadResourceRequest.method_value", "ReadResourceRequest.method_name", "ReadResourceResultCacheScope.Display", "ReadResourceResultResponse.new", "ReadResourceResultResponse.jsonrpc", "ReadResourceResultResponseResult.From<InputRequiredResult>", "ReadResourceResultResponseResult.From<ReadResourceResult>", "RequestId.From<i64>", "ResourceLink.new", "ResourceLink.type_", "ResourceLink.type_value", "ResourceLink.type_name", "ResourceListChangedNotification.new", "ResourceListChangedNotification.jsonrpc", "ResourceListChangedNotification.method", "ResourceListChangedNotification.method_value", "ResourceListChangedNotification.method_name", "ResourceTemplateReference.new", "ResourceTemplateReference.type_", "ResourceTemplateReference.type_value", "ResourceTemplateReference.type_name", "ResourceUpdatedNotification.new", "ResourceUpdatedNotification.jsonrpc", "ResourceUpdatedNotification.method", "ResourceUpdatedNotification.method_value", "ResourceUpdatedNotification.method_name", "Role.Display", "SamplingMessageContent.From<TextContent>", "SamplingMessageContent.From<ImageContent>", "SamplingMessageContent.From<AudioContent>", "SamplingMessageContent.From<ToolUseContent>", "SamplingMessageContent.From<ToolResultContent>", "SamplingMessageContent.From<Vec<SamplingMessageContentBlock>>", "SamplingMessageContentBlock.From<TextContent>", "SamplingMessageContentBlock.From<ImageContent>", "SamplingMessageContentBlock.From<AudioContent>", "SamplingMessageContentBlock.From<ToolUseContent>", "SamplingMessageContentBlock.From<ToolResultContent>", "ServerNotification.From<CancelledNotification>", "ServerNotification.From<ProgressNotification>", "ServerNotification.From<ResourceListChangedNotification>", "ServerNotification.From<SubscriptionsAcknowledgedNotification>", "ServerNotification.From<ResourceUpdatedNotification>", "ServerNotification.From<PromptListChangedNotification>", "ServerNotification.From<ToolListChangedNotification>", "ServerNotification.From<LoggingMessageNotification>", "ServerResult.From<InputRequiredResult>", "ServerResult.From<DiscoverResult>", "ServerResult.From<ListResourcesResult>", "ServerResult.From<ListResourceTemplatesResult>", "ServerResult.From<ReadResourceResult>", "ServerResult.From<SubscriptionsListenResult>", "ServerResult.From<ListPromptsResult>", "ServerResult.From<GetPromptResult>", "ServerResult.From<ListToolsResult>", "ServerResult.From<CallToolResult>", "ServerResult.From<CompleteResult>", "ServerResult.From<Result>", "SingleSelectEnumSchema.From<UntitledSingleSelectEnumSchema>", "SingleSelectEnumSchema.From<TitledSingleSelectEnumSchema>", "StringSchema.new", "StringSchema.type_", "StringSchema.type_value", "StringSchema.type_name", "StringSchemaFormat.Display", "SubscriptionsAcknowledgedNotification.new", "SubscriptionsAcknowledgedNotification.jsonrpc", "SubscriptionsAcknowledgedNotification.method", "SubscriptionsAcknowledgedNotification.method_value", "SubscriptionsAcknowledgedNotification.method_name", "SubscriptionsListenRequest.new", "SubscriptionsListenRequest.jsonrpc", "SubscriptionsListenRequest.method", "SubscriptionsListenRequest.method_value", "SubscriptionsListenRequest.method_name", "SubscriptionsListenResultResponse.new", "SubscriptionsListenResultResponse.jsonrpc", "TextContent.new", "TextContent.type_", "TextContent.type_value", "TextContent.type_name", "TitledMultiSelectEnumSchema.new", "TitledMultiSelectEnumSchema.type_", "TitledMultiSelectEnumSchema.type_value", "TitledMultiSelectEnumSchema.type_name", "TitledSingleSelectEnumSchema.new", "TitledSingleSelectEnumSchema.type_", "TitledSingleSelectEnumSchema.type_value", "TitledSingleSelectEnumSchema.type_name", "ToolChoiceMode.Display", "ToolInputSchema.new", "ToolInputSchema.type_", "ToolInputSchema.type_value", "ToolInputSchema.type_name", "ToolListChangedNotification.new", "ToolListChangedNotification.jsonrpc", "ToolListChangedNotification.method", "ToolListChangedNotification.method_value", "ToolListChangedNotification.method_name", "ToolResultContent.new", "ToolResultContent.type_", "ToolResultContent.type_value", "ToolResultContent.type_name", "ToolUseContent.new", "ToolUseContent.type_", "ToolUseContent.type_value", "ToolUseContent.type_name", "UnsupportedProtocolVersionError.new", "UnsupportedProtocolVersionError.jsonrpc", "UntitledMultiSelectEnumSchema.new", "UntitledMultiSelectEnumSchema.type_", "UntitledMultiSelectEnumSchema.type_value", "UntitledMultiSelectEnumSchema.type_name", "UntitledMultiSelectEnumSchemaItems.new", "UntitledMultiSelectEnumSchemaItems.type_", "UntitledMultiSelectEnumSchemaItems.type_value", "UntitledMultiSelectEnumSchemaItems.type_name", "UntitledSingleSelectEnumSchema.new", "UntitledSingleSelectEnumSchema.type_", "UntitledSingleSelectEnumSchema.type_value", "UntitledSingleSelectEnumSchema.type_name", "ClientRequest.method", "ServerNotification.method", "GenericResult.From<InputRequiredResult>", "GenericResult.From<DiscoverResult>", "GenericResult.From<ListResourcesResult>", "GenericResult.From<ListResourceTemplatesResult>", "GenericResult.From<ReadResourceResult>", "GenericResult.From<SubscriptionsListenResult>", "GenericResult.From<ListPromptsResult>", "GenericResult.From<GetPromptResult>", "GenericResult.From<ListToolsResult>", "GenericResult.From<CallToolResult>", "GenericResult.From<CompleteResult>", "ClientRequest.request_id", "MessageTypes.Display", "RequestId.Display", "ClientMessage.as_response", "ClientMessage.as_request", "ClientMessage.as_notification", "ClientMessage.as_error", "ClientMessage.is_initialize_request", "ClientMessage.is_initialized_notification", "ClientMessage.From<ClientJsonrpcNotification>", "ClientMessage.From<ClientJsonrpcRequest>", "ClientMessage.From<ClientJsonrpcResponse>", "ClientMessage.request_id", "ClientMessage.jsonrpc", "ClientMessage.method", "ClientMessage.is_response", "ClientMessage.is_request", "ClientMessage.is_notification", "ClientMessage.is_error", "ClientMessage.message_type", "ClientJsonrpcRequest.new", "ClientJsonrpcRequest.jsonrpc", "ClientJsonrpcRequest.request_id", "ClientJsonrpcRequest.method", "RequestFromClient.From<ClientJsonrpcRequest>", "ClientJsonrpcRequest.Display", "ClientJsonrpcRequest.FromStr", "RequestFromClient.method", "RequestFromClient.is_initialize_request", "RequestFromClient.with_meta", "RequestFromClient.meta", "RequestFromClient.with_input_responses", "ClientJsonrpcNotification.new", "ClientJsonrpcNotification.jsonrpc", "ClientJsonrpcNotification.method", "NotificationFromClient.From<ClientJsonrpcNotification>", "ClientJsonrpcNotification.Display", "ClientJsonrpcNotification.FromStr", "NotificationFromClient.method", "ClientJsonrpcResponse.new", "ClientJsonrpcResponse.jsonrpc", "ClientJsonrpcResponse.Display", "ClientJsonrpcResponse.FromStr", "ClientMessage.FromStr", "ClientMessage.Display", "ServerMessage.as_response", "ServerMessage.as_request", "ServerMessage.as_notification", "ServerMessage.as_error", "ServerMessage.From<ServerJsonrpcNotification>", "ServerMessage.From<ServerJsonrpcRequest>", "ServerMessage.From<ServerJsonrpcResponse>", "ServerMessage.request_id", "ServerMessage.jsonrpc", "ServerMessage.method", "ServerMessage.is_response", "ServerMessage.is_request", "ServerMessage.is_notification", "ServerMessage.is_error", "ServerMessage.message_type", "ServerMessage.FromStr", "ServerMessage.Display", "ServerJsonrpcRequest.new", "ServerJsonrpcRequest.request_id", "ServerJsonrpcRequest.jsonrpc", "ServerJsonrpcRequest.method", "ServerJsonrpcRequest.Display", "ServerJsonrpcRequest.FromStr", "RequestFromServer.From<ServerJsonrpcRequest>", "RequestFromServer.method", "NotificationFromServer.From<ServerJsonrpcNotification>", "ServerJsonrpcNotification.new", "ServerJsonrpcNotification.jsonrpc", "ServerJsonrpcNotification.method", "ServerJsonrpcNotification.Display", "ServerJsonrpcNotification.FromStr", "NotificationFromServer.method", "ServerJsonrpcResponse.new", "ServerJsonrpcResponse.jsonrpc", "ServerJsonrpcResponse.Display", "ServerJsonrpcResponse.FromStr", "JsonrpcErrorResponse.Display", "JsonrpcErrorResponse.FromStr", "MessageFromServer.From<RequestFromServer>", "MessageFromServer.From<ServerResult>", "MessageFromServer.From<NotificationFromServer>", "MessageFromServer.From<RpcError>", "MessageFromServer.is_response", "MessageFromServer.is_request", "MessageFromServer.is_notification", "MessageFromServer.is_error", "MessageFromServer.message_type", "ServerMessage.FromMessage<MessageFromServer>", "MessageFromClient.is_initialize_request", "MessageFromClient.is_initialized_notification", "MessageFromClient.From<RequestFromClient>", "MessageFromClient.From<ResultFromClient>", "MessageFromClient.From<NotificationFromClient>", "MessageFromClient.From<RpcError>", "MessageFromClient.is_response", "MessageFromClient.is_request", "MessageFromClient.is_notification", "MessageFromClient.is_error", "MessageFromClient.message_type", "ClientMessage.FromMessage<MessageFromClient>", "UnknownTool.Display", "CallToolError.unknown_tool", "CallToolError.unsupported_task_augmented_tool_call", "CallToolError.invalid_arguments", "CallToolError.from_message", "RpcError.From<CallToolError>", "CallToolResult.From<CallToolError>", "CallToolError.Display", "CallToolRequest.tool_name", "TextContent.From<T>", "TextResourceContents.new", "TextResourceContents.with_meta", "TextResourceContents.with_mime_type", "TextResourceContents.with_uri", "BlobResourceContents.new", "BlobResourceContents.with_meta", "BlobResourceContents.with_mime_type", "BlobResourceContents.with_uri", "ClientMessages.is_batch", "ClientMessages.includes_request", "ClientMessages.as_single", "ClientMessages.as_batch", "ClientMessages.From<ClientMessage>", "ClientMessages.From<Vec<ClientMessage>>", "ClientMessages.Display", "ServerMessages.is_batch", "ServerMessages.includes_request", "ServerMessages.as_single", "ServerMessages.as_batch", "ServerMessages.From<ServerMessage>", "ServerMessages.From<Vec<ServerMessage>>", "ServerMessages.Display", "MessagesFromServer.is_batch", "MessagesFromServer.includes_request", "MessagesFromServer.as_single", "MessagesFromServer.as_batch", "MessagesFromServer.From<MessageFromServer>", "MessagesFromServer.From<Vec<MessageFromServer>>", "MessagesFromClient.is_batch", "MessagesFromClient.includes_request", "MessagesFromClient.as_single", "MessagesFromClient.as_batch", "MessagesFromClient.From<MessageFromClient>", "MessagesFromClient.From<Vec<MessageFromClient>>", "StringSchemaFormat.FromStr", "PrimitiveSchemaDefinition.TryFrom<&Map<String,Value>>", "ElicitRequestParams.message", "ServerCapabilities.can_handle_request", "ServerCapabilities.can_accept_notification", "ClientCapabilities.can_handle_request", "ClientCapabilities.can_accept_notification", "CustomRequest.From<JsonrpcRequest>", "CustomNotification.From<JsonrpcNotification>", "Role.FromStr", "ServerResult.is_input_required", "ServerResult.is_complete", "ServerResult.as_input_required", "RequestMetaObject.new", "RequestMetaObject.with_client_info", "RequestMetaObject.with_log_level", "RequestMetaObject.with_progress_token", "RequestMetaObject.traceparent", "RequestMetaObject.with_traceparent", "RequestMetaObject.tracestate", "RequestMetaObject.with_tracestate", "RequestMetaObject.baggage", "RequestMetaObject.with_baggage", "InputRequests.iter", "InputRequests.keys", "InputRequests.get", "InputRequests.len", "InputRequests.is_empty", "InputResponses.new", "InputResponses.insert", "InputResponses.len", "InputResponses.is_empty", "InputRequest.as_create_message", "InputRequest.as_list_roots", "InputRequest.as_elicit", "InputRequest.method", "ResultFromClient.From<CreateMessageResult>", "ResultFromClient.From<ListRootsResult>", "ResultFromClient.From<ElicitResult>", "ResultFromClient.From<Result>", "MessageFromClient.From<CreateMessageResult>", "MessageFromClient.From<ListRootsResult>", "MessageFromClient.From<ElicitResult>", "MessageFromClient.From<Result>", "ClientJsonrpcRequest.From<DiscoverRequest>", "ClientJsonrpcRequest.From<ListResourcesRequest>", "ClientJsonrpcRequest.From<ListResourceTemplatesRequest>", "ClientJsonrpcRequest.From<ReadResourceRequest>", "ClientJsonrpcRequest.From<SubscriptionsListenRequest>", "ClientJsonrpcRequest.From<ListPromptsRequest>", "ClientJsonrpcRequest.From<GetPromptRequest>", "ClientJsonrpcRequest.From<ListToolsRequest>", "ClientJsonrpcRequest.From<CallToolRequest>", "ClientJsonrpcRequest.From<CompleteRequest>", "i64.From<SdkErrorCodes>", "SdkError.Display", "SdkError.new", "SdkError.connection_closed", "SdkError.request_timeout", "SdkError.session_not_found", "SdkError.invalid_request", "SdkError.method_not_found", "SdkError.invalid_params", "SdkError.internal_error", "SdkError.parse_error", "SdkError.resource_not_found", "SdkError.bad_request", "SdkError.with_message", "SdkError.with_data", "i64.From<RpcErrorCodes>", "RpcError.new", "RpcError.method_not_found", "RpcError.invalid_params", "RpcError.invalid_request", "RpcError.internal_error", "RpcError.parse_error", "RpcError.with_message", "RpcError.with_data", "RpcError.Display", "RpcError.FromStr", "JsonrpcErrorResponse.create", "RpcError.From<MissingRequiredClientCapabilityError>", "RpcError.From<UnsupportedProtocolVersionError>", "MessageFromServer.From<Result>", "MessageFromServer.From<InputRequiredResult>", "MessageFromServer.From<DiscoverResult>", "MessageFromServer.From<ListResourcesResult>", "MessageFromServer.From<ListResourceTemplatesResult>", "MessageFromServer.From<ReadResourceResult>", "MessageFromServer.From<SubscriptionsListenResult>", "MessageFromServer.From<ListPromptsResult>", "MessageFromServer.From<GetPromptResult>", "MessageFromServer.From<ListToolsResult>", "MessageFromServer.From<CallToolResult>", "MessageFromServer.From<CompleteResult>", "CreateMessageResult.TryFrom<ResultFromClient>", "ListRootsResult.TryFrom<ResultFromClient>", "ElicitResult.TryFrom<ResultFromClient>", "GenericResult.TryFrom<ResultFromClient>", "GenericResult.TryFrom<ServerResult>", "InputRequiredResult.TryFrom<ServerResult>", "DiscoverResult.TryFrom<ServerResult>", "ListResourcesResult.TryFrom<ServerResult>", "ListResourceTemplatesResult.TryFrom<ServerResult>", "ReadResourceResult.TryFrom<ServerResult>", "SubscriptionsListenResult.TryFrom<ServerResult>", "ListPromptsResult.TryFrom<ServerResult>", "GetPromptResult.TryFrom<ServerResult>", "ListToolsResult.TryFrom<ServerResult>", "CallToolResult.TryFrom<ServerResult>", "CompleteResult.TryFrom<ServerResult>", "ContentBlock.text_content", "ContentBlock.image_content", "ContentBlock.audio_content", "ContentBlock.resource_link", "ContentBlock.embedded_resource", "ContentBlock.content_type", "ContentBlock.as_text_content", "ContentBlock.as_image_content", "ContentBlock.as_audio_content", "ContentBlock.as_resource_link", "ContentBlock.as_embedded_resource", "CallToolResult.text_content", "CallToolResult.image_content", "CallToolResult.audio_content", "CallToolResult.resource_link", "CallToolResult.embedded_resource", "CallToolResult.with_error", "CallToolResult.with_meta", "CallToolResult.with_structured_content", "CallToolResult.from_content", "CallToolResult.add_content", "CallToolRequestParams.new", "CallToolRequestParams.with_arguments", "CallToolRequestParams.with_input_responses", "CallToolRequestParams.with_request_state", "GetPromptRequestParams.with_input_responses", "GetPromptRequestParams.with_request_state", "InputRequiredResult.with_request_state", "InputRequiredResult.with_input_requests", "InputResponseRequestParams.with_input_responses", "InputResponseRequestParams.with_request_state", "ReadResourceRequestParams.with_input_responses", "ReadResourceRequestParams.with_request_state", "Annotations.default", "BaseMetadata.default", "BlobResourceContents.default", "CancelledNotificationParams.default", "ClientCapabilities.default", "ClientElicitation.default", "ClientSampling.default", "CompleteRequestArgument.default", "CompleteRequestContext.default", "Cursor.default", "EmptyResult.default", "Icons.default", "Implementation.default", "InputResponses.default", "ListRootsRequestParams.default", "LoggingLevel.default", "LoggingMessageNotificationParams.default", "MetaObject.default", "ModelHint.default", "ModelPreferences.default", "NotificationMetaObject.default", "NotificationParams.default", "PaginatedRequestParams.default", "PaginatedResult.default", "ProgressNotificationParams.default", "ProgressToken.default", "RequestId.default", "RequestMetaObject.default", "RequestParams.default", "ResourceUpdatedNotificationParams.default", "Result.default", "ResultMetaObject.default", "ServerCapabilities.default", "ServerCapabilitiesPrompts.default", "ServerCapabilitiesResources.default", "ServerCapabilitiesTools.default", "SubscriptionFilter.default", "SubscriptionsAcknowledgedNotificationParams.default", "ToolAnnotations.default", "ToolChoice.default", "ToolOutputSchema.default", "RequestId.eq", "RequestId.find"];
pub const TYPES: &[&str] = &["Annotations", "AudioContent", "BaseMetadata", "BlobResourceContents", "BooleanSchema", "CacheableResult", "CacheableResultCacheScope", "CallToolRequest", "CallToolRequestParams", "CallToolResult", "CallToolResultResponse", "CallToolResultResponseResult", "CancelledNotification", "CancelledNotificationParams", "ClientCapabilities", "ClientElicitation", "ClientNotification", "ClientRequest", "ClientResult", "ClientSampling", "CompleteRequest", "CompleteRequestArgument", "CompleteRequestContext", "CompleteRequestParams", "CompleteRequestRef", "CompleteResult", "CompleteResultCompletion", "CompleteResultResponse", "ContentBlock", "CreateMessageContent", "CreateMessageRequest", "CreateMessageRequestParams", "CreateMessageResult", "Cursor", "DiscoverRequest", "DiscoverResult", "DiscoverResultCacheScope", "DiscoverResultResponse", "ElicitRequest", "ElicitRequestFormParams", "ElicitRequestFormParamsRequestedSchema", "ElicitRequestParams", "ElicitRequestUrlParams", "ElicitResult", "ElicitResultAction", "ElicitResultContent", "ElicitResultContentPrimitive", "EmbeddedResource", "EmbeddedResourceResource", "EmptyResult", "EnumSchema", "GetPromptRequest", "GetPromptRequestParams", "GetPromptResult", "GetPromptResultResponse", "GetPromptResultResponseResult", "HeaderMismatchError", "Icon", "IconTheme", "Icons", "ImageContent", "Implementation", "IncludeContext", "InputRequest", "InputRequests", "InputRequiredResult", "InputResponse", "InputResponseRequestParams", "InputResponses", "InternalError", "InvalidParamsError", "InvalidRequestError", "JsonArray", "JsonObject", "JsonValue", "JsonValueVariant2", "JsonrpcErrorResponse", "JsonrpcMessage", "JsonrpcNotification", "JsonrpcRequest", "JsonrpcResponse", "JsonrpcResultResponse", "LegacyTitledEnumSchema", "ListPromptsRequest", "ListPromptsResult", "ListPromptsResultCacheScope", "ListPromptsResultResponse", "ListResourceTemplatesRequest", "ListResourceTemplatesResult", "ListResourceTemplatesResultCacheScope", "ListResourceTemplatesResultResponse", "ListResourcesRequest", "ListResourcesResult", "ListResourcesResultCacheScope", "ListResourcesResultResponse", "ListRootsRequest", "ListRootsRequestParams", "ListRootsResult", "ListToolsRequest", "ListToolsResult", "ListToolsResultCacheScope", "ListToolsResultResponse", "LoggingLevel", "LoggingMessageNotification", "LoggingMessageNotificationParams", "MetaObject", "MethodNotFoundError", "MissingRequiredClientCapabilityError", "MissingRequiredClientCapabilityErrorError", "MissingRequiredClientCapabilityErrorErrorData", "ModelHint", "ModelPreferences", "MultiSelectEnumSchema", "Notification", "NotificationMetaObject", "NotificationParams", "NumberSchema", "NumberSchemaType", "PaginatedRequest", "PaginatedRequestParams", "PaginatedResult", "ParseError", "PrimitiveSchemaDefinition", "ProgressNotification", "ProgressNotificationParams", "ProgressToken", "Prompt", "PromptArgument", "PromptListChangedNotification", "PromptMessage", "PromptReference", "ReadResourceContent", "ReadResourceRequest", "ReadResourceRequestParams", "ReadResourceResult", "ReadResourceResultCacheScope", "ReadResourceResultResponse", "ReadResourceResultResponseResult", "Request", "RequestId", "RequestMetaObject", "RequestParams", "Resource", "ResourceContents", "ResourceLink", "ResourceListChangedNotification", "ResourceRequestParams", "ResourceTemplate", "ResourceTemplateReference", "ResourceUpdatedNotification", "ResourceUpdatedNotificationParams", "Result", "ResultMetaObject", "ResultType", "Role", "Root", "RpcError", "SamplingMessage", "SamplingMessageContent", "SamplingMessageContentBlock", "ServerCapabilities", "ServerCapabilitiesPrompts", "ServerCapabilitiesResources", "ServerCapabilitiesTools", "ServerNotification", "ServerResult", "SingleSelectEnumSchema", "StringSchema", "StringSchemaFormat", "SubscriptionFilter", "SubscriptionsAcknowledgedNotification", "SubscriptionsAcknowledgedNotificationParams", "SubscriptionsListenRequest", "SubscriptionsListenRequestParams", "SubscriptionsListenResult", "SubscriptionsListenResultMetaObject", "SubscriptionsListenResultResponse", "TextContent", "TextResourceContents", "TitledMultiSelectEnumSchema", "TitledMultiSelectEnumSchemaItems", "TitledMultiSelectEnumSchemaItemsAnyOfItem", "TitledSingleSelectEnumSchema", "TitledSingleSelectEnumSchemaOneOfItem", "Tool", "ToolAnnotations", "ToolChoice", "ToolChoiceMode", "ToolInputSchema", "ToolListChangedNotification", "ToolOutputSchema", "ToolResultContent", "ToolUseContent", "UnsupportedProtocolVersionError", "UnsupportedProtocolVersionErrorError", "UnsupportedProtocolVersionErrorErrorData", "UntitledMultiSelectEnumSchema", "UntitledMultiSelectEnumSchemaItems", "UntitledSingleSelectEnumSchema", "ClientMessage", "ClientJsonrpcRequest", "RequestFromClient", "ClientJsonrpcNotification", "NotificationFromClient", "ClientJsonrpcResponse", "ResultFromClient", "ServerMessage", "ServerJsonrpcRequest", "CustomRequest", "RequestFromServer", "ServerJsonrpcNotification", "NotificationFromServer", "ServerJsonrpcResponse", "MessageFromServer", "MessageFromClient", "ClientMessages", "ServerMessages", "MessagesFromServer", "MessagesFromClient", "SdkError"];
