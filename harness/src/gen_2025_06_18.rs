// Generated by tools/gen_harness.py. Typed glue for schema version 2025_06_18.
use crate::core::*;
use crate::out;
use rust_mcp_schema::mcp_2025_06_18 as m;
use rust_mcp_schema::mcp_2025_06_18::schema_utils as u;
#[allow(unused_imports)]
use rust_mcp_schema::mcp_2025_06_18::schema_utils::*;
use serde_json::json;
use serde_json::Value as V;

impl View for m::Annotations { fn view(&self) -> V { vs(vec![("audience", self.audience.view()), ("last_modified", self.last_modified.view()), ("priority", self.priority.view())]) } }
impl Build for m::Annotations { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("Annotations", v)); } Ok(m::Annotations { audience: fld(v, "audience")?, last_modified: fld(v, "last_modified")?, priority: fld(v, "priority")? }) } }
impl View for m::AudioContent { fn view(&self) -> V { vs(vec![("annotations", self.annotations.view()), ("data", self.data.view()), ("meta", self.meta.view()), ("mime_type", self.mime_type.view()), ("type_", self.type_().view())]) } }
impl Build for m::AudioContent { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("AudioContent", v)) } }
impl View for m::BaseMetadata { fn view(&self) -> V { vs(vec![("name", self.name.view()), ("title", self.title.view())]) } }
impl Build for m::BaseMetadata { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("BaseMetadata", v)); } Ok(m::BaseMetadata { name: fld(v, "name")?, title: fld(v, "title")? }) } }
impl View for m::BlobResourceContents { fn view(&self) -> V { vs(vec![("blob", self.blob.view()), ("meta", self.meta.view()), ("mime_type", self.mime_type.view()), ("uri", self.uri.view())]) } }
impl Build for m::BlobResourceContents { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("BlobResourceContents", v)); } Ok(m::BlobResourceContents { blob: fld(v, "blob")?, meta: fld(v, "meta")?, mime_type: fld(v, "mime_type")?, uri: fld(v, "uri")? }) } }
impl View for m::BooleanSchema { fn view(&self) -> V { vs(vec![("default", self.default.view()), ("description", self.description.view()), ("title", self.title.view()), ("type_", self.type_().view())]) } }
impl Build for m::BooleanSchema { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("BooleanSchema", v)) } }
impl View for m::CallToolRequest { fn view(&self) -> V { vs(vec![("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::CallToolRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("CallToolRequest", v)) } }
impl View for m::CallToolRequestParams { fn view(&self) -> V { vs(vec![("arguments", self.arguments.view()), ("name", self.name.view())]) } }
impl Build for m::CallToolRequestParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("CallToolRequestParams", v)); } Ok(m::CallToolRequestParams { arguments: fld(v, "arguments")?, name: fld(v, "name")? }) } }
impl View for m::CallToolResult { fn view(&self) -> V { vs(vec![("content", self.content.view()), ("is_error", self.is_error.view()), ("meta", self.meta.view()), ("structured_content", self.structured_content.view())]) } }
impl Build for m::CallToolResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("CallToolResult", v)); } Ok(m::CallToolResult { content: fld(v, "content")?, is_error: fld(v, "is_error")?, meta: fld(v, "meta")?, structured_content: fld(v, "structured_content")? }) } }
impl View for m::CancelledNotification { fn view(&self) -> V { vs(vec![("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::CancelledNotification { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("CancelledNotification", v)) } }
impl View for m::CancelledNotificationParams { fn view(&self) -> V { vs(vec![("reason", self.reason.view()), ("request_id", self.request_id.view())]) } }
impl Build for m::CancelledNotificationParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("CancelledNotificationParams", v)); } Ok(m::CancelledNotificationParams { reason: fld(v, "reason")?, request_id: fld(v, "request_id")? }) } }
impl View for m::ClientCapabilities { fn view(&self) -> V { vs(vec![("elicitation", self.elicitation.view()), ("experimental", self.experimental.view()), ("roots", self.roots.view()), ("sampling", self.sampling.view())]) } }
impl Build for m::ClientCapabilities { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ClientCapabilities", v)); } Ok(m::ClientCapabilities { elicitation: fld(v, "elicitation")?, experimental: fld(v, "experimental")?, roots: fld(v, "roots")?, sampling: fld(v, "sampling")? }) } }
impl View for m::ClientNotification { fn view(&self) -> V { match self { m::ClientNotification::CancelledNotification(x) => json!(["E", "CancelledNotification", x.view()]), m::ClientNotification::InitializedNotification(x) => json!(["E", "InitializedNotification", x.view()]), m::ClientNotification::ProgressNotification(x) => json!(["E", "ProgressNotification", x.view()]), m::ClientNotification::RootsListChangedNotification(x) => json!(["E", "RootsListChangedNotification", x.view()]) } } }
impl Build for m::ClientNotification { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("ClientNotification", v)); } Ok(match v[1].as_str().unwrap_or("") { "CancelledNotification" => m::ClientNotification::CancelledNotification(Build::build(&v[2])?), "InitializedNotification" => m::ClientNotification::InitializedNotification(Build::build(&v[2])?), "ProgressNotification" => m::ClientNotification::ProgressNotification(Build::build(&v[2])?), "RootsListChangedNotification" => m::ClientNotification::RootsListChangedNotification(Build::build(&v[2])?), _ => return Err(bad("ClientNotification", v)) }) } }
impl View for m::ClientRequest { fn view(&self) -> V { match self { m::ClientRequest::InitializeRequest(x) => json!(["E", "InitializeRequest", x.view()]), m::ClientRequest::PingRequest(x) => json!(["E", "PingRequest", x.view()]), m::ClientRequest::ListResourcesRequest(x) => json!(["E", "ListResourcesRequest", x.view()]), m::ClientRequest::ListResourceTemplatesRequest(x) => json!(["E", "ListResourceTemplatesRequest", x.view()]), m::ClientRequest::ReadResourceRequest(x) => json!(["E", "ReadResourceRequest", x.view()]), m::ClientRequest::SubscribeRequest(x) => json!(["E", "SubscribeRequest", x.view()]), m::ClientRequest::UnsubscribeRequest(x) => json!(["E", "UnsubscribeRequest", x.view()]), m::ClientRequest::ListPromptsRequest(x) => json!(["E", "ListPromptsRequest", x.view()]), m::ClientRequest::GetPromptRequest(x) => json!(["E", "GetPromptRequest", x.view()]), m::ClientRequest::ListToolsRequest(x) => json!(["E", "ListToolsRequest", x.view()]), m::ClientRequest::CallToolRequest(x) => json!(["E", "CallToolRequest", x.view()]), m::ClientRequest::SetLevelRequest(x) => json!(["E", "SetLevelRequest", x.view()]), m::ClientRequest::CompleteRequest(x) => json!(["E", "CompleteRequest", x.view()]) } } }
impl Build for m::ClientRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("ClientRequest", v)); } Ok(match v[1].as_str().unwrap_or("") { "InitializeRequest" => m::ClientRequest::InitializeRequest(Build::build(&v[2])?), "PingRequest" => m::ClientRequest::PingRequest(Build::build(&v[2])?), "ListResourcesRequest" => m::ClientRequest::ListResourcesRequest(Build::build(&v[2])?), "ListResourceTemplatesRequest" => m::ClientRequest::ListResourceTemplatesRequest(Build::build(&v[2])?), "ReadResourceRequest" => m::ClientRequest::ReadResourceRequest(Build::build(&v[2])?), "SubscribeRequest" => m::ClientRequest::SubscribeRequest(Build::build(&v[2])?), "UnsubscribeRequest" => m::ClientRequest::UnsubscribeRequest(Build::build(&v[2])?), "ListPromptsRequest" => m::ClientRequest::ListPromptsRequest(Build::build(&v[2])?), "GetPromptRequest" => m::ClientRequest::GetPromptRequest(Build::build(&v[2])?), "ListToolsRequest" => m::ClientRequest::ListToolsRequest(Build::build(&v[2])?), "CallToolRequest" => m::ClientRequest::CallToolRequest(Build::build(&v[2])?), "SetLevelRequest" => m::ClientRequest::SetLevelRequest(Build::build(&v[2])?), "CompleteRequest" => m::ClientRequest::CompleteRequest(Build::build(&v[2])?), _ => return Err(bad("ClientRequest", v)) }) } }
impl View for m::ClientResult { fn view(&self) -> V { match self { m::ClientResult::CreateMessageResult(x) => json!(["E", "CreateMessageResult", x.view()]), m::ClientResult::ListRootsResult(x) => json!(["E", "ListRootsResult", x.view()]), m::ClientResult::ElicitResult(x) => json!(["E", "ElicitResult", x.view()]), m::ClientResult::Result(x) => json!(["E", "Result", x.view()]) } } }
impl Build for m::ClientResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("ClientResult", v)); } Ok(match v[1].as_str().unwrap_or("") { "CreateMessageResult" => m::ClientResult::CreateMessageResult(Build::build(&v[2])?), "ListRootsResult" => m::ClientResult::ListRootsResult(Build::build(&v[2])?), "ElicitResult" => m::ClientResult::ElicitResult(Build::build(&v[2])?), "Result" => m::ClientResult::Result(Build::build(&v[2])?), _ => return Err(bad("ClientResult", v)) }) } }
impl View for m::ClientRoots { fn view(&self) -> V { vs(vec![("list_changed", self.list_changed.view())]) } }
impl Build for m::ClientRoots { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ClientRoots", v)); } Ok(m::ClientRoots { list_changed: fld(v, "list_changed")? }) } }
impl View for m::CompleteRequest { fn view(&self) -> V { vs(vec![("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::CompleteRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("CompleteRequest", v)) } }
impl View for m::CompleteRequestArgument { fn view(&self) -> V { vs(vec![("name", self.name.view()), ("value", self.value.view())]) } }
impl Build for m::CompleteRequestArgument { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("CompleteRequestArgument", v)); } Ok(m::CompleteRequestArgument { name: fld(v, "name")?, value: fld(v, "value")? }) } }
impl View for m::CompleteRequestContext { fn view(&self) -> V { vs(vec![("arguments", self.arguments.view())]) } }
impl Build for m::CompleteRequestContext { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("CompleteRequestContext", v)); } Ok(m::CompleteRequestContext { arguments: fld(v, "arguments")? }) } }
impl View for m::CompleteRequestParams { fn view(&self) -> V { vs(vec![("argument", self.argument.view()), ("context", self.context.view()), ("ref_", self.ref_.view())]) } }
impl Build for m::CompleteRequestParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("CompleteRequestParams", v)); } Ok(m::CompleteRequestParams { argument: fld(v, "argument")?, context: fld(v, "context")?, ref_: fld(v, "ref_")? }) } }
impl View for m::CompleteRequestRef { fn view(&self) -> V { match self { m::CompleteRequestRef::PromptReference(x) => json!(["E", "PromptReference", x.view()]), m::CompleteRequestRef::ResourceTemplateReference(x) => json!(["E", "ResourceTemplateReference", x.view()]) } } }
impl Build for m::CompleteRequestRef { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("CompleteRequestRef", v)); } Ok(match v[1].as_str().unwrap_or("") { "PromptReference" => m::CompleteRequestRef::PromptReference(Build::build(&v[2])?), "ResourceTemplateReference" => m::CompleteRequestRef::ResourceTemplateReference(Build::build(&v[2])?), _ => return Err(bad("CompleteRequestRef", v)) }) } }
impl View for m::CompleteResult { fn view(&self) -> V { vs(vec![("completion", self.completion.view()), ("meta", self.meta.view())]) } }
impl Build for m::CompleteResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("CompleteResult", v)); } Ok(m::CompleteResult { completion: fld(v, "completion")?, meta: fld(v, "meta")? }) } }
impl View for m::CompleteResultCompletion { fn view(&self) -> V { vs(vec![("has_more", self.has_more.view()), ("total", self.total.view()), ("values", self.values.view())]) } }
impl Build for m::CompleteResultCompletion { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("CompleteResultCompletion", v)); } Ok(m::CompleteResultCompletion { has_more: fld(v, "has_more")?, total: fld(v, "total")?, values: fld(v, "values")? }) } }
impl View for m::ContentBlock { fn view(&self) -> V { match self { m::ContentBlock::TextContent(x) => json!(["E", "TextContent", x.view()]), m::ContentBlock::ImageContent(x) => json!(["E", "ImageContent", x.view()]), m::ContentBlock::AudioContent(x) => json!(["E", "AudioContent", x.view()]), m::ContentBlock::ResourceLink(x) => json!(["E", "ResourceLink", x.view()]), m::ContentBlock::EmbeddedResource(x) => json!(["E", "EmbeddedResource", x.view()]) } } }
impl Build for m::ContentBlock { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("ContentBlock", v)); } Ok(match v[1].as_str().unwrap_or("") { "TextContent" => m::ContentBlock::TextContent(Build::build(&v[2])?), "ImageContent" => m::ContentBlock::ImageContent(Build::build(&v[2])?), "AudioContent" => m::ContentBlock::AudioContent(Build::build(&v[2])?), "ResourceLink" => m::ContentBlock::ResourceLink(Build::build(&v[2])?), "EmbeddedResource" => m::ContentBlock::EmbeddedResource(Build::build(&v[2])?), _ => return Err(bad("ContentBlock", v)) }) } }
impl View for m::CreateMessageContent { fn view(&self) -> V { match self { m::CreateMessageContent::TextContent(x) => json!(["E", "TextContent", x.view()]), m::CreateMessageContent::ImageContent(x) => json!(["E", "ImageContent", x.view()]), m::CreateMessageContent::AudioContent(x) => json!(["E", "AudioContent", x.view()]) } } }
impl Build for m::CreateMessageContent { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("CreateMessageContent", v)); } Ok(match v[1].as_str().unwrap_or("") { "TextContent" => m::CreateMessageContent::TextContent(Build::build(&v[2])?), "ImageContent" => m::CreateMessageContent::ImageContent(Build::build(&v[2])?), "AudioContent" => m::CreateMessageContent::AudioContent(Build::build(&v[2])?), _ => return Err(bad("CreateMessageContent", v)) }) } }
impl View for m::CreateMessageRequest { fn view(&self) -> V { vs(vec![("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::CreateMessageRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("CreateMessageRequest", v)) } }
impl View for m::CreateMessageRequestParams { fn view(&self) -> V { vs(vec![("include_context", self.include_context.view()), ("max_tokens", self.max_tokens.view()), ("messages", self.messages.view()), ("metadata", self.metadata.view()), ("model_preferences", self.model_preferences.view()), ("stop_sequences", self.stop_sequences.view()), ("system_prompt", self.system_prompt.view()), ("temperature", self.temperature.view())]) } }
impl Build for m::CreateMessageRequestParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("CreateMessageRequestParams", v)); } Ok(m::CreateMessageRequestParams { include_context: fld(v, "include_context")?, max_tokens: fld(v, "max_tokens")?, messages: fld(v, "messages")?, metadata: fld(v, "metadata")?, model_preferences: fld(v, "model_preferences")?, stop_sequences: fld(v, "stop_sequences")?, system_prompt: fld(v, "system_prompt")?, temperature: fld(v, "temperature")? }) } }
impl View for m::CreateMessageResult { fn view(&self) -> V { vs(vec![("content", self.content.view()), ("meta", self.meta.view()), ("model", self.model.view()), ("role", self.role.view()), ("stop_reason", self.stop_reason.view())]) } }
impl Build for m::CreateMessageResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("CreateMessageResult", v)); } Ok(m::CreateMessageResult { content: fld(v, "content")?, meta: fld(v, "meta")?, model: fld(v, "model")?, role: fld(v, "role")?, stop_reason: fld(v, "stop_reason")? }) } }
impl View for m::Cursor { fn view(&self) -> V { self.0.view() } }
impl Build for m::Cursor { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Ok(m::Cursor(Build::build(v)?)) } }
impl View for m::ElicitRequest { fn view(&self) -> V { vs(vec![("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::ElicitRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ElicitRequest", v)) } }
impl View for m::ElicitRequestParams { fn view(&self) -> V { vs(vec![("message", self.message.view()), ("requested_schema", self.requested_schema.view())]) } }
impl Build for m::ElicitRequestParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ElicitRequestParams", v)); } Ok(m::ElicitRequestParams { message: fld(v, "message")?, requested_schema: fld(v, "requested_schema")? }) } }
impl View for m::ElicitRequestedSchema { fn view(&self) -> V { vs(vec![("properties", self.properties.view()), ("required", self.required.view()), ("type_", self.type_().view())]) } }
impl Build for m::ElicitRequestedSchema { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ElicitRequestedSchema", v)) } }
impl View for m::ElicitResult { fn view(&self) -> V { vs(vec![("action", self.action.view()), ("content", self.content.view()), ("meta", self.meta.view())]) } }
impl Build for m::ElicitResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ElicitResult", v)); } Ok(m::ElicitResult { action: fld(v, "action")?, content: fld(v, "content")?, meta: fld(v, "meta")? }) } }
impl View for m::ElicitResultAction { fn view(&self) -> V { json!(["U", match self { m::ElicitResultAction::Accept => "Accept", m::ElicitResultAction::Cancel => "Cancel", m::ElicitResultAction::Decline => "Decline" }]) } }
impl Build for m::ElicitResultAction { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Ok(match v[1].as_str().unwrap_or("") { "Accept" => m::ElicitResultAction::Accept, "Cancel" => m::ElicitResultAction::Cancel, "Decline" => m::ElicitResultAction::Decline, _ => return Err(bad("ElicitResultAction", v)) }) } }
impl View for m::ElicitResultContent { fn view(&self) -> V { match self { m::ElicitResultContent::Boolean(x) => json!(["E", "Boolean", x.view()]), m::ElicitResultContent::String(x) => json!(["E", "String", x.view()]), m::ElicitResultContent::Integer(x) => json!(["E", "Integer", x.view()]) } } }
impl Build for m::ElicitResultContent { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("ElicitResultContent", v)); } Ok(match v[1].as_str().unwrap_or("") { "Boolean" => m::ElicitResultContent::Boolean(Build::build(&v[2])?), "String" => m::ElicitResultContent::String(Build::build(&v[2])?), "Integer" => m::ElicitResultContent::Integer(Build::build(&v[2])?), _ => return Err(bad("ElicitResultContent", v)) }) } }
impl View for m::EmbeddedResource { fn view(&self) -> V { vs(vec![("annotations", self.annotations.view()), ("meta", self.meta.view()), ("resource", self.resource.view()), ("type_", self.type_().view())]) } }
impl Build for m::EmbeddedResource { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("EmbeddedResource", v)) } }
impl View for m::EmbeddedResourceResource { fn view(&self) -> V { match self { m::EmbeddedResourceResource::TextResourceContents(x) => json!(["E", "TextResourceContents", x.view()]), m::EmbeddedResourceResource::BlobResourceContents(x) => json!(["E", "BlobResourceContents", x.view()]) } } }
impl Build for m::EmbeddedResourceResource { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("EmbeddedResourceResource", v)); } Ok(match v[1].as_str().unwrap_or("") { "TextResourceContents" => m::EmbeddedResourceResource::TextResourceContents(Build::build(&v[2])?), "BlobResourceContents" => m::EmbeddedResourceResource::BlobResourceContents(Build::build(&v[2])?), _ => return Err(bad("EmbeddedResourceResource", v)) }) } }
impl View for m::EmptyResult { fn view(&self) -> V { self.0.view() } }
impl Build for m::EmptyResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Ok(m::EmptyResult(Build::build(v)?)) } }
impl View for m::EnumSchema { fn view(&self) -> V { vs(vec![("description", self.description.view()), ("enum_", self.enum_.view()), ("enum_names", self.enum_names.view()), ("title", self.title.view()), ("type_", self.type_().view())]) } }
impl Build for m::EnumSchema { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("EnumSchema", v)) } }
impl View for m::GetPromptRequest { fn view(&self) -> V { vs(vec![("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::GetPromptRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("GetPromptRequest", v)) } }
impl View for m::GetPromptRequestParams { fn view(&self) -> V { vs(vec![("arguments", self.arguments.view()), ("name", self.name.view())]) } }
impl Build for m::GetPromptRequestParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("GetPromptRequestParams", v)); } Ok(m::GetPromptRequestParams { arguments: fld(v, "arguments")?, name: fld(v, "name")? }) } }
impl View for m::GetPromptResult { fn view(&self) -> V { vs(vec![("description", self.description.view()), ("messages", self.messages.view()), ("meta", self.meta.view())]) } }
impl Build for m::GetPromptResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("GetPromptResult", v)); } Ok(m::GetPromptResult { description: fld(v, "description")?, messages: fld(v, "messages")?, meta: fld(v, "meta")? }) } }
impl View for m::ImageContent { fn view(&self) -> V { vs(vec![("annotations", self.annotations.view()), ("data", self.data.view()), ("meta", self.meta.view()), ("mime_type", self.mime_type.view()), ("type_", self.type_().view())]) } }
impl Build for m::ImageContent { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ImageContent", v)) } }
impl View for m::Implementation { fn view(&self) -> V { vs(vec![("name", self.name.view()), ("title", self.title.view()), ("version", self.version.view())]) } }
impl Build for m::Implementation { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("Implementation", v)); } Ok(m::Implementation { name: fld(v, "name")?, title: fld(v, "title")?, version: fld(v, "version")? }) } }
impl View for m::IncludeContext { fn view(&self) -> V { json!(["U", match self { m::IncludeContext::AllServers => "AllServers", m::IncludeContext::None => "None", m::IncludeContext::ThisServer => "ThisServer" }]) } }
impl Build for m::IncludeContext { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Ok(match v[1].as_str().unwrap_or("") { "AllServers" => m::IncludeContext::AllServers, "None" => m::IncludeContext::None, "ThisServer" => m::IncludeContext::ThisServer, _ => return Err(bad("IncludeContext", v)) }) } }
impl View for m::InitializeRequest { fn view(&self) -> V { vs(vec![("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::InitializeRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("InitializeRequest", v)) } }
impl View for m::InitializeRequestParams { fn view(&self) -> V { vs(vec![("capabilities", self.capabilities.view()), ("client_info", self.client_info.view()), ("protocol_version", self.protocol_version.view())]) } }
impl Build for m::InitializeRequestParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("InitializeRequestParams", v)); } Ok(m::InitializeRequestParams { capabilities: fld(v, "capabilities")?, client_info: fld(v, "client_info")?, protocol_version: fld(v, "protocol_version")? }) } }
impl View for m::InitializeResult { fn view(&self) -> V { vs(vec![("capabilities", self.capabilities.view()), ("instructions", self.instructions.view()), ("meta", self.meta.view()), ("protocol_version", self.protocol_version.view()), ("server_info", self.server_info.view())]) } }
impl Build for m::InitializeResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("InitializeResult", v)); } Ok(m::InitializeResult { capabilities: fld(v, "capabilities")?, instructions: fld(v, "instructions")?, meta: fld(v, "meta")?, protocol_version: fld(v, "protocol_version")?, server_info: fld(v, "server_info")? }) } }
impl View for m::InitializedNotification { fn view(&self) -> V { vs(vec![("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::InitializedNotification { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("InitializedNotification", v)) } }
impl View for m::InitializedNotificationParams { fn view(&self) -> V { vs(vec![("meta", self.meta.view()), ("extra", self.extra.view())]) } }
impl Build for m::InitializedNotificationParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("InitializedNotificationParams", v)); } Ok(m::InitializedNotificationParams { meta: fld(v, "meta")?, extra: fld(v, "extra")? }) } }
impl View for m::JsonrpcError { fn view(&self) -> V { vs(vec![("error", self.error.view()), ("id", self.id.view()), ("jsonrpc", self.jsonrpc().view())]) } }
impl Build for m::JsonrpcError { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("JsonrpcError", v)) } }
impl View for m::JsonrpcMessage { fn view(&self) -> V { match self { m::JsonrpcMessage::Request(x) => json!(["E", "Request", x.view()]), m::JsonrpcMessage::Notification(x) => json!(["E", "Notification", x.view()]), m::JsonrpcMessage::Response(x) => json!(["E", "Response", x.view()]), m::JsonrpcMessage::Error(x) => json!(["E", "Error", x.view()]) } } }
impl Build for m::JsonrpcMessage { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("JsonrpcMessage", v)); } Ok(match v[1].as_str().unwrap_or("") { "Request" => m::JsonrpcMessage::Request(Build::build(&v[2])?), "Notification" => m::JsonrpcMessage::Notification(Build::build(&v[2])?), "Response" => m::JsonrpcMessage::Response(Build::build(&v[2])?), "Error" => m::JsonrpcMessage::Error(Build::build(&v[2])?), _ => return Err(bad("JsonrpcMessage", v)) }) } }
impl View for m::JsonrpcNotification { fn view(&self) -> V { vs(vec![("jsonrpc", self.jsonrpc().view()), ("method", self.method.view()), ("params", self.params.view())]) } }
impl Build for m::JsonrpcNotification { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("JsonrpcNotification", v)) } }
impl View for m::JsonrpcNotificationParams { fn view(&self) -> V { vs(vec![("meta", self.meta.view()), ("extra", self.extra.view())]) } }
impl Build for m::JsonrpcNotificationParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("JsonrpcNotificationParams", v)); } Ok(m::JsonrpcNotificationParams { meta: fld(v, "meta")?, extra: fld(v, "extra")? }) } }
impl View for m::JsonrpcRequest { fn view(&self) -> V { vs(vec![("id", self.id.view()), ("jsonrpc", self.jsonrpc().view()), ("method", self.method.view()), ("params", self.params.view())]) } }
impl Build for m::JsonrpcRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("JsonrpcRequest", v)) } }
impl View for m::JsonrpcRequestParams { fn view(&self) -> V { vs(vec![("meta", self.meta.view()), ("extra", self.extra.view())]) } }
impl Build for m::JsonrpcRequestParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("JsonrpcRequestParams", v)); } Ok(m::JsonrpcRequestParams { meta: fld(v, "meta")?, extra: fld(v, "extra")? }) } }
impl View for m::JsonrpcRequestParamsMeta { fn view(&self) -> V { vs(vec![("progress_token", self.progress_token.view()), ("extra", self.extra.view())]) } }
impl Build for m::JsonrpcRequestParamsMeta { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("JsonrpcRequestParamsMeta", v)); } Ok(m::JsonrpcRequestParamsMeta { progress_token: fld(v, "progress_token")?, extra: fld(v, "extra")? }) } }
impl View for m::JsonrpcResponse { fn view(&self) -> V { vs(vec![("id", self.id.view()), ("jsonrpc", self.jsonrpc().view()), ("result", self.result.view())]) } }
impl Build for m::JsonrpcResponse { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("JsonrpcResponse", v)) } }
impl View for m::ListPromptsRequest { fn view(&self) -> V { vs(vec![("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::ListPromptsRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ListPromptsRequest", v)) } }
impl View for m::ListPromptsRequestParams { fn view(&self) -> V { vs(vec![("cursor", self.cursor.view())]) } }
impl Build for m::ListPromptsRequestParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ListPromptsRequestParams", v)); } Ok(m::ListPromptsRequestParams { cursor: fld(v, "cursor")? }) } }
impl View for m::ListPromptsResult { fn view(&self) -> V { vs(vec![("meta", self.meta.view()), ("next_cursor", self.next_cursor.view()), ("prompts", self.prompts.view())]) } }
impl Build for m::ListPromptsResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ListPromptsResult", v)); } Ok(m::ListPromptsResult { meta: fld(v, "meta")?, next_cursor: fld(v, "next_cursor")?, prompts: fld(v, "prompts")? }) } }
impl View for m::ListResourceTemplatesRequest { fn view(&self) -> V { vs(vec![("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::ListResourceTemplatesRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ListResourceTemplatesRequest", v)) } }
impl View for m::ListResourceTemplatesRequestParams { fn view(&self) -> V { vs(vec![("cursor", self.cursor.view())]) } }
impl Build for m::ListResourceTemplatesRequestParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ListResourceTemplatesRequestParams", v)); } Ok(m::ListResourceTemplatesRequestParams { cursor: fld(v, "cursor")? }) } }
impl View for m::ListResourceTemplatesResult { fn view(&self) -> V { vs(vec![("meta", self.meta.view()), ("next_cursor", self.next_cursor.view()), ("resource_templates", self.resource_templates.view())]) } }
impl Build for m::ListResourceTemplatesResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ListResourceTemplatesResult", v)); } Ok(m::ListResourceTemplatesResult { meta: fld(v, "meta")?, next_cursor: fld(v, "next_cursor")?, resource_templates: fld(v, "resource_templates")? }) } }
impl View for m::ListResourcesRequest { fn view(&self) -> V { vs(vec![("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::ListResourcesRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ListResourcesRequest", v)) } }
impl View for m::ListResourcesRequestParams { fn view(&self) -> V { vs(vec![("cursor", self.cursor.view())]) } }
impl Build for m::ListResourcesRequestParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ListResourcesRequestParams", v)); } Ok(m::ListResourcesRequestParams { cursor: fld(v, "cursor")? }) } }
impl View for m::ListResourcesResult { fn view(&self) -> V { vs(vec![("meta", self.meta.view()), ("next_cursor", self.next_cursor.view()), ("resources", self.resources.view())]) } }
impl Build for m::ListResourcesResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ListResourcesResult", v)); } Ok(m::ListResourcesResult { meta: fld(v, "meta")?, next_cursor: fld(v, "next_cursor")?, resources: fld(v, "resources")? }) } }
impl View for m::ListRootsRequest { fn view(&self) -> V { vs(vec![("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::ListRootsRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ListRootsRequest", v)) } }
impl View for m::ListRootsRequestParams { fn view(&self) -> V { vs(vec![("meta", self.meta.view()), ("extra", self.extra.view())]) } }
impl Build for m::ListRootsRequestParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ListRootsRequestParams", v)); } Ok(m::ListRootsRequestParams { meta: fld(v, "meta")?, extra: fld(v, "extra")? }) } }
impl View for m::ListRootsRequestParamsMeta { fn view(&self) -> V { vs(vec![("progress_token", self.progress_token.view()), ("extra", self.extra.view())]) } }
impl Build for m::ListRootsRequestParamsMeta { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ListRootsRequestParamsMeta", v)); } Ok(m::ListRootsRequestParamsMeta { progress_token: fld(v, "progress_token")?, extra: fld(v, "extra")? }) } }
impl View for m::ListRootsResult { fn view(&self) -> V { vs(vec![("meta", self.meta.view()), ("roots", self.roots.view())]) } }
impl Build for m::ListRootsResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ListRootsResult", v)); } Ok(m::ListRootsResult { meta: fld(v, "meta")?, roots: fld(v, "roots")? }) } }
impl View for m::ListToolsRequest { fn view(&self) -> V { vs(vec![("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::ListToolsRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ListToolsRequest", v)) } }
impl View for m::ListToolsRequestParams { fn view(&self) -> V { vs(vec![("cursor", self.cursor.view())]) } }
impl Build for m::ListToolsRequestParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ListToolsRequestParams", v)); } Ok(m::ListToolsRequestParams { cursor: fld(v, "cursor")? }) } }
impl View for m::ListToolsResult { fn view(&self) -> V { vs(vec![("meta", self.meta.view()), ("next_cursor", self.next_cursor.view()), ("tools", self.tools.view())]) } }
impl Build for m::ListToolsResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ListToolsResult", v)); } Ok(m::ListToolsResult { meta: fld(v, "meta")?, next_cursor: fld(v, "next_cursor")?, tools: fld(v, "tools")? }) } }
impl View for m::LoggingLevel { fn view(&self) -> V { json!(["U", match self { m::LoggingLevel::Alert => "Alert", m::LoggingLevel::Critical => "Critical", m::LoggingLevel::Debug => "Debug", m::LoggingLevel::Emergency => "Emergency", m::LoggingLevel::Error => "Error", m::LoggingLevel::Info => "Info", m::LoggingLevel::Notice => "Notice", m::LoggingLevel::Warning => "Warning" }]) } }
impl Build for m::LoggingLevel { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Ok(match v[1].as_str().unwrap_or("") { "Alert" => m::LoggingLevel::Alert, "Critical" => m::LoggingLevel::Critical, "Debug" => m::LoggingLevel::Debug, "Emergency" => m::LoggingLevel::Emergency, "Error" => m::LoggingLevel::Error, "Info" => m::LoggingLevel::Info, "Notice" => m::LoggingLevel::Notice, "Warning" => m::LoggingLevel::Warning, _ => return Err(bad("LoggingLevel", v)) }) } }
impl View for m::LoggingMessageNotification { fn view(&self) -> V { vs(vec![("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::LoggingMessageNotification { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("LoggingMessageNotification", v)) } }
impl View for m::LoggingMessageNotificationParams { fn view(&self) -> V { vs(vec![("data", self.data.view()), ("level", self.level.view()), ("logger", self.logger.view())]) } }
impl Build for m::LoggingMessageNotificationParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("LoggingMessageNotificationParams", v)); } Ok(m::LoggingMessageNotificationParams { data: fld(v, "data")?, level: fld(v, "level")?, logger: fld(v, "logger")? }) } }
impl View for m::ModelHint { fn view(&self) -> V { vs(vec![("name", self.name.view())]) } }
impl Build for m::ModelHint { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ModelHint", v)); } Ok(m::ModelHint { name: fld(v, "name")? }) } }
impl View for m::ModelPreferences { fn view(&self) -> V { vs(vec![("cost_priority", self.cost_priority.view()), ("hints", self.hints.view()), ("intelligence_priority", self.intelligence_priority.view()), ("speed_priority", self.speed_priority.view())]) } }
impl Build for m::ModelPreferences { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ModelPreferences", v)); } Ok(m::ModelPreferences { cost_priority: fld(v, "cost_priority")?, hints: fld(v, "hints")?, intelligence_priority: fld(v, "intelligence_priority")?, speed_priority: fld(v, "speed_priority")? }) } }
impl View for m::Notification { fn view(&self) -> V { vs(vec![("method", self.method.view()), ("params", self.params.view())]) } }
impl Build for m::Notification { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("Notification", v)); } Ok(m::Notification { method: fld(v, "method")?, params: fld(v, "params")? }) } }
impl View for m::NotificationParams { fn view(&self) -> V { vs(vec![("meta", self.meta.view()), ("extra", self.extra.view())]) } }
impl Build for m::NotificationParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("NotificationParams", v)); } Ok(m::NotificationParams { meta: fld(v, "meta")?, extra: fld(v, "extra")? }) } }
impl View for m::NumberSchema { fn view(&self) -> V { vs(vec![("description", self.description.view()), ("maximum", self.maximum.view()), ("minimum", self.minimum.view()), ("title", self.title.view()), ("type_", self.type_.view())]) } }
impl Build for m::NumberSchema { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("NumberSchema", v)); } Ok(m::NumberSchema { description: fld(v, "description")?, maximum: fld(v, "maximum")?, minimum: fld(v, "minimum")?, title: fld(v, "title")?, type_: fld(v, "type_")? }) } }
impl View for m::NumberSchemaType { fn view(&self) -> V { json!(["U", match self { m::NumberSchemaType::Integer => "Integer", m::NumberSchemaType::Number => "Number" }]) } }
impl Build for m::NumberSchemaType { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Ok(match v[1].as_str().unwrap_or("") { "Integer" => m::NumberSchemaType::Integer, "Number" => m::NumberSchemaType::Number, _ => return Err(bad("NumberSchemaType", v)) }) } }
impl View for m::PaginatedRequest { fn view(&self) -> V { vs(vec![("method", self.method.view()), ("params", self.params.view())]) } }
impl Build for m::PaginatedRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("PaginatedRequest", v)); } Ok(m::PaginatedRequest { method: fld(v, "method")?, params: fld(v, "params")? }) } }
impl View for m::PaginatedRequestParams { fn view(&self) -> V { vs(vec![("cursor", self.cursor.view())]) } }
impl Build for m::PaginatedRequestParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("PaginatedRequestParams", v)); } Ok(m::PaginatedRequestParams { cursor: fld(v, "cursor")? }) } }
impl View for m::PaginatedResult { fn view(&self) -> V { vs(vec![("meta", self.meta.view()), ("next_cursor", self.next_cursor.view())]) } }
impl Build for m::PaginatedResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("PaginatedResult", v)); } Ok(m::PaginatedResult { meta: fld(v, "meta")?, next_cursor: fld(v, "next_cursor")? }) } }
impl View for m::PingRequest { fn view(&self) -> V { vs(vec![("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::PingRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("PingRequest", v)) } }
impl View for m::PingRequestParams { fn view(&self) -> V { vs(vec![("meta", self.meta.view()), ("extra", self.extra.view())]) } }
impl Build for m::PingRequestParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("PingRequestParams", v)); } Ok(m::PingRequestParams { meta: fld(v, "meta")?, extra: fld(v, "extra")? }) } }
impl View for m::PingRequestParamsMeta { fn view(&self) -> V { vs(vec![("progress_token", self.progress_token.view()), ("extra", self.extra.view())]) } }
impl Build for m::PingRequestParamsMeta { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("PingRequestParamsMeta", v)); } Ok(m::PingRequestParamsMeta { progress_token: fld(v, "progress_token")?, extra: fld(v, "extra")? }) } }
impl View for m::PrimitiveSchemaDefinition { fn view(&self) -> V { match self { m::PrimitiveSchemaDefinition::EnumSchema(x) => json!(["E", "EnumSchema", x.view()]), m::PrimitiveSchemaDefinition::StringSchema(x) => json!(["E", "StringSchema", x.view()]), m::PrimitiveSchemaDefinition::NumberSchema(x) => json!(["E", "NumberSchema", x.view()]), m::PrimitiveSchemaDefinition::BooleanSchema(x) => json!(["E", "BooleanSchema", x.view()]) } } }
impl Build for m::PrimitiveSchemaDefinition { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("PrimitiveSchemaDefinition", v)); } Ok(match v[1].as_str().unwrap_or("") { "EnumSchema" => m::PrimitiveSchemaDefinition::EnumSchema(Build::build(&v[2])?), "StringSchema" => m::PrimitiveSchemaDefinition::StringSchema(Build::build(&v[2])?), "NumberSchema" => m::PrimitiveSchemaDefinition::NumberSchema(Build::build(&v[2])?), "BooleanSchema" => m::PrimitiveSchemaDefinition::BooleanSchema(Build::build(&v[2])?), _ => return Err(bad("PrimitiveSchemaDefinition", v)) }) } }
impl View for m::ProgressNotification { fn view(&self) -> V { vs(vec![("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::ProgressNotification { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ProgressNotification", v)) } }
impl View for m::ProgressNotificationParams { fn view(&self) -> V { vs(vec![("message", self.message.view()), ("progress", self.progress.view()), ("progress_token", self.progress_token.view()), ("total", self.total.view())]) } }
impl Build for m::ProgressNotificationParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ProgressNotificationParams", v)); } Ok(m::ProgressNotificationParams { message: fld(v, "message")?, progress: fld(v, "progress")?, progress_token: fld(v, "progress_token")?, total: fld(v, "total")? }) } }
impl View for m::ProgressToken { fn view(&self) -> V { match self { m::ProgressToken::String(x) => json!(["E", "String", x.view()]), m::ProgressToken::Integer(x) => json!(["E", "Integer", x.view()]) } } }
impl Build for m::ProgressToken { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("ProgressToken", v)); } Ok(match v[1].as_str().unwrap_or("") { "String" => m::ProgressToken::String(Build::build(&v[2])?), "Integer" => m::ProgressToken::Integer(Build::build(&v[2])?), _ => return Err(bad("ProgressToken", v)) }) } }
impl View for m::Prompt { fn view(&self) -> V { vs(vec![("arguments", self.arguments.view()), ("description", self.description.view()), ("meta", self.meta.view()), ("name", self.name.view()), ("title", self.title.view())]) } }
impl Build for m::Prompt { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("Prompt", v)); } Ok(m::Prompt { arguments: fld(v, "arguments")?, description: fld(v, "description")?, meta: fld(v, "meta")?, name: fld(v, "name")?, title: fld(v, "title")? }) } }
impl View for m::PromptArgument { fn view(&self) -> V { vs(vec![("description", self.description.view()), ("name", self.name.view()), ("required", self.required.view()), ("title", self.title.view())]) } }
impl Build for m::PromptArgument { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("PromptArgument", v)); } Ok(m::PromptArgument { description: fld(v, "description")?, name: fld(v, "name")?, required: fld(v, "required")?, title: fld(v, "title")? }) } }
impl View for m::PromptListChangedNotification { fn view(&self) -> V { vs(vec![("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::PromptListChangedNotification { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("PromptListChangedNotification", v)) } }
impl View for m::PromptListChangedNotificationParams { fn view(&self) -> V { vs(vec![("meta", self.meta.view()), ("extra", self.extra.view())]) } }
impl Build for m::PromptListChangedNotificationParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("PromptListChangedNotificationParams", v)); } Ok(m::PromptListChangedNotificationParams { meta: fld(v, "meta")?, extra: fld(v, "extra")? }) } }
impl View for m::PromptMessage { fn view(&self) -> V { vs(vec![("content", self.content.view()), ("role", self.role.view())]) } }
impl Build for m::PromptMessage { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("PromptMessage", v)); } Ok(m::PromptMessage { content: fld(v, "content")?, role: fld(v, "role")? }) } }
impl View for m::PromptReference { fn view(&self) -> V { vs(vec![("name", self.name.view()), ("title", self.title.view()), ("type_", self.type_().view())]) } }
impl Build for m::PromptReference { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("PromptReference", v)) } }
impl View for m::ReadResourceContent { fn view(&self) -> V { match self { m::ReadResourceContent::TextResourceContents(x) => json!(["E", "TextResourceContents", x.view()]), m::ReadResourceContent::BlobResourceContents(x) => json!(["E", "BlobResourceContents", x.view()]) } } }
impl Build for m::ReadResourceContent { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("ReadResourceContent", v)); } Ok(match v[1].as_str().unwrap_or("") { "TextResourceContents" => m::ReadResourceContent::TextResourceContents(Build::build(&v[2])?), "BlobResourceContents" => m::ReadResourceContent::BlobResourceContents(Build::build(&v[2])?), _ => return Err(bad("ReadResourceContent", v)) }) } }
impl View for m::ReadResourceRequest { fn view(&self) -> V { vs(vec![("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::ReadResourceRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ReadResourceRequest", v)) } }
impl View for m::ReadResourceRequestParams { fn view(&self) -> V { vs(vec![("uri", self.uri.view())]) } }
impl Build for m::ReadResourceRequestParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ReadResourceRequestParams", v)); } Ok(m::ReadResourceRequestParams { uri: fld(v, "uri")? }) } }
impl View for m::ReadResourceResult { fn view(&self) -> V { vs(vec![("contents", self.contents.view()), ("meta", self.meta.view())]) } }
impl Build for m::ReadResourceResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ReadResourceResult", v)); } Ok(m::ReadResourceResult { contents: fld(v, "contents")?, meta: fld(v, "meta")? }) } }
impl View for m::Request { fn view(&self) -> V { vs(vec![("method", self.method.view()), ("params", self.params.view())]) } }
impl Build for m::Request { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("Request", v)); } Ok(m::Request { method: fld(v, "method")?, params: fld(v, "params")? }) } }
impl View for m::RequestId { fn view(&self) -> V { match self { m::RequestId::String(x) => json!(["E", "String", x.view()]), m::RequestId::Integer(x) => json!(["E", "Integer", x.view()]) } } }
impl Build for m::RequestId { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("RequestId", v)); } Ok(match v[1].as_str().unwrap_or("") { "String" => m::RequestId::String(Build::build(&v[2])?), "Integer" => m::RequestId::Integer(Build::build(&v[2])?), _ => return Err(bad("RequestId", v)) }) } }
impl View for m::RequestParams { fn view(&self) -> V { vs(vec![("meta", self.meta.view()), ("extra", self.extra.view())]) } }
impl Build for m::RequestParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("RequestParams", v)); } Ok(m::RequestParams { meta: fld(v, "meta")?, extra: fld(v, "extra")? }) } }
impl View for m::RequestParamsMeta { fn view(&self) -> V { vs(vec![("progress_token", self.progress_token.view()), ("extra", self.extra.view())]) } }
impl Build for m::RequestParamsMeta { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("RequestParamsMeta", v)); } Ok(m::RequestParamsMeta { progress_token: fld(v, "progress_token")?, extra: fld(v, "extra")? }) } }
impl View for m::Resource { fn view(&self) -> V { vs(vec![("annotations", self.annotations.view()), ("description", self.description.view()), ("meta", self.meta.view()), ("mime_type", self.mime_type.view()), ("name", self.name.view()), ("size", self.size.view()), ("title", self.title.view()), ("uri", self.uri.view())]) } }
impl Build for m::Resource { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("Resource", v)); } Ok(m::Resource { annotations: fld(v, "annotations")?, description: fld(v, "description")?, meta: fld(v, "meta")?, mime_type: fld(v, "mime_type")?, name: fld(v, "name")?, size: fld(v, "size")?, title: fld(v, "title")?, uri: fld(v, "uri")? }) } }
impl View for m::ResourceContents { fn view(&self) -> V { vs(vec![("meta", self.meta.view()), ("mime_type", self.mime_type.view()), ("uri", self.uri.view())]) } }
impl Build for m::ResourceContents { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ResourceContents", v)); } Ok(m::ResourceContents { meta: fld(v, "meta")?, mime_type: fld(v, "mime_type")?, uri: fld(v, "uri")? }) } }
impl View for m::ResourceLink { fn view(&self) -> V { vs(vec![("annotations", self.annotations.view()), ("description", self.description.view()), ("meta", self.meta.view()), ("mime_type", self.mime_type.view()), ("name", self.name.view()), ("size", self.size.view()), ("title", self.title.view()), ("type_", self.type_().view()), ("uri", self.uri.view())]) } }
impl Build for m::ResourceLink { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ResourceLink", v)) } }
impl View for m::ResourceListChangedNotification { fn view(&self) -> V { vs(vec![("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::ResourceListChangedNotification { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ResourceListChangedNotification", v)) } }
impl View for m::ResourceListChangedNotificationParams { fn view(&self) -> V { vs(vec![("meta", self.meta.view()), ("extra", self.extra.view())]) } }
impl Build for m::ResourceListChangedNotificationParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ResourceListChangedNotificationParams", v)); } Ok(m::ResourceListChangedNotificationParams { meta: fld(v, "meta")?, extra: fld(v, "extra")? }) } }
impl View for m::ResourceTemplate { fn view(&self) -> V { vs(vec![("annotations", self.annotations.view()), ("description", self.description.view()), ("meta", self.meta.view()), ("mime_type", self.mime_type.view()), ("name", self.name.view()), ("title", self.title.view()), ("uri_template", self.uri_template.view())]) } }
impl Build for m::ResourceTemplate { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ResourceTemplate", v)); } Ok(m::ResourceTemplate { annotations: fld(v, "annotations")?, description: fld(v, "description")?, meta: fld(v, "meta")?, mime_type: fld(v, "mime_type")?, name: fld(v, "name")?, title: fld(v, "title")?, uri_template: fld(v, "uri_template")? }) } }
impl View for m::ResourceTemplateReference { fn view(&self) -> V { vs(vec![("type_", self.type_().view()), ("uri", self.uri.view())]) } }
impl Build for m::ResourceTemplateReference { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ResourceTemplateReference", v)) } }
impl View for m::ResourceUpdatedNotification { fn view(&self) -> V { vs(vec![("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::ResourceUpdatedNotification { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ResourceUpdatedNotification", v)) } }
impl View for m::ResourceUpdatedNotificationParams { fn view(&self) -> V { vs(vec![("uri", self.uri.view())]) } }
impl Build for m::ResourceUpdatedNotificationParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ResourceUpdatedNotificationParams", v)); } Ok(m::ResourceUpdatedNotificationParams { uri: fld(v, "uri")? }) } }
impl View for m::Result { fn view(&self) -> V { vs(vec![("meta", self.meta.view()), ("extra", self.extra.view())]) } }
impl Build for m::Result { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("Result", v)); } Ok(m::Result { meta: fld(v, "meta")?, extra: fld(v, "extra")? }) } }
impl View for m::Role { fn view(&self) -> V { json!(["U", match self { m::Role::Assistant => "Assistant", m::Role::User => "User" }]) } }
impl Build for m::Role { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Ok(match v[1].as_str().unwrap_or("") { "Assistant" => m::Role::Assistant, "User" => m::Role::User, _ => return Err(bad("Role", v)) }) } }
impl View for m::Root { fn view(&self) -> V { vs(vec![("meta", self.meta.view()), ("name", self.name.view()), ("uri", self.uri.view())]) } }
impl Build for m::Root { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("Root", v)); } Ok(m::Root { meta: fld(v, "meta")?, name: fld(v, "name")?, uri: fld(v, "uri")? }) } }
impl View for m::RootsListChangedNotification { fn view(&self) -> V { vs(vec![("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::RootsListChangedNotification { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("RootsListChangedNotification", v)) } }
impl View for m::RootsListChangedNotificationParams { fn view(&self) -> V { vs(vec![("meta", self.meta.view()), ("extra", self.extra.view())]) } }
impl Build for m::RootsListChangedNotificationParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("RootsListChangedNotificationParams", v)); } Ok(m::RootsListChangedNotificationParams { meta: fld(v, "meta")?, extra: fld(v, "extra")? }) } }
impl View for m::RpcError { fn view(&self) -> V { vs(vec![("code", self.code.view()), ("data", self.data.view()), ("message", self.message.view())]) } }
impl Build for m::RpcError { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("RpcError", v)); } Ok(m::RpcError { code: fld(v, "code")?, data: fld(v, "data")?, message: fld(v, "message")? }) } }
impl View for m::SamplingMessage { fn view(&self) -> V { vs(vec![("content", self.content.view()), ("role", self.role.view())]) } }
impl Build for m::SamplingMessage { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("SamplingMessage", v)); } Ok(m::SamplingMessage { content: fld(v, "content")?, role: fld(v, "role")? }) } }
impl View for m::SamplingMessageContent { fn view(&self) -> V { match self { m::SamplingMessageContent::TextContent(x) => json!(["E", "TextContent", x.view()]), m::SamplingMessageContent::ImageContent(x) => json!(["E", "ImageContent", x.view()]), m::SamplingMessageContent::AudioContent(x) => json!(["E", "AudioContent", x.view()]) } } }
impl Build for m::SamplingMessageContent { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("SamplingMessageContent", v)); } Ok(match v[1].as_str().unwrap_or("") { "TextContent" => m::SamplingMessageContent::TextContent(Build::build(&v[2])?), "ImageContent" => m::SamplingMessageContent::ImageContent(Build::build(&v[2])?), "AudioContent" => m::SamplingMessageContent::AudioContent(Build::build(&v[2])?), _ => return Err(bad("SamplingMessageContent", v)) }) } }
impl View for m::ServerCapabilities { fn view(&self) -> V { vs(vec![("completions", self.completions.view()), ("experimental", self.experimental.view()), ("logging", self.logging.view()), ("prompts", self.prompts.view()), ("resources", self.resources.view()), ("tools", self.tools.view())]) } }
impl Build for m::ServerCapabilities { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ServerCapabilities", v)); } Ok(m::ServerCapabilities { completions: fld(v, "completions")?, experimental: fld(v, "experimental")?, logging: fld(v, "logging")?, prompts: fld(v, "prompts")?, resources: fld(v, "resources")?, tools: fld(v, "tools")? }) } }
impl View for m::ServerCapabilitiesPrompts { fn view(&self) -> V { vs(vec![("list_changed", self.list_changed.view())]) } }
impl Build for m::ServerCapabilitiesPrompts { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ServerCapabilitiesPrompts", v)); } Ok(m::ServerCapabilitiesPrompts { list_changed: fld(v, "list_changed")? }) } }
impl View for m::ServerCapabilitiesResources { fn view(&self) -> V { vs(vec![("list_changed", self.list_changed.view()), ("subscribe", self.subscribe.view())]) } }
impl Build for m::ServerCapabilitiesResources { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ServerCapabilitiesResources", v)); } Ok(m::ServerCapabilitiesResources { list_changed: fld(v, "list_changed")?, subscribe: fld(v, "subscribe")? }) } }
impl View for m::ServerCapabilitiesTools { fn view(&self) -> V { vs(vec![("list_changed", self.list_changed.view())]) } }
impl Build for m::ServerCapabilitiesTools { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ServerCapabilitiesTools", v)); } Ok(m::ServerCapabilitiesTools { list_changed: fld(v, "list_changed")? }) } }
impl View for m::ServerNotification { fn view(&self) -> V { match self { m::ServerNotification::CancelledNotification(x) => json!(["E", "CancelledNotification", x.view()]), m::ServerNotification::ProgressNotification(x) => json!(["E", "ProgressNotification", x.view()]), m::ServerNotification::ResourceListChangedNotification(x) => json!(["E", "ResourceListChangedNotification", x.view()]), m::ServerNotification::ResourceUpdatedNotification(x) => json!(["E", "ResourceUpdatedNotification", x.view()]), m::ServerNotification::PromptListChangedNotification(x) => json!(["E", "PromptListChangedNotification", x.view()]), m::ServerNotification::ToolListChangedNotification(x) => json!(["E", "ToolListChangedNotification", x.view()]), m::ServerNotification::LoggingMessageNotification(x) => json!(["E", "LoggingMessageNotification", x.view()]) } } }
impl Build for m::ServerNotification { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("ServerNotification", v)); } Ok(match v[1].as_str().unwrap_or("") { "CancelledNotification" => m::ServerNotification::CancelledNotification(Build::build(&v[2])?), "ProgressNotification" => m::ServerNotification::ProgressNotification(Build::build(&v[2])?), "ResourceListChangedNotification" => m::ServerNotification::ResourceListChangedNotification(Build::build(&v[2])?), "ResourceUpdatedNotification" => m::ServerNotification::ResourceUpdatedNotification(Build::build(&v[2])?), "PromptListChangedNotification" => m::ServerNotification::PromptListChangedNotification(Build::build(&v[2])?), "ToolListChangedNotification" => m::ServerNotification::ToolListChangedNotification(Build::build(&v[2])?), "LoggingMessageNotification" => m::ServerNotification::LoggingMessageNotification(Build::build(&v[2])?), _ => return Err(bad("ServerNotification", v)) }) } }
impl View for m::ServerRequest { fn view(&self) -> V { match self { m::ServerRequest::PingRequest(x) => json!(["E", "PingRequest", x.view()]), m::ServerRequest::CreateMessageRequest(x) => json!(["E", "CreateMessageRequest", x.view()]), m::ServerRequest::ListRootsRequest(x) => json!(["E", "ListRootsRequest", x.view()]), m::ServerRequest::ElicitRequest(x) => json!(["E", "ElicitRequest", x.view()]) } } }
impl Build for m::ServerRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("ServerRequest", v)); } Ok(match v[1].as_str().unwrap_or("") { "PingRequest" => m::ServerRequest::PingRequest(Build::build(&v[2])?), "CreateMessageRequest" => m::ServerRequest::CreateMessageRequest(Build::build(&v[2])?), "ListRootsRequest" => m::ServerRequest::ListRootsRequest(Build::build(&v[2])?), "ElicitRequest" => m::ServerRequest::ElicitRequest(Build::build(&v[2])?), _ => return Err(bad("ServerRequest", v)) }) } }
impl View for m::ServerResult { fn view(&self) -> V { match self { m::ServerResult::InitializeResult(x) => json!(["E", "InitializeResult", x.view()]), m::ServerResult::ListResourcesResult(x) => json!(["E", "ListResourcesResult", x.view()]), m::ServerResult::ListResourceTemplatesResult(x) => json!(["E", "ListResourceTemplatesResult", x.view()]), m::ServerResult::ReadResourceResult(x) => json!(["E", "ReadResourceResult", x.view()]), m::ServerResult::ListPromptsResult(x) => json!(["E", "ListPromptsResult", x.view()]), m::ServerResult::GetPromptResult(x) => json!(["E", "GetPromptResult", x.view()]), m::ServerResult::ListToolsResult(x) => json!(["E", "ListToolsResult", x.view()]), m::ServerResult::CallToolResult(x) => json!(["E", "CallToolResult", x.view()]), m::ServerResult::CompleteResult(x) => json!(["E", "CompleteResult", x.view()]), m::ServerResult::Result(x) => json!(["E", "Result", x.view()]) } } }
impl Build for m::ServerResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("ServerResult", v)); } Ok(match v[1].as_str().unwrap_or("") { "InitializeResult" => m::ServerResult::InitializeResult(Build::build(&v[2])?), "ListResourcesResult" => m::ServerResult::ListResourcesResult(Build::build(&v[2])?), "ListResourceTemplatesResult" => m::ServerResult::ListResourceTemplatesResult(Build::build(&v[2])?), "ReadResourceResult" => m::ServerResult::ReadResourceResult(Build::build(&v[2])?), "ListPromptsResult" => m::ServerResult::ListPromptsResult(Build::build(&v[2])?), "GetPromptResult" => m::ServerResult::GetPromptResult(Build::build(&v[2])?), "ListToolsResult" => m::ServerResult::ListToolsResult(Build::build(&v[2])?), "CallToolResult" => m::ServerResult::CallToolResult(Build::build(&v[2])?), "CompleteResult" => m::ServerResult::CompleteResult(Build::build(&v[2])?), "Result" => m::ServerResult::Result(Build::build(&v[2])?), _ => return Err(bad("ServerResult", v)) }) } }
impl View for m::SetLevelRequest { fn view(&self) -> V { vs(vec![("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::SetLevelRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("SetLevelRequest", v)) } }
impl View for m::SetLevelRequestParams { fn view(&self) -> V { vs(vec![("level", self.level.view())]) } }
impl Build for m::SetLevelRequestParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("SetLevelRequestParams", v)); } Ok(m::SetLevelRequestParams { level: fld(v, "level")? }) } }
impl View for m::StringSchema { fn view(&self) -> V { vs(vec![("description", self.description.view()), ("format", self.format.view()), ("max_length", self.max_length.view()), ("min_length", self.min_length.view()), ("title", self.title.view()), ("type_", self.type_().view())]) } }
impl Build for m::StringSchema { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("StringSchema", v)) } }
impl View for m::StringSchemaFormat { fn view(&self) -> V { json!(["U", match self { m::StringSchemaFormat::Date => "Date", m::StringSchemaFormat::DateTime => "DateTime", m::StringSchemaFormat::Email => "Email", m::StringSchemaFormat::Uri => "Uri" }]) } }
impl Build for m::StringSchemaFormat { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Ok(match v[1].as_str().unwrap_or("") { "Date" => m::StringSchemaFormat::Date, "DateTime" => m::StringSchemaFormat::DateTime, "Email" => m::StringSchemaFormat::Email, "Uri" => m::StringSchemaFormat::Uri, _ => return Err(bad("StringSchemaFormat", v)) }) } }
impl View for m::SubscribeRequest { fn view(&self) -> V { vs(vec![("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::SubscribeRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("SubscribeRequest", v)) } }
impl View for m::SubscribeRequestParams { fn view(&self) -> V { vs(vec![("uri", self.uri.view())]) } }
impl Build for m::SubscribeRequestParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("SubscribeRequestParams", v)); } Ok(m::SubscribeRequestParams { uri: fld(v, "uri")? }) } }
impl View for m::TextContent { fn view(&self) -> V { vs(vec![("annotations", self.annotations.view()), ("meta", self.meta.view()), ("text", self.text.view()), ("type_", self.type_().view())]) } }
impl Build for m::TextContent { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("TextContent", v)) } }
impl View for m::TextResourceContents { fn view(&self) -> V { vs(vec![("meta", self.meta.view()), ("mime_type", self.mime_type.view()), ("text", self.text.view()), ("uri", self.uri.view())]) } }
impl Build for m::TextResourceContents { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("TextResourceContents", v)); } Ok(m::TextResourceContents { meta: fld(v, "meta")?, mime_type: fld(v, "mime_type")?, text: fld(v, "text")?, uri: fld(v, "uri")? }) } }
impl View for m::Tool { fn view(&self) -> V { vs(vec![("annotations", self.annotations.view()), ("description", self.description.view()), ("input_schema", self.input_schema.view()), ("meta", self.meta.view()), ("name", self.name.view()), ("output_schema", self.output_schema.view()), ("title", self.title.view())]) } }
impl Build for m::Tool { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("Tool", v)); } Ok(m::Tool { annotations: fld(v, "annotations")?, description: fld(v, "description")?, input_schema: fld(v, "input_schema")?, meta: fld(v, "meta")?, name: fld(v, "name")?, output_schema: fld(v, "output_schema")?, title: fld(v, "title")? }) } }
impl View for m::ToolAnnotations { fn view(&self) -> V { vs(vec![("destructive_hint", self.destructive_hint.view()), ("idempotent_hint", self.idempotent_hint.view()), ("open_world_hint", self.open_world_hint.view()), ("read_only_hint", self.read_only_hint.view()), ("title", self.title.view())]) } }
impl Build for m::ToolAnnotations { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ToolAnnotations", v)); } Ok(m::ToolAnnotations { destructive_hint: fld(v, "destructive_hint")?, idempotent_hint: fld(v, "idempotent_hint")?, open_world_hint: fld(v, "open_world_hint")?, read_only_hint: fld(v, "read_only_hint")?, title: fld(v, "title")? }) } }
impl View for m::ToolInputSchema { fn view(&self) -> V { vs(vec![("properties", self.properties.view()), ("required", self.required.view()), ("type_", self.type_().view())]) } }
impl Build for m::ToolInputSchema { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ToolInputSchema", v)) } }
impl View for m::ToolListChangedNotification { fn view(&self) -> V { vs(vec![("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::ToolListChangedNotification { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ToolListChangedNotification", v)) } }
impl View for m::ToolListChangedNotificationParams { fn view(&self) -> V { vs(vec![("meta", self.meta.view()), ("extra", self.extra.view())]) } }
impl Build for m::ToolListChangedNotificationParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ToolListChangedNotificationParams", v)); } Ok(m::ToolListChangedNotificationParams { meta: fld(v, "meta")?, extra: fld(v, "extra")? }) } }
impl View for m::ToolOutputSchema { fn view(&self) -> V { vs(vec![("properties", self.properties.view()), ("required", self.required.view()), ("type_", self.type_().view())]) } }
impl Build for m::ToolOutputSchema { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ToolOutputSchema", v)) } }
impl View for m::UnsubscribeRequest { fn view(&self) -> V { vs(vec![("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::UnsubscribeRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("UnsubscribeRequest", v)) } }
impl View for m::UnsubscribeRequestParams { fn view(&self) -> V { vs(vec![("uri", self.uri.view())]) } }
impl Build for m::UnsubscribeRequestParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("UnsubscribeRequestParams", v)); } Ok(m::UnsubscribeRequestParams { uri: fld(v, "uri")? }) } }
impl View for u::MessageTypes { fn view(&self) -> V { json!(["U", match self { u::MessageTypes::Request => "Request", u::MessageTypes::Response => "Response", u::MessageTypes::Notification => "Notification", u::MessageTypes::Error => "Error" }]) } }
impl Build for u::MessageTypes { fn build(v: &V) -> R<Self> {  Ok(match v[1].as_str().unwrap_or("") { "Request" => u::MessageTypes::Request, "Response" => u::MessageTypes::Response, "Notification" => u::MessageTypes::Notification, "Error" => u::MessageTypes::Error, _ => return Err(bad("MessageTypes", v)) }) } }
impl View for u::ClientMessage { fn view(&self) -> V { match self { u::ClientMessage::Request(x) => json!(["E", "Request", x.view()]), u::ClientMessage::Notification(x) => json!(["E", "Notification", x.view()]), u::ClientMessage::Response(x) => json!(["E", "Response", x.view()]), u::ClientMessage::Error(x) => json!(["E", "Error", x.view()]) } } }
impl Build for u::ClientMessage { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("ClientMessage", v)); } Ok(match v[1].as_str().unwrap_or("") { "Request" => u::ClientMessage::Request(Build::build(&v[2])?), "Notification" => u::ClientMessage::Notification(Build::build(&v[2])?), "Response" => u::ClientMessage::Response(Build::build(&v[2])?), "Error" => u::ClientMessage::Error(Build::build(&v[2])?), _ => return Err(bad("ClientMessage", v)) }) } }
impl View for u::ClientJsonrpcRequest { fn view(&self) -> V { vs(vec![("id", self.id.view()), ("jsonrpc", self.jsonrpc().view()), ("method", self.method.view()), ("request", self.request.view())]) } }
impl Build for u::ClientJsonrpcRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ClientJsonrpcRequest", v)) } }
impl View for u::RequestFromClient { fn view(&self) -> V { match self { u::RequestFromClient::ClientRequest(x) => json!(["E", "ClientRequest", x.view()]), u::RequestFromClient::CustomRequest(x) => json!(["E", "CustomRequest", x.view()]) } } }
impl Build for u::RequestFromClient { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("RequestFromClient", v)); } Ok(match v[1].as_str().unwrap_or("") { "ClientRequest" => u::RequestFromClient::ClientRequest(Build::build(&v[2])?), "CustomRequest" => u::RequestFromClient::CustomRequest(Build::build(&v[2])?), _ => return Err(bad("RequestFromClient", v)) }) } }
impl View for u::ClientJsonrpcNotification { fn view(&self) -> V { vs(vec![("jsonrpc", self.jsonrpc().view()), ("method", self.method.view()), ("notification", self.notification.view())]) } }
impl Build for u::ClientJsonrpcNotification { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ClientJsonrpcNotification", v)) } }
impl View for u::NotificationFromClient { fn view(&self) -> V { match self { u::NotificationFromClient::ClientNotification(x) => json!(["E", "ClientNotification", x.view()]), u::NotificationFromClient::CustomNotification(x) => json!(["E", "CustomNotification", x.view()]) } } }
impl Build for u::NotificationFromClient { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("NotificationFromClient", v)); } Ok(match v[1].as_str().unwrap_or("") { "ClientNotification" => u::NotificationFromClient::ClientNotification(Build::build(&v[2])?), "CustomNotification" => u::NotificationFromClient::CustomNotification(Build::build(&v[2])?), _ => return Err(bad("NotificationFromClient", v)) }) } }
impl View for u::ClientJsonrpcResponse { fn view(&self) -> V { vs(vec![("id", self.id.view()), ("jsonrpc", self.jsonrpc().view()), ("result", self.result.view())]) } }
impl Build for u::ClientJsonrpcResponse { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ClientJsonrpcResponse", v)) } }
impl View for u::ResultFromClient { fn view(&self) -> V { match self { u::ResultFromClient::ClientResult(x) => json!(["E", "ClientResult", x.view()]), u::ResultFromClient::CustomResult(x) => json!(["E", "CustomResult", x.view()]) } } }
impl Build for u::ResultFromClient { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("ResultFromClient", v)); } Ok(match v[1].as_str().unwrap_or("") { "ClientResult" => u::ResultFromClient::ClientResult(Build::build(&v[2])?), "CustomResult" => u::ResultFromClient::CustomResult(Build::build(&v[2])?), _ => return Err(bad("ResultFromClient", v)) }) } }
impl View for u::ServerMessage { fn view(&self) -> V { match self { u::ServerMessage::Request(x) => json!(["E", "Request", x.view()]), u::ServerMessage::Notification(x) => json!(["E", "Notification", x.view()]), u::ServerMessage::Response(x) => json!(["E", "Response", x.view()]), u::ServerMessage::Error(x) => json!(["E", "Error", x.view()]) } } }
impl Build for u::ServerMessage { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("ServerMessage", v)); } Ok(match v[1].as_str().unwrap_or("") { "Request" => u::ServerMessage::Request(Build::build(&v[2])?), "Notification" => u::ServerMessage::Notification(Build::build(&v[2])?), "Response" => u::ServerMessage::Response(Build::build(&v[2])?), "Error" => u::ServerMessage::Error(Build::build(&v[2])?), _ => return Err(bad("ServerMessage", v)) }) } }
impl View for u::ServerJsonrpcRequest { fn view(&self) -> V { vs(vec![("id", self.id.view()), ("jsonrpc", self.jsonrpc().view()), ("method", self.method.view()), ("request", self.request.view())]) } }
impl Build for u::ServerJsonrpcRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ServerJsonrpcRequest", v)) } }
impl View for u::RequestFromServer { fn view(&self) -> V { match self { u::RequestFromServer::ServerRequest(x) => json!(["E", "ServerRequest", x.view()]), u::RequestFromServer::CustomRequest(x) => json!(["E", "CustomRequest", x.view()]) } } }
impl Build for u::RequestFromServer { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("RequestFromServer", v)); } Ok(match v[1].as_str().unwrap_or("") { "ServerRequest" => u::RequestFromServer::ServerRequest(Build::build(&v[2])?), "CustomRequest" => u::RequestFromServer::CustomRequest(Build::build(&v[2])?), _ => return Err(bad("RequestFromServer", v)) }) } }
impl View for u::ServerJsonrpcNotification { fn view(&self) -> V { vs(vec![("jsonrpc", self.jsonrpc().view()), ("method", self.method.view()), ("notification", self.notification.view())]) } }
impl Build for u::ServerJsonrpcNotification { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ServerJsonrpcNotification", v)) } }
impl View for u::NotificationFromServer { fn view(&self) -> V { match self { u::NotificationFromServer::ServerNotification(x) => json!(["E", "ServerNotification", x.view()]), u::NotificationFromServer::CustomNotification(x) => json!(["E", "CustomNotification", x.view()]) } } }
impl Build for u::NotificationFromServer { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("NotificationFromServer", v)); } Ok(match v[1].as_str().unwrap_or("") { "ServerNotification" => u::NotificationFromServer::ServerNotification(Build::build(&v[2])?), "CustomNotification" => u::NotificationFromServer::CustomNotification(Build::build(&v[2])?), _ => return Err(bad("NotificationFromServer", v)) }) } }
impl View for u::ServerJsonrpcResponse { fn view(&self) -> V { vs(vec![("id", self.id.view()), ("jsonrpc", self.jsonrpc().view()), ("result", self.result.view())]) } }
impl Build for u::ServerJsonrpcResponse { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ServerJsonrpcResponse", v)) } }
impl View for u::ResultFromServer { fn view(&self) -> V { match self { u::ResultFromServer::ServerResult(x) => json!(["E", "ServerResult", x.view()]), u::ResultFromServer::CustomResult(x) => json!(["E", "CustomResult", x.view()]) } } }
impl Build for u::ResultFromServer { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("ResultFromServer", v)); } Ok(match v[1].as_str().unwrap_or("") { "ServerResult" => u::ResultFromServer::ServerResult(Build::build(&v[2])?), "CustomResult" => u::ResultFromServer::CustomResult(Build::build(&v[2])?), _ => return Err(bad("ResultFromServer", v)) }) } }
impl View for u::MessageFromServer { fn view(&self) -> V { match self { u::MessageFromServer::RequestFromServer(x) => json!(["E", "RequestFromServer", x.view()]), u::MessageFromServer::ResultFromServer(x) => json!(["E", "ResultFromServer", x.view()]), u::MessageFromServer::NotificationFromServer(x) => json!(["E", "NotificationFromServer", x.view()]), u::MessageFromServer::Error(x) => json!(["E", "Error", x.view()]) } } }
impl Build for u::MessageFromServer { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("MessageFromServer", v)); } Ok(match v[1].as_str().unwrap_or("") { "RequestFromServer" => u::MessageFromServer::RequestFromServer(Build::build(&v[2])?), "ResultFromServer" => u::MessageFromServer::ResultFromServer(Build::build(&v[2])?), "NotificationFromServer" => u::MessageFromServer::NotificationFromServer(Build::build(&v[2])?), "Error" => u::MessageFromServer::Error(Build::build(&v[2])?), _ => return Err(bad("MessageFromServer", v)) }) } }
impl View for u::MessageFromClient { fn view(&self) -> V { match self { u::MessageFromClient::RequestFromClient(x) => json!(["E", "RequestFromClient", x.view()]), u::MessageFromClient::ResultFromClient(x) => json!(["E", "ResultFromClient", x.view()]), u::MessageFromClient::NotificationFromClient(x) => json!(["E", "NotificationFromClient", x.view()]), u::MessageFromClient::Error(x) => json!(["E", "Error", x.view()]) } } }
impl Build for u::MessageFromClient { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("MessageFromClient", v)); } Ok(match v[1].as_str().unwrap_or("") { "RequestFromClient" => u::MessageFromClient::RequestFromClient(Build::build(&v[2])?), "ResultFromClient" => u::MessageFromClient::ResultFromClient(Build::build(&v[2])?), "NotificationFromClient" => u::MessageFromClient::NotificationFromClient(Build::build(&v[2])?), "Error" => u::MessageFromClient::Error(Build::build(&v[2])?), _ => return Err(bad("MessageFromClient", v)) }) } }
impl View for u::UnknownTool { fn view(&self) -> V { self.0.view() } }
impl View for u::CallToolError { fn view(&self) -> V { json!(["X", "CallToolError", self.0.to_string()]) } }
impl View for u::ClientMessages { fn view(&self) -> V { match self { u::ClientMessages::Single(x) => json!(["E", "Single", x.view()]), u::ClientMessages::Batch(x) => json!(["E", "Batch", x.view()]) } } }
impl Build for u::ClientMessages { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("ClientMessages", v)); } Ok(match v[1].as_str().unwrap_or("") { "Single" => u::ClientMessages::Single(Build::build(&v[2])?), "Batch" => u::ClientMessages::Batch(Build::build(&v[2])?), _ => return Err(bad("ClientMessages", v)) }) } }
impl View for u::ServerMessages { fn view(&self) -> V { match self { u::ServerMessages::Single(x) => json!(["E", "Single", x.view()]), u::ServerMessages::Batch(x) => json!(["E", "Batch", x.view()]) } } }
impl Build for u::ServerMessages { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("ServerMessages", v)); } Ok(match v[1].as_str().unwrap_or("") { "Single" => u::ServerMessages::Single(Build::build(&v[2])?), "Batch" => u::ServerMessages::Batch(Build::build(&v[2])?), _ => return Err(bad("ServerMessages", v)) }) } }
impl View for u::MessagesFromServer { fn view(&self) -> V { match self { u::MessagesFromServer::Single(x) => json!(["E", "Single", x.view()]), u::MessagesFromServer::Batch(x) => json!(["E", "Batch", x.view()]) } } }
impl Build for u::MessagesFromServer { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("MessagesFromServer", v)); } Ok(match v[1].as_str().unwrap_or("") { "Single" => u::MessagesFromServer::Single(Build::build(&v[2])?), "Batch" => u::MessagesFromServer::Batch(Build::build(&v[2])?), _ => return Err(bad("MessagesFromServer", v)) }) } }
impl View for u::MessagesFromClient { fn view(&self) -> V { match self { u::MessagesFromClient::Single(x) => json!(["E", "Single", x.view()]), u::MessagesFromClient::Batch(x) => json!(["E", "Batch", x.view()]) } } }
impl Build for u::MessagesFromClient { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("MessagesFromClient", v)); } Ok(match v[1].as_str().unwrap_or("") { "Single" => u::MessagesFromClient::Single(Build::build(&v[2])?), "Batch" => u::MessagesFromClient::Batch(Build::build(&v[2])?), _ => return Err(bad("MessagesFromClient", v)) }) } }
impl View for u::StringSchemaFormatError { fn view(&self) -> V { json!(["X", "StringSchemaFormatError"]) } }
impl View for u::SdkErrorCodes { fn view(&self) -> V { json!(["U", match self { u::SdkErrorCodes::CONNECTION_CLOSED => "CONNECTION_CLOSED", u::SdkErrorCodes::REQUEST_TIMEOUT => "REQUEST_TIMEOUT", u::SdkErrorCodes::RESOURCE_NOT_FOUND => "RESOURCE_NOT_FOUND", u::SdkErrorCodes::BAD_REQUEST => "BAD_REQUEST", u::SdkErrorCodes::SESSION_NOT_FOUND => "SESSION_NOT_FOUND", u::SdkErrorCodes::INVALID_REQUEST => "INVALID_REQUEST", u::SdkErrorCodes::METHOD_NOT_FOUND => "METHOD_NOT_FOUND", u::SdkErrorCodes::INVALID_PARAMS => "INVALID_PARAMS", u::SdkErrorCodes::INTERNAL_ERROR => "INTERNAL_ERROR", u::SdkErrorCodes::PARSE_ERROR => "PARSE_ERROR" }]) } }
impl Build for u::SdkErrorCodes { fn build(v: &V) -> R<Self> {  Ok(match v[1].as_str().unwrap_or("") { "CONNECTION_CLOSED" => u::SdkErrorCodes::CONNECTION_CLOSED, "REQUEST_TIMEOUT" => u::SdkErrorCodes::REQUEST_TIMEOUT, "RESOURCE_NOT_FOUND" => u::SdkErrorCodes::RESOURCE_NOT_FOUND, "BAD_REQUEST" => u::SdkErrorCodes::BAD_REQUEST, "SESSION_NOT_FOUND" => u::SdkErrorCodes::SESSION_NOT_FOUND, "INVALID_REQUEST" => u::SdkErrorCodes::INVALID_REQUEST, "METHOD_NOT_FOUND" => u::SdkErrorCodes::METHOD_NOT_FOUND, "INVALID_PARAMS" => u::SdkErrorCodes::INVALID_PARAMS, "INTERNAL_ERROR" => u::SdkErrorCodes::INTERNAL_ERROR, "PARSE_ERROR" => u::SdkErrorCodes::PARSE_ERROR, _ => return Err(bad("SdkErrorCodes", v)) }) } }
impl View for u::SdkError { fn view(&self) -> V { vs(vec![("code", self.code.view()), ("data", self.data.view()), ("message", self.message.view())]) } }
impl Build for u::SdkError { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("SdkError", v)); } Ok(u::SdkError { code: fld(v, "code")?, data: fld(v, "data")?, message: fld(v, "message")? }) } }
impl View for u::RpcErrorCodes { fn view(&self) -> V { json!(["U", match self { u::RpcErrorCodes::PARSE_ERROR => "PARSE_ERROR", u::RpcErrorCodes::INVALID_REQUEST => "INVALID_REQUEST", u::RpcErrorCodes::METHOD_NOT_FOUND => "METHOD_NOT_FOUND", u::RpcErrorCodes::INVALID_PARAMS => "INVALID_PARAMS", u::RpcErrorCodes::INTERNAL_ERROR => "INTERNAL_ERROR" }]) } }
impl Build for u::RpcErrorCodes { fn build(v: &V) -> R<Self> {  Ok(match v[1].as_str().unwrap_or("") { "PARSE_ERROR" => u::RpcErrorCodes::PARSE_ERROR, "INVALID_REQUEST" => u::RpcErrorCodes::INVALID_REQUEST, "METHOD_NOT_FOUND" => u::RpcErrorCodes::METHOD_NOT_FOUND, "INVALID_PARAMS" => u::RpcErrorCodes::INVALID_PARAMS, "INTERNAL_ERROR" => u::RpcErrorCodes::INTERNAL_ERROR, _ => return Err(bad("RpcErrorCodes", v)) }) } }
impl Build for u::CallToolError { fn build(v: &V) -> R<Self> { let s: String = Build::build(v)?; Ok(u::CallToolError::from_message(s)) } }
impl Build for u::UnknownTool { fn build(v: &V) -> R<Self> { let s: String = Build::build(v)?; Ok(u::UnknownTool(s)) } }

pub fn run_codec(t: &str, d: &V) -> R<V> {
    Ok(match t {
        "Annotations" => codec::<m::Annotations>(d),
        "AudioContent" => codec::<m::AudioContent>(d),
        "BaseMetadata" => codec::<m::BaseMetadata>(d),
        "BlobResourceContents" => codec::<m::BlobResourceContents>(d),
        "BooleanSchema" => codec::<m::BooleanSchema>(d),
        "CallToolRequest" => codec::<m::CallToolRequest>(d),
        "CallToolRequestParams" => codec::<m::CallToolRequestParams>(d),
        "CallToolResult" => codec::<m::CallToolResult>(d),
        "CancelledNotification" => codec::<m::CancelledNotification>(d),
        "CancelledNotificationParams" => codec::<m::CancelledNotificationParams>(d),
        "ClientCapabilities" => codec::<m::ClientCapabilities>(d),
        "ClientNotification" => codec::<m::ClientNotification>(d),
        "ClientRequest" => codec::<m::ClientRequest>(d),
        "ClientResult" => codec::<m::ClientResult>(d),
        "ClientRoots" => codec::<m::ClientRoots>(d),
        "CompleteRequest" => codec::<m::CompleteRequest>(d),
        "CompleteRequestArgument" => codec::<m::CompleteRequestArgument>(d),
        "CompleteRequestContext" => codec::<m::CompleteRequestContext>(d),
        "CompleteRequestParams" => codec::<m::CompleteRequestParams>(d),
        "CompleteRequestRef" => codec::<m::CompleteRequestRef>(d),
        "CompleteResult" => codec::<m::CompleteResult>(d),
        "CompleteResultCompletion" => codec::<m::CompleteResultCompletion>(d),
        "ContentBlock" => codec::<m::ContentBlock>(d),
        "CreateMessageContent" => codec::<m::CreateMessageContent>(d),
        "CreateMessageRequest" => codec::<m::CreateMessageRequest>(d),
        "CreateMessageRequestParams" => codec::<m::CreateMessageRequestParams>(d),
        "CreateMessageResult" => codec::<m::CreateMessageResult>(d),
        "Cursor" => codec::<m::Cursor>(d),
        "ElicitRequest" => codec::<m::ElicitRequest>(d),
        "ElicitRequestParams" => codec::<m::ElicitRequestParams>(d),
        "ElicitRequestedSchema" => codec::<m::ElicitRequestedSchema>(d),
        "ElicitResult" => codec::<m::ElicitResult>(d),
        "ElicitResultAction" => codec::<m::ElicitResultAction>(d),
        "ElicitResultContent" => codec::<m::ElicitResultContent>(d),
        "EmbeddedResource" => codec::<m::EmbeddedResource>(d),
        "EmbeddedResourceResource" => codec::<m::EmbeddedResourceResource>(d),
        "EmptyResult" => codec::<m::EmptyResult>(d),
        "EnumSchema" => codec::<m::EnumSchema>(d),
        "GetPromptRequest" => codec::<m::GetPromptRequest>(d),
        "GetPromptRequestParams" => codec::<m::GetPromptRequestParams>(d),
        "GetPromptResult" => codec::<m::GetPromptResult>(d),
        "ImageContent" => codec::<m::ImageContent>(d),
        "Implementation" => codec::<m::Implementation>(d),
        "IncludeContext" => codec::<m::IncludeContext>(d),
        "InitializeRequest" => codec::<m::InitializeRequest>(d),
        "InitializeRequestParams" => codec::<m::InitializeRequestParams>(d),
        "InitializeResult" => codec::<m::InitializeResult>(d),
        "InitializedNotification" => codec::<m::InitializedNotification>(d),
        "InitializedNotificationParams" => codec::<m::InitializedNotificationParams>(d),
        "JsonrpcError" => codec::<m::JsonrpcError>(d),
        "JsonrpcMessage" => codec::<m::JsonrpcMessage>(d),
        "JsonrpcNotification" => codec::<m::JsonrpcNotification>(d),
        "JsonrpcNotificationParams" => codec::<m::JsonrpcNotificationParams>(d),
        "JsonrpcRequest" => codec::<m::JsonrpcRequest>(d),
        "JsonrpcRequestParams" => codec::<m::JsonrpcRequestParams>(d),
        "JsonrpcRequestParamsMeta" => codec::<m::JsonrpcRequestParamsMeta>(d),
        "JsonrpcResponse" => codec::<m::JsonrpcResponse>(d),
        "ListPromptsRequest" => codec::<m::ListPromptsRequest>(d),
        "ListPromptsRequestParams" => codec::<m::ListPromptsRequestParams>(d),
        "ListPromptsResult" => codec::<m::ListPromptsResult>(d),
        "ListResourceTemplatesRequest" => codec::<m::ListResourceTemplatesRequest>(d),
        "ListResourceTemplatesRequestParams" => codec::<m::ListResourceTemplatesRequestParams>(d),
        "ListResourceTemplatesResult" => codec::<m::ListResourceTemplatesResult>(d),
        "ListResourcesRequest" => codec::<m::ListResourcesRequest>(d),
        "ListResourcesRequestParams" => codec::<m::ListResourcesRequestParams>(d),
        "ListResourcesResult" => codec::<m::ListResourcesResult>(d),
        "ListRootsRequest" => codec::<m::ListRootsRequest>(d),
        "ListRootsRequestParams" => codec::<m::ListRootsRequestParams>(d),
        "ListRootsRequestParamsMeta" => codec::<m::ListRootsRequestParamsMeta>(d),
        "ListRootsResult" => codec::<m::ListRootsResult>(d),
        "ListToolsRequest" => codec::<m::ListToolsRequest>(d),
        "ListToolsRequestParams" => codec::<m::ListToolsRequestParams>(d),
        "ListToolsResult" => codec::<m::ListToolsResult>(d),
        "LoggingLevel" => codec::<m::LoggingLevel>(d),
        "LoggingMessageNotification" => codec::<m::LoggingMessageNotification>(d),
        "LoggingMessageNotificationParams" => codec::<m::LoggingMessageNotificationParams>(d),
        "ModelHint" => codec::<m::ModelHint>(d),
        "ModelPreferences" => codec::<m::ModelPreferences>(d),
        "Notification" => codec::<m::Notification>(d),
        "NotificationParams" => codec::<m::NotificationParams>(d),
        "NumberSchema" => codec::<m::NumberSchema>(d),
        "NumberSchemaType" => codec::<m::NumberSchemaType>(d),
        "PaginatedRequest" => codec::<m::PaginatedRequest>(d),
        "PaginatedRequestParams" => codec::<m::PaginatedRequestParams>(d),
        "PaginatedResult" => codec::<m::PaginatedResult>(d),
        "PingRequest" => codec::<m::PingRequest>(d),
        "PingRequestParams" => codec::<m::PingRequestParams>(d),
        "PingRequestParamsMeta" => codec::<m::PingRequestParamsMeta>(d),
        "PrimitiveSchemaDefinition" => codec::<m::PrimitiveSchemaDefinition>(d),
        "ProgressNotification" => codec::<m::ProgressNotification>(d),
        "ProgressNotificationParams" => codec::<m::ProgressNotificationParams>(d),
        "ProgressToken" => codec::<m::ProgressToken>(d),
        "Prompt" => codec::<m::Prompt>(d),
        "PromptArgument" => codec::<m::PromptArgument>(d),
        "PromptListChangedNotification" => codec::<m::PromptListChangedNotification>(d),
        "PromptListChangedNotificationParams" => codec::<m::PromptListChangedNotificationParams>(d),
        "PromptMessage" => codec::<m::PromptMessage>(d),
        "PromptReference" => codec::<m::PromptReference>(d),
        "ReadResourceContent" => codec::<m::ReadResourceContent>(d),
        "ReadResourceRequest" => codec::<m::ReadResourceRequest>(d),
        "ReadResourceRequestParams" => codec::<m::ReadResourceRequestParams>(d),
        "ReadResourceResult" => codec::<m::ReadResourceResult>(d),
        "Request" => codec::<m::Request>(d),
        "RequestId" => codec::<m::RequestId>(d),
        "RequestParams" => codec::<m::RequestParams>(d),
        "RequestParamsMeta" => codec::<m::RequestParamsMeta>(d),
        "Resource" => codec::<m::Resource>(d),
        "ResourceContents" => codec::<m::ResourceContents>(d),
        "ResourceLink" => codec::<m::ResourceLink>(d),
        "ResourceListChangedNotification" => codec::<m::ResourceListChangedNotification>(d),
        "ResourceListChangedNotificationParams" => codec::<m::ResourceListChangedNotificationParams>(d),
        "ResourceTemplate" => codec::<m::ResourceTemplate>(d),
        "ResourceTemplateReference" => codec::<m::ResourceTemplateReference>(d),
        "ResourceUpdatedNotification" => codec::<m::ResourceUpdatedNotification>(d),
        "ResourceUpdatedNotificationParams" => codec::<m::ResourceUpdatedNotificationParams>(d),
        "Result" => codec::<m::Result>(d),
        "Role" => codec::<m::Role>(d),
        "Root" => codec::<m::Root>(d),
        "RootsListChangedNotification" => codec::<m::RootsListChangedNotification>(d),
        "RootsListChangedNotificationParams" => codec::<m::RootsListChangedNotificationParams>(d),
        "RpcError" => codec::<m::RpcError>(d),
        "SamplingMessage" => codec::<m::SamplingMessage>(d),
        "SamplingMessageContent" => codec::<m::SamplingMessageContent>(d),
        "ServerCapabilities" => codec::<m::ServerCapabilities>(d),
        "ServerCapabilitiesPrompts" => codec::<m::ServerCapabilitiesPrompts>(d),
        "ServerCapabilitiesResources" => codec::<m::ServerCapabilitiesResources>(d),
        "ServerCapabilitiesTools" => codec::<m::ServerCapabilitiesTools>(d),
        "ServerNotification" => codec::<m::ServerNotification>(d),
        "ServerRequest" => codec::<m::ServerRequest>(d),
        "ServerResult" => codec::<m::ServerResult>(d),
        "SetLevelRequest" => codec::<m::SetLevelRequest>(d),
        "SetLevelRequestParams" => codec::<m::SetLevelRequestParams>(d),
        "StringSchema" => codec::<m::StringSchema>(d),
        "StringSchemaFormat" => codec::<m::StringSchemaFormat>(d),
        "SubscribeRequest" => codec::<m::SubscribeRequest>(d),
        "SubscribeRequestParams" => codec::<m::SubscribeRequestParams>(d),
        "TextContent" => codec::<m::TextContent>(d),
        "TextResourceContents" => codec::<m::TextResourceContents>(d),
        "Tool" => codec::<m::Tool>(d),
        "ToolAnnotations" => codec::<m::ToolAnnotations>(d),
        "ToolInputSchema" => codec::<m::ToolInputSchema>(d),
        "ToolListChangedNotification" => codec::<m::ToolListChangedNotification>(d),
        "ToolListChangedNotificationParams" => codec::<m::ToolListChangedNotificationParams>(d),
        "ToolOutputSchema" => codec::<m::ToolOutputSchema>(d),
        "UnsubscribeRequest" => codec::<m::UnsubscribeRequest>(d),
        "UnsubscribeRequestParams" => codec::<m::UnsubscribeRequestParams>(d),
        "ClientMessage" => codec::<u::ClientMessage>(d),
        "ClientJsonrpcRequest" => codec::<u::ClientJsonrpcRequest>(d),
        "RequestFromClient" => codec::<u::RequestFromClient>(d),
        "ClientJsonrpcNotification" => codec::<u::ClientJsonrpcNotification>(d),
        "NotificationFromClient" => codec::<u::NotificationFromClient>(d),
        "ClientJsonrpcResponse" => codec::<u::ClientJsonrpcResponse>(d),
        "ResultFromClient" => codec::<u::ResultFromClient>(d),
        "ServerMessage" => codec::<u::ServerMessage>(d),
        "ServerJsonrpcRequest" => codec::<u::ServerJsonrpcRequest>(d),
        "RequestFromServer" => codec::<u::RequestFromServer>(d),
        "ServerJsonrpcNotification" => codec::<u::ServerJsonrpcNotification>(d),
        "NotificationFromServer" => codec::<u::NotificationFromServer>(d),
        "ServerJsonrpcResponse" => codec::<u::ServerJsonrpcResponse>(d),
        "ResultFromServer" => codec::<u::ResultFromServer>(d),
        "MessageFromServer" => codec::<u::MessageFromServer>(d),
        "MessageFromClient" => codec::<u::MessageFromClient>(d),
        "ClientMessages" => codec::<u::ClientMessages>(d),
        "ServerMessages" => codec::<u::ServerMessages>(d),
        "MessagesFromServer" => codec::<u::MessagesFromServer>(d),
        "MessagesFromClient" => codec::<u::MessagesFromClient>(d),
        "SdkError" => codec::<u::SdkError>(d),
        _ => return Err(bad("type", d)),
    })
}
pub fn run_call(f: &str, s: &V, a: &V) -> R<V> {
    match f {
        "AudioContent.new" => { let a0: ::std::string::String = arg(a, 0)?; let a1: ::std::string::String = arg(a, 1)?; let a2: ::std::option::Option<m::Annotations> = arg(a, 2)?; let a3: ::std::option::Option<::serde_json::Map<::std::string::String,::serde_json::Value>> = arg(a, 3)?; let r = m::AudioContent::new(a0, a1, a2, a3); Ok(out!(r)) }
        "AudioContent.type_" => { let s: m::AudioContent = arg(s, 0)?;  let r = m::AudioContent::type_(&s); Ok(out!(r)) }
        "AudioContent.type_value" => {  let r = m::AudioContent::type_value(); Ok(out!(r)) }
        "AudioContent.type_name" => {  let r = m::AudioContent::type_name(); Ok(out!(r)) }
        "BooleanSchema.new" => { let a0: ::std::option::Option<bool> = arg(a, 0)?; let a1: ::std::option::Option<::std::string::String> = arg(a, 1)?; let a2: ::std::option::Option<::std::string::String> = arg(a, 2)?; let r = m::BooleanSchema::new(a0, a1, a2); Ok(out!(r)) }
        "BooleanSchema.type_" => { let s: m::BooleanSchema = arg(s, 0)?;  let r = m::BooleanSchema::type_(&s); Ok(out!(r)) }
        "BooleanSchema.type_value" => {  let r = m::BooleanSchema::type_value(); Ok(out!(r)) }
        "BooleanSchema.type_name" => {  let r = m::BooleanSchema::type_name(); Ok(out!(r)) }
        "CallToolRequest.new" => { let a0: m::CallToolRequestParams = arg(a, 0)?; let r = m::CallToolRequest::new(a0); Ok(out!(r)) }
        "CallToolRequest.method" => { let s: m::CallToolRequest = arg(s, 0)?;  let r = m::CallToolRequest::method(&s); Ok(out!(r)) }
        "CallToolRequest.method_value" => {  let r = m::CallToolRequest::method_value(); Ok(out!(r)) }
        "CallToolRequest.method_name" => {  let r = m::CallToolRequest::method_name(); Ok(out!(r)) }
        "CancelledNotification.new" => { let a0: m::CancelledNotificationParams = arg(a, 0)?; let r = m::CancelledNotification::new(a0); Ok(out!(r)) }
        "CancelledNotification.method" => { let s: m::CancelledNotification = arg(s, 0)?;  let r = m::CancelledNotification::method(&s); Ok(out!(r)) }
        "CancelledNotification.method_value" => {  let r = m::CancelledNotification::method_value(); Ok(out!(r)) }
        "CancelledNotification.method_name" => {  let r = m::CancelledNotification::method_name(); Ok(out!(r)) }
        "ClientNotification.From<CancelledNotification>" => { let a0: m::CancelledNotification = arg(a, 0)?; let r: m::ClientNotification = From::from(a0); Ok(out!(r)) }
        "ClientNotification.From<InitializedNotification>" => { let a0: m::InitializedNotification = arg(a, 0)?; let r: m::ClientNotification = From::from(a0); Ok(out!(r)) }
        "ClientNotification.From<ProgressNotification>" => { let a0: m::ProgressNotification = arg(a, 0)?; let r: m::ClientNotification = From::from(a0); Ok(out!(r)) }
        "ClientNotification.From<RootsListChangedNotification>" => { let a0: m::RootsListChangedNotification = arg(a, 0)?; let r: m::ClientNotification = From::from(a0); Ok(out!(r)) }
        "ClientRequest.From<InitializeRequest>" => { let a0: m::InitializeRequest = arg(a, 0)?; let r: m::ClientRequest = From::from(a0); Ok(out!(r)) }
        "ClientRequest.From<PingRequest>" => { let a0: m::PingRequest = arg(a, 0)?; let r: m::ClientRequest = From::from(a0); Ok(out!(r)) }
        "ClientRequest.From<ListResourcesRequest>" => { let a0: m::ListResourcesRequest = arg(a, 0)?; let r: m::ClientRequest = From::from(a0); Ok(out!(r)) }
        "ClientRequest.From<ListResourceTemplatesRequest>" => { let a0: m::ListResourceTemplatesRequest = arg(a, 0)?; let r: m::ClientRequest = From::from(a0); Ok(out!(r)) }
        "ClientRequest.From<ReadResourceRequest>" => { let a0: m::ReadResourceRequest = arg(a, 0)?; let r: m::ClientRequest = From::from(a0); Ok(out!(r)) }
        "ClientRequest.From<SubscribeRequest>" => { let a0: m::SubscribeRequest = arg(a, 0)?; let r: m::ClientRequest = From::from(a0); Ok(out!(r)) }
        "ClientRequest.From<UnsubscribeRequest>" => { let a0: m::UnsubscribeRequest = arg(a, 0)?; let r: m::ClientRequest = From::from(a0); Ok(out!(r)) }
        "ClientRequest.From<ListPromptsRequest>" => { let a0: m::ListPromptsRequest = arg(a, 0)?; let r: m::ClientRequest = From::from(a0); Ok(out!(r)) }
        "ClientRequest.From<GetPromptRequest>" => { let a0: m::GetPromptRequest = arg(a, 0)?; let r: m::ClientRequest = From::from(a0); Ok(out!(r)) }
        "ClientRequest.From<ListToolsRequest>" => { let a0: m::ListToolsRequest = arg(a, 0)?; let r: m::ClientRequest = From::from(a0); Ok(out!(r)) }
        "ClientRequest.From<CallToolRequest>" => { let a0: m::CallToolRequest = arg(a, 0)?; let r: m::ClientRequest = From::from(a0); Ok(out!(r)) }
        "ClientRequest.From<SetLevelRequest>" => { let a0: m::SetLevelRequest = arg(a, 0)?; let r: m::ClientRequest = From::from(a0); Ok(out!(r)) }
        "ClientRequest.From<CompleteRequest>" => { let a0: m::CompleteRequest = arg(a, 0)?; let r: m::ClientRequest = From::from(a0); Ok(out!(r)) }
        "ClientResult.From<CreateMessageResult>" => { let a0: m::CreateMessageResult = arg(a, 0)?; let r: m::ClientResult = From::from(a0); Ok(out!(r)) }
        "ClientResult.From<ListRootsResult>" => { let a0: m::ListRootsResult = arg(a, 0)?; let r: m::ClientResult = From::from(a0); Ok(out!(r)) }
        "ClientResult.From<ElicitResult>" => { let a0: m::ElicitResult = arg(a, 0)?; let r: m::ClientResult = From::from(a0); Ok(out!(r)) }
        "ClientResult.From<Result>" => { let a0: m::Result = arg(a, 0)?; let r: m::ClientResult = From::from(a0); Ok(out!(r)) }
        "CompleteRequest.new" => { let a0: m::CompleteRequestParams = arg(a, 0)?; let r = m::CompleteRequest::new(a0); Ok(out!(r)) }
        "CompleteRequest.method" => { let s: m::CompleteRequest = arg(s, 0)?;  let r = m::CompleteRequest::method(&s); Ok(out!(r)) }
        "CompleteRequest.method_value" => {  let r = m::CompleteRequest::method_value(); Ok(out!(r)) }
        "CompleteRequest.method_name" => {  let r = m::CompleteRequest::method_name(); Ok(out!(r)) }
        "CompleteRequestRef.From<PromptReference>" => { let a0: m::PromptReference = arg(a, 0)?; let r: m::CompleteRequestRef = From::from(a0); Ok(out!(r)) }
        "CompleteRequestRef.From<ResourceTemplateReference>" => { let a0: m::ResourceTemplateReference = arg(a, 0)?; let r: m::CompleteRequestRef = From::from(a0); Ok(out!(r)) }
        "ContentBlock.From<TextContent>" => { let a0: m::TextContent = arg(a, 0)?; let r: m::ContentBlock = From::from(a0); Ok(out!(r)) }
        "ContentBlock.From<ImageContent>" => { let a0: m::ImageContent = arg(a, 0)?; let r: m::ContentBlock = From::from(a0); Ok(out!(r)) }
        "ContentBlock.From<AudioContent>" => { let a0: m::AudioContent = arg(a, 0)?; let r: m::ContentBlock = From::from(a0); Ok(out!(r)) }
        "ContentBlock.From<ResourceLink>" => { let a0: m::ResourceLink = arg(a, 0)?; let r: m::ContentBlock = From::from(a0); Ok(out!(r)) }
        "ContentBlock.From<EmbeddedResource>" => { let a0: m::EmbeddedResource = arg(a, 0)?; let r: m::ContentBlock = From::from(a0); Ok(out!(r)) }
        "CreateMessageContent.From<TextContent>" => { let a0: m::TextContent = arg(a, 0)?; let r: m::CreateMessageContent = From::from(a0); Ok(out!(r)) }
        "CreateMessageContent.From<ImageContent>" => { let a0: m::ImageContent = arg(a, 0)?; let r: m::CreateMessageContent = From::from(a0); Ok(out!(r)) }
        "CreateMessageContent.From<AudioContent>" => { let a0: m::AudioContent = arg(a, 0)?; let r: m::CreateMessageContent = From::from(a0); Ok(out!(r)) }
        "CreateMessageRequest.new" => { let a0: m::CreateMessageRequestParams = arg(a, 0)?; let r = m::CreateMessageRequest::new(a0); Ok(out!(r)) }
        "CreateMessageRequest.method" => { let s: m::CreateMessageRequest = arg(s, 0)?;  let r = m::CreateMessageRequest::method(&s); Ok(out!(r)) }
        "CreateMessageRequest.method_value" => {  let r = m::CreateMessageRequest::method_value(); Ok(out!(r)) }
        "CreateMessageRequest.method_name" => {  let r = m::CreateMessageRequest::method_name(); Ok(out!(r)) }
        "ElicitRequest.new" => { let a0: m::ElicitRequestParams = arg(a, 0)?; let r = m::ElicitRequest::new(a0); Ok(out!(r)) }
        "ElicitRequest.method" => { let s: m::ElicitRequest = arg(s, 0)?;  let r = m::ElicitRequest::method(&s); Ok(out!(r)) }
        "ElicitRequest.method_value" => {  let r = m::ElicitRequest::method_value(); Ok(out!(r)) }
        "ElicitRequest.method_name" => {  let r = m::ElicitRequest::method_name(); Ok(out!(r)) }
        "ElicitRequestedSchema.new" => { let a0: std::collections::BTreeMap<::std::string::String,m::PrimitiveSchemaDefinition> = arg(a, 0)?; let a1: ::std::vec::Vec<::std::string::String> = arg(a, 1)?; let r = m::ElicitRequestedSchema::new(a0, a1); Ok(out!(r)) }
        "ElicitRequestedSchema.type_" => { let s: m::ElicitRequestedSchema = arg(s, 0)?;  let r = m::ElicitRequestedSchema::type_(&s); Ok(out!(r)) }
        "ElicitRequestedSchema.type_value" => {  let r = m::ElicitRequestedSchema::type_value(); Ok(out!(r)) }
        "ElicitRequestedSchema.type_name" => {  let r = m::ElicitRequestedSchema::type_name(); Ok(out!(r)) }
        "ElicitResultAction.Display" => { let s: m::ElicitResultAction = arg(s, 0)?; Ok(s.to_string().view()) }
        "ElicitResultContent.From<bool>" => { let a0: bool = arg(a, 0)?; let r: m::ElicitResultContent = From::from(a0); Ok(out!(r)) }
        "ElicitResultContent.From<i64>" => { let a0: i64 = arg(a, 0)?; let r: m::ElicitResultContent = From::from(a0); Ok(out!(r)) }
        "EmbeddedResource.new" => { let a0: m::EmbeddedResourceResource = arg(a, 0)?; let a1: ::std::option::Option<m::Annotations> = arg(a, 1)?; let a2: ::std::option::Option<::serde_json::Map<::std::string::String,::serde_json::Value>> = arg(a, 2)?; let r = m::EmbeddedResource::new(a0, a1, a2); Ok(out!(r)) }
        "EmbeddedResource.type_" => { let s: m::EmbeddedResource = arg(s, 0)?;  let r = m::EmbeddedResource::type_(&s); Ok(out!(r)) }
        "EmbeddedResource.type_value" => {  let r = m::EmbeddedResource::type_value(); Ok(out!(r)) }
        "EmbeddedResource.type_name" => {  let r = m::EmbeddedResource::type_name(); Ok(out!(r)) }
        "EmbeddedResourceResource.From<TextResourceContents>" => { let a0: m::TextResourceContents = arg(a, 0)?; let r: m::EmbeddedResourceResource = From::from(a0); Ok(out!(r)) }
        "EmbeddedResourceResource.From<BlobResourceContents>" => { let a0: m::BlobResourceContents = arg(a, 0)?; let r: m::EmbeddedResourceResource = From::from(a0); Ok(out!(r)) }
        "EnumSchema.new" => { let a0: ::std::vec::Vec<::std::string::String> = arg(a, 0)?; let a1: ::std::vec::Vec<::std::string::String> = arg(a, 1)?; let a2: ::std::option::Option<::std::string::String> = arg(a, 2)?; let a3: ::std::option::Option<::std::string::String> = arg(a, 3)?; let r = m::EnumSchema::new(a0, a1, a2, a3); Ok(out!(r)) }
        "EnumSchema.type_" => { let s: m::EnumSchema = arg(s, 0)?;  let r = m::EnumSchema::type_(&s); Ok(out!(r)) }
        "EnumSchema.type_value" => {  let r = m::EnumSchema::type_value(); Ok(out!(r)) }
        "EnumSchema.type_name" => {  let r = m::EnumSchema::type_name(); Ok(out!(r)) }
        "GetPromptRequest.new" => { let a0: m::GetPromptRequestParams = arg(a, 0)?; let r = m::GetPromptRequest::new(a0); Ok(out!(r)) }
        "GetPromptRequest.method" => { let s: m::GetPromptRequest = arg(s, 0)?;  let r = m::GetPromptRequest::method(&s); Ok(out!(r)) }
        "GetPromptRequest.method_value" => {  let r = m::GetPromptRequest::method_value(); Ok(out!(r)) }
        "GetPromptRequest.method_name" => {  let r = m::GetPromptRequest::method_name(); Ok(out!(r)) }
        "ImageContent.new" => { let a0: ::std::string::String = arg(a, 0)?; let a1: ::std::string::String = arg(a, 1)?; let a2: ::std::option::Option<m::Annotations> = arg(a, 2)?; let a3: ::std::option::Option<::serde_json::Map<::std::string::String,::serde_json::Value>> = arg(a, 3)?; let r = m::ImageContent::new(a0, a1, a2, a3); Ok(out!(r)) }
        "ImageContent.type_" => { let s: m::ImageContent = arg(s, 0)?;  let r = m::ImageContent::type_(&s); Ok(out!(r)) }
        "ImageContent.type_value" => {  let r = m::ImageContent::type_value(); Ok(out!(r)) }
        "ImageContent.type_name" => {  let r = m::ImageContent::type_name(); Ok(out!(r)) }
        "IncludeContext.Display" => { let s: m::IncludeContext = arg(s, 0)?; Ok(s.to_string().view()) }
        "InitializeRequest.new" => { let a0: m::InitializeRequestParams = arg(a, 0)?; let r = m::InitializeRequest::new(a0); Ok(out!(r)) }
        "InitializeRequest.method" => { let s: m::InitializeRequest = arg(s, 0)?;  let r = m::InitializeRequest::method(&s); Ok(out!(r)) }
        "InitializeRequest.method_value" => {  let r = m::InitializeRequest::method_value(); Ok(out!(r)) }
        "InitializeRequest.method_name" => {  let r = m::InitializeRequest::method_name(); Ok(out!(r)) }
        "InitializedNotification.new" => { let a0: ::std::option::Option<m::InitializedNotificationParams> = arg(a, 0)?; let r = m::InitializedNotification::new(a0); Ok(out!(r)) }
        "InitializedNotification.method" => { let s: m::InitializedNotification = arg(s, 0)?;  let r = m::InitializedNotification::method(&s); Ok(out!(r)) }
        "InitializedNotification.method_value" => {  let r = m::InitializedNotification::method_value(); Ok(out!(r)) }
        "InitializedNotification.method_name" => {  let r = m::InitializedNotification::method_name(); Ok(out!(r)) }
        "JsonrpcError.new" => { let a0: m::RpcError = arg(a, 0)?; let a1: m::RequestId = arg(a, 1)?; let r = m::JsonrpcError::new(a0, a1); Ok(out!(r)) }
        "JsonrpcError.jsonrpc" => { let s: m::JsonrpcError = arg(s, 0)?;  let r = m::JsonrpcError::jsonrpc(&s); Ok(out!(r)) }
        "JsonrpcMessage.From<JsonrpcRequest>" => { let a0: m::JsonrpcRequest = arg(a, 0)?; let r: m::JsonrpcMessage = From::from(a0); Ok(out!(r)) }
        "JsonrpcMessage.From<JsonrpcNotification>" => { let a0: m::JsonrpcNotification = arg(a, 0)?; let r: m::JsonrpcMessage = From::from(a0); Ok(out!(r)) }
        "JsonrpcMessage.From<JsonrpcResponse>" => { let a0: m::JsonrpcResponse = arg(a, 0)?; let r: m::JsonrpcMessage = From::from(a0); Ok(out!(r)) }
        "JsonrpcMessage.From<JsonrpcError>" => { let a0: m::JsonrpcError = arg(a, 0)?; let r: m::JsonrpcMessage = From::from(a0); Ok(out!(r)) }
        "JsonrpcNotification.new" => { let a0: ::std::string::String = arg(a, 0)?; let a1: ::std::option::Option<m::JsonrpcNotificationParams> = arg(a, 1)?; let r = m::JsonrpcNotification::new(a0, a1); Ok(out!(r)) }
        "JsonrpcNotification.jsonrpc" => { let s: m::JsonrpcNotification = arg(s, 0)?;  let r = m::JsonrpcNotification::jsonrpc(&s); Ok(out!(r)) }
        "JsonrpcRequest.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: ::std::string::String = arg(a, 1)?; let a2: ::std::option::Option<m::JsonrpcRequestParams> = arg(a, 2)?; let r = m::JsonrpcRequest::new(a0, a1, a2); Ok(out!(r)) }
        "JsonrpcRequest.jsonrpc" => { let s: m::JsonrpcRequest = arg(s, 0)?;  let r = m::JsonrpcRequest::jsonrpc(&s); Ok(out!(r)) }
        "JsonrpcResponse.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: m::Result = arg(a, 1)?; let r = m::JsonrpcResponse::new(a0, a1); Ok(out!(r)) }
        "JsonrpcResponse.jsonrpc" => { let s: m::JsonrpcResponse = arg(s, 0)?;  let r = m::JsonrpcResponse::jsonrpc(&s); Ok(out!(r)) }
        "ListPromptsRequest.new" => { let a0: ::std::option::Option<m::ListPromptsRequestParams> = arg(a, 0)?; let r = m::ListPromptsRequest::new(a0); Ok(out!(r)) }
        "ListPromptsRequest.method" => { let s: m::ListPromptsRequest = arg(s, 0)?;  let r = m::ListPromptsRequest::method(&s); Ok(out!(r)) }
        "ListPromptsRequest.method_value" => {  let r = m::ListPromptsRequest::method_value(); Ok(out!(r)) }
        "ListPromptsRequest.method_name" => {  let r = m::ListPromptsRequest::method_name(); Ok(out!(r)) }
        "ListResourceTemplatesRequest.new" => { let a0: ::std::option::Option<m::ListResourceTemplatesRequestParams> = arg(a, 0)?; let r = m::ListResourceTemplatesRequest::new(a0); Ok(out!(r)) }
        "ListResourceTemplatesRequest.method" => { let s: m::ListResourceTemplatesRequest = arg(s, 0)?;  let r = m::ListResourceTemplatesRequest::method(&s); Ok(out!(r)) }
        "ListResourceTemplatesRequest.method_value" => {  let r = m::ListResourceTemplatesRequest::method_value(); Ok(out!(r)) }
        "ListResourceTemplatesRequest.method_name" => {  let r = m::ListResourceTemplatesRequest::method_name(); Ok(out!(r)) }
        "ListResourcesRequest.new" => { let a0: ::std::option::Option<m::ListResourcesRequestParams> = arg(a, 0)?; let r = m::ListResourcesRequest::new(a0); Ok(out!(r)) }
        "ListResourcesRequest.method" => { let s: m::ListResourcesRequest = arg(s, 0)?;  let r = m::ListResourcesRequest::method(&s); Ok(out!(r)) }
        "ListResourcesRequest.method_value" => {  let r = m::ListResourcesRequest::method_value(); Ok(out!(r)) }
        "ListResourcesRequest.method_name" => {  let r = m::ListResourcesRequest::method_name(); Ok(out!(r)) }
        "ListRootsRequest.new" => { let a0: ::std::option::Option<m::ListRootsRequestParams> = arg(a, 0)?; let r = m::ListRootsRequest::new(a0); Ok(out!(r)) }
        "ListRootsRequest.method" => { let s: m::ListRootsRequest = arg(s, 0)?;  let r = m::ListRootsRequest::method(&s); Ok(out!(r)) }
        "ListRootsRequest.method_value" => {  let r = m::ListRootsRequest::method_value(); Ok(out!(r)) }
        "ListRootsRequest.method_name" => {  let r = m::ListRootsRequest::method_name(); Ok(out!(r)) }
        "ListToolsRequest.new" => { let a0: ::std::option::Option<m::ListToolsRequestParams> = arg(a, 0)?; let r = m::ListToolsRequest::new(a0); Ok(out!(r)) }
        "ListToolsRequest.method" => { let s: m::ListToolsRequest = arg(s, 0)?;  let r = m::ListToolsRequest::method(&s); Ok(out!(r)) }
        "ListToolsRequest.method_value" => {  let r = m::ListToolsRequest::method_value(); Ok(out!(r)) }
        "ListToolsRequest.method_name" => {  let r = m::ListToolsRequest::method_name(); Ok(out!(r)) }
        "LoggingLevel.Display" => { let s: m::LoggingLevel = arg(s, 0)?; Ok(s.to_string().view()) }
        "LoggingMessageNotification.new" => { let a0: m::LoggingMessageNotificationParams = arg(a, 0)?; let r = m::LoggingMessageNotification::new(a0); Ok(out!(r)) }
        "LoggingMessageNotification.method" => { let s: m::LoggingMessageNotification = arg(s, 0)?;  let r = m::LoggingMessageNotification::method(&s); Ok(out!(r)) }
        "LoggingMessageNotification.method_value" => {  let r = m::LoggingMessageNotification::method_value(); Ok(out!(r)) }
        "LoggingMessageNotification.method_name" => {  let r = m::LoggingMessageNotification::method_name(); Ok(out!(r)) }
        "NumberSchemaType.Display" => { let s: m::NumberSchemaType = arg(s, 0)?; Ok(s.to_string().view()) }
        "PingRequest.new" => { let a0: ::std::option::Option<m::PingRequestParams> = arg(a, 0)?; let r = m::PingRequest::new(a0); Ok(out!(r)) }
        "PingRequest.method" => { let s: m::PingRequest = arg(s, 0)?;  let r = m::PingRequest::method(&s); Ok(out!(r)) }
        "PingRequest.method_value" => {  let r = m::PingRequest::method_value(); Ok(out!(r)) }
        "PingRequest.method_name" => {  let r = m::PingRequest::method_name(); Ok(out!(r)) }
        "PrimitiveSchemaDefinition.From<StringSchema>" => { let a0: m::StringSchema = arg(a, 0)?; let r: m::PrimitiveSchemaDefinition = From::from(a0); Ok(out!(r)) }
        "PrimitiveSchemaDefinition.From<NumberSchema>" => { let a0: m::NumberSchema = arg(a, 0)?; let r: m::PrimitiveSchemaDefinition = From::from(a0); Ok(out!(r)) }
        "PrimitiveSchemaDefinition.From<BooleanSchema>" => { let a0: m::BooleanSchema = arg(a, 0)?; let r: m::PrimitiveSchemaDefinition = From::from(a0); Ok(out!(r)) }
        "PrimitiveSchemaDefinition.From<EnumSchema>" => { let a0: m::EnumSchema = arg(a, 0)?; let r: m::PrimitiveSchemaDefinition = From::from(a0); Ok(out!(r)) }
        "ProgressNotification.new" => { let a0: m::ProgressNotificationParams = arg(a, 0)?; let r = m::ProgressNotification::new(a0); Ok(out!(r)) }
        "ProgressNotification.method" => { let s: m::ProgressNotification = arg(s, 0)?;  let r = m::ProgressNotification::method(&s); Ok(out!(r)) }
        "ProgressNotification.method_value" => {  let r = m::ProgressNotification::method_value(); Ok(out!(r)) }
        "ProgressNotification.method_name" => {  let r = m::ProgressNotification::method_name(); Ok(out!(r)) }
        "ProgressToken.From<i64>" => { let a0: i64 = arg(a, 0)?; let r: m::ProgressToken = From::from(a0); Ok(out!(r)) }
        "PromptListChangedNotification.new" => { let a0: ::std::option::Option<m::PromptListChangedNotificationParams> = arg(a, 0)?; let r = m::PromptListChangedNotification::new(a0); Ok(out!(r)) }
        "PromptListChangedNotification.method" => { let s: m::PromptListChangedNotification = arg(s, 0)?;  let r = m::PromptListChangedNotification::method(&s); Ok(out!(r)) }
        "PromptListChangedNotification.method_value" => {  let r = m::PromptListChangedNotification::method_value(); Ok(out!(r)) }
        "PromptListChangedNotification.method_name" => {  let r = m::PromptListChangedNotification::method_name(); Ok(out!(r)) }
        "PromptReference.new" => { let a0: ::std::string::String = arg(a, 0)?; let a1: ::std::option::Option<::std::string::String> = arg(a, 1)?; let r = m::PromptReference::new(a0, a1); Ok(out!(r)) }
        "PromptReference.type_" => { let s: m::PromptReference = arg(s, 0)?;  let r = m::PromptReference::type_(&s); Ok(out!(r)) }
        "PromptReference.type_value" => {  let r = m::PromptReference::type_value(); Ok(out!(r)) }
        "PromptReference.type_name" => {  let r = m::PromptReference::type_name(); Ok(out!(r)) }
        "ReadResourceContent.From<TextResourceContents>" => { let a0: m::TextResourceContents = arg(a, 0)?; let r: m::ReadResourceContent = From::from(a0); Ok(out!(r)) }
        "ReadResourceContent.From<BlobResourceContents>" => { let a0: m::BlobResourceContents = arg(a, 0)?; let r: m::ReadResourceContent = From::from(a0); Ok(out!(r)) }
        "ReadResourceRequest.new" => { let a0: m::ReadResourceRequestParams = arg(a, 0)?; let r = m::ReadResourceRequest::new(a0); Ok(out!(r)) }
        "ReadResourceRequest.method" => { let s: m::ReadResourceRequest = arg(s, 0)?;  let r = m::ReadResourceRequest::method(&s); Ok(out!(r)) }
        "ReadResourceRequest.method_value" => {  let r = m::ReadResourceRequest::method_value(); Ok(out!(r)) }
        "ReadResourceRequest.method_name" => {  let r = m::ReadResourceRequest::method_name(); Ok(out!(r)) }
        "RequestId.From<i64>" => { let a0: i64 = arg(a, 0)?; let r: m::RequestId = From::from(a0); Ok(out!(r)) }
        "ResourceLink.new" => { let a0: ::std::string::String = arg(a, 0)?; let a1: ::std::string::String = arg(a, 1)?; let a2: ::std::option::Option<m::Annotations> = arg(a, 2)?; let a3: ::std::option::Option<::std::string::String> = arg(a, 3)?; let a4: ::std::option::Option<::serde_json::Map<::std::string::String,::serde_json::Value>> = arg(a, 4)?; let a5: ::std::option::Option<::std::string::String> = arg(a, 5)?; let a6: ::std::option::Option<i64> = arg(a, 6)?; let a7: ::std::option::Option<::std::string::String> = arg(a, 7)?; let r = m::ResourceLink::new(a0, a1, a2, a3, a4, a5, a6, a7); Ok(out!(r)) }
        "ResourceLink.type_" => { let s: m::ResourceLink = arg(s, 0)?;  let r = m::ResourceLink::type_(&s); Ok(out!(r)) }
        "ResourceLink.type_value" => {  let r = m::ResourceLink::type_value(); Ok(out!(r)) }
        "ResourceLink.type_name" => {  let r = m::ResourceLink::type_name(); Ok(out!(r)) }
        "ResourceListChangedNotification.new" => { let a0: ::std::option::Option<m::ResourceListChangedNotificationParams> = arg(a, 0)?; let r = m::ResourceListChangedNotification::new(a0); Ok(out!(r)) }
        "ResourceListChangedNotification.method" => { let s: m::ResourceListChangedNotification = arg(s, 0)?;  let r = m::ResourceListChangedNotification::method(&s); Ok(out!(r)) }
        "ResourceListChangedNotification.method_value" => {  let r = m::ResourceListChangedNotification::method_value(); Ok(out!(r)) }
        "ResourceListChangedNotification.method_name" => {  let r = m::ResourceListChangedNotification::method_name(); Ok(out!(r)) }
        "ResourceTemplateReference.new" => { let a0: ::std::string::String = arg(a, 0)?; let r = m::ResourceTemplateReference::new(a0); Ok(out!(r)) }
        "ResourceTemplateReference.type_" => { let s: m::ResourceTemplateReference = arg(s, 0)?;  let r = m::ResourceTemplateReference::type_(&s); Ok(out!(r)) }
        "ResourceTemplateReference.type_value" => {  let r = m::ResourceTemplateReference::type_value(); Ok(out!(r)) }
        "ResourceTemplateReference.type_name" => {  let r = m::ResourceTemplateReference::type_name(); Ok(out!(r)) }
        "ResourceUpdatedNotification.new" => { let a0: m::ResourceUpdatedNotificationParams = arg(a, 0)?; let r = m::ResourceUpdatedNotification::new(a0); Ok(out!(r)) }
        "ResourceUpdatedNotification.method" => { let s: m::ResourceUpdatedNotification = arg(s, 0)?;  let r = m::ResourceUpdatedNotification::method(&s); Ok(out!(r)) }
        "ResourceUpdatedNotification.method_value" => {  let r = m::ResourceUpdatedNotification::method_value(); Ok(out!(r)) }
        "ResourceUpdatedNotification.method_name" => {  let r = m::ResourceUpdatedNotification::method_name(); Ok(out!(r)) }
        "Role.Display" => { let s: m::Role = arg(s, 0)?; Ok(s.to_string().view()) }
        "RootsListChangedNotification.new" => { let a0: ::std::option::Option<m::RootsListChangedNotificationParams> = arg(a, 0)?; let r = m::RootsListChangedNotification::new(a0); Ok(out!(r)) }
        "RootsListChangedNotification.method" => { let s: m::RootsListChangedNotification = arg(s, 0)?;  let r = m::RootsListChangedNotification::method(&s); Ok(out!(r)) }
        "RootsListChangedNotification.method_value" => {  let r = m::RootsListChangedNotification::method_value(); Ok(out!(r)) }
        "RootsListChangedNotification.method_name" => {  let r = m::RootsListChangedNotification::method_name(); Ok(out!(r)) }
        "SamplingMessageContent.From<TextContent>" => { let a0: m::TextContent = arg(a, 0)?; let r: m::SamplingMessageContent = From::from(a0); Ok(out!(r)) }
        "SamplingMessageContent.From<ImageContent>" => { let a0: m::ImageContent = arg(a, 0)?; let r: m::SamplingMessageContent = From::from(a0); Ok(out!(r)) }
        "SamplingMessageContent.From<AudioContent>" => { let a0: m::AudioContent = arg(a, 0)?; let r: m::SamplingMessageContent = From::from(a0); Ok(out!(r)) }
        "ServerNotification.From<CancelledNotification>" => { let a0: m::CancelledNotification = arg(a, 0)?; let r: m::ServerNotification = From::from(a0); Ok(out!(r)) }
        "ServerNotification.From<ProgressNotification>" => { let a0: m::ProgressNotification = arg(a, 0)?; let r: m::ServerNotification = From::from(a0); Ok(out!(r)) }
        "ServerNotification.From<ResourceListChangedNotification>" => { let a0: m::ResourceListChangedNotification = arg(a, 0)?; let r: m::ServerNotification = From::from(a0); Ok(out!(r)) }
        "ServerNotification.From<ResourceUpdatedNotification>" => { let a0: m::ResourceUpdatedNotification = arg(a, 0)?; let r: m::ServerNotification = From::from(a0); Ok(out!(r)) }
        "ServerNotification.From<PromptListChangedNotification>" => { let a0: m::PromptListChangedNotification = arg(a, 0)?; let r: m::ServerNotification = From::from(a0); Ok(out!(r)) }
        "ServerNotification.From<ToolListChangedNotification>" => { let a0: m::ToolListChangedNotification = arg(a, 0)?; let r: m::ServerNotification = From::from(a0); Ok(out!(r)) }
        "ServerNotification.From<LoggingMessageNotification>" => { let a0: m::LoggingMessageNotification = arg(a, 0)?; let r: m::ServerNotification = From::from(a0); Ok(out!(r)) }
        "ServerRequest.From<PingRequest>" => { let a0: m::PingRequest = arg(a, 0)?; let r: m::ServerRequest = From::from(a0); Ok(out!(r)) }
        "ServerRequest.From<CreateMessageRequest>" => { let a0: m::CreateMessageRequest = arg(a, 0)?; let r: m::ServerRequest = From::from(a0); Ok(out!(r)) }
        "ServerRequest.From<ListRootsRequest>" => { let a0: m::ListRootsRequest = arg(a, 0)?; let r: m::ServerRequest = From::from(a0); Ok(out!(r)) }
        "ServerRequest.From<ElicitRequest>" => { let a0: m::ElicitRequest = arg(a, 0)?; let r: m::ServerRequest = From::from(a0); Ok(out!(r)) }
        "ServerResult.From<InitializeResult>" => { let a0: m::InitializeResult = arg(a, 0)?; let r: m::ServerResult = From::from(a0); Ok(out!(r)) }
        "ServerResult.From<ListResourcesResult>" => { let a0: m::ListResourcesResult = arg(a, 0)?; let r: m::ServerResult = From::from(a0); Ok(out!(r)) }
        "ServerResult.From<ListResourceTemplatesResult>" => { let a0: m::ListResourceTemplatesResult = arg(a, 0)?; let r: m::ServerResult = From::from(a0); Ok(out!(r)) }
        "ServerResult.From<ReadResourceResult>" => { let a0: m::ReadResourceResult = arg(a, 0)?; let r: m::ServerResult = From::from(a0); Ok(out!(r)) }
        "ServerResult.From<ListPromptsResult>" => { let a0: m::ListPromptsResult = arg(a, 0)?; let r: m::ServerResult = From::from(a0); Ok(out!(r)) }
        "ServerResult.From<GetPromptResult>" => { let a0: m::GetPromptResult = arg(a, 0)?; let r: m::ServerResult = From::from(a0); Ok(out!(r)) }
        "ServerResult.From<ListToolsResult>" => { let a0: m::ListToolsResult = arg(a, 0)?; let r: m::ServerResult = From::from(a0); Ok(out!(r)) }
        "ServerResult.From<CallToolResult>" => { let a0: m::CallToolResult = arg(a, 0)?; let r: m::ServerResult = From::from(a0); Ok(out!(r)) }
        "ServerResult.From<CompleteResult>" => { let a0: m::CompleteResult = arg(a, 0)?; let r: m::ServerResult = From::from(a0); Ok(out!(r)) }
        "ServerResult.From<Result>" => { let a0: m::Result = arg(a, 0)?; let r: m::ServerResult = From::from(a0); Ok(out!(r)) }
        "SetLevelRequest.new" => { let a0: m::SetLevelRequestParams = arg(a, 0)?; let r = m::SetLevelRequest::new(a0); Ok(out!(r)) }
        "SetLevelRequest.method" => { let s: m::SetLevelRequest = arg(s, 0)?;  let r = m::SetLevelRequest::method(&s); Ok(out!(r)) }
        "SetLevelRequest.method_value" => {  let r = m::SetLevelRequest::method_value(); Ok(out!(r)) }
        "SetLevelRequest.method_name" => {  let r = m::SetLevelRequest::method_name(); Ok(out!(r)) }
        "StringSchema.new" => { let a0: ::std::option::Option<::std::string::String> = arg(a, 0)?; let a1: ::std::option::Option<m::StringSchemaFormat> = arg(a, 1)?; let a2: ::std::option::Option<i64> = arg(a, 2)?; let a3: ::std::option::Option<i64> = arg(a, 3)?; let a4: ::std::option::Option<::std::string::String> = arg(a, 4)?; let r = m::StringSchema::new(a0, a1, a2, a3, a4); Ok(out!(r)) }
        "StringSchema.type_" => { let s: m::StringSchema = arg(s, 0)?;  let r = m::StringSchema::type_(&s); Ok(out!(r)) }
        "StringSchema.type_value" => {  let r = m::StringSchema::type_value(); Ok(out!(r)) }
        "StringSchema.type_name" => {  let r = m::StringSchema::type_name(); Ok(out!(r)) }
        "StringSchemaFormat.Display" => { let s: m::StringSchemaFormat = arg(s, 0)?; Ok(s.to_string().view()) }
        "SubscribeRequest.new" => { let a0: m::SubscribeRequestParams = arg(a, 0)?; let r = m::SubscribeRequest::new(a0); Ok(out!(r)) }
        "SubscribeRequest.method" => { let s: m::SubscribeRequest = arg(s, 0)?;  let r = m::SubscribeRequest::method(&s); Ok(out!(r)) }
        "SubscribeRequest.method_value" => {  let r = m::SubscribeRequest::method_value(); Ok(out!(r)) }
        "SubscribeRequest.method_name" => {  let r = m::SubscribeRequest::method_name(); Ok(out!(r)) }
        "TextContent.new" => { let a0: ::std::string::String = arg(a, 0)?; let a1: ::std::option::Option<m::Annotations> = arg(a, 1)?; let a2: ::std::option::Option<::serde_json::Map<::std::string::String,::serde_json::Value>> = arg(a, 2)?; let r = m::TextContent::new(a0, a1, a2); Ok(out!(r)) }
        "TextContent.type_" => { let s: m::TextContent = arg(s, 0)?;  let r = m::TextContent::type_(&s); Ok(out!(r)) }
        "TextContent.type_value" => {  let r = m::TextContent::type_value(); Ok(out!(r)) }
        "TextContent.type_name" => {  let r = m::TextContent::type_name(); Ok(out!(r)) }
        "ToolInputSchema.new" => { let a0: ::std::vec::Vec<::std::string::String> = arg(a, 0)?; let a1: ::std::option::Option<std::collections::BTreeMap<::std::string::String,::serde_json::Map<::std::string::String,::serde_json::Value>>,> = arg(a, 1)?; let r = m::ToolInputSchema::new(a0, a1); Ok(out!(r)) }
        "ToolInputSchema.type_" => { let s: m::ToolInputSchema = arg(s, 0)?;  let r = m::ToolInputSchema::type_(&s); Ok(out!(r)) }
        "ToolInputSchema.type_value" => {  let r = m::ToolInputSchema::type_value(); Ok(out!(r)) }
        "ToolInputSchema.type_name" => {  let r = m::ToolInputSchema::type_name(); Ok(out!(r)) }
        "ToolListChangedNotification.new" => { let a0: ::std::option::Option<m::ToolListChangedNotificationParams> = arg(a, 0)?; let r = m::ToolListChangedNotification::new(a0); Ok(out!(r)) }
        "ToolListChangedNotification.method" => { let s: m::ToolListChangedNotification = arg(s, 0)?;  let r = m::ToolListChangedNotification::method(&s); Ok(out!(r)) }
        "ToolListChangedNotification.method_value" => {  let r = m::ToolListChangedNotification::method_value(); Ok(out!(r)) }
        "ToolListChangedNotification.method_name" => {  let r = m::ToolListChangedNotification::method_name(); Ok(out!(r)) }
        "ToolOutputSchema.new" => { let a0: ::std::vec::Vec<::std::string::String> = arg(a, 0)?; let a1: ::std::option::Option<std::collections::BTreeMap<::std::string::String,::serde_json::Map<::std::string::String,::serde_json::Value>>,> = arg(a, 1)?; let r = m::ToolOutputSchema::new(a0, a1); Ok(out!(r)) }
        "ToolOutputSchema.type_" => { let s: m::ToolOutputSchema = arg(s, 0)?;  let r = m::ToolOutputSchema::type_(&s); Ok(out!(r)) }
        "ToolOutputSchema.type_value" => {  let r = m::ToolOutputSchema::type_value(); Ok(out!(r)) }
        "ToolOutputSchema.type_name" => {  let r = m::ToolOutputSchema::type_name(); Ok(out!(r)) }
        "UnsubscribeRequest.new" => { let a0: m::UnsubscribeRequestParams = arg(a, 0)?; let r = m::UnsubscribeRequest::new(a0); Ok(out!(r)) }
        "UnsubscribeRequest.method" => { let s: m::UnsubscribeRequest = arg(s, 0)?;  let r = m::UnsubscribeRequest::method(&s); Ok(out!(r)) }
        "UnsubscribeRequest.method_value" => {  let r = m::UnsubscribeRequest::method_value(); Ok(out!(r)) }
        "UnsubscribeRequest.method_name" => {  let r = m::UnsubscribeRequest::method_name(); Ok(out!(r)) }
        "ClientRequest.method" => { let s: m::ClientRequest = arg(s, 0)?;  let r = m::ClientRequest::method(&s); Ok(out!(r)) }
        "ClientNotification.method" => { let s: m::ClientNotification = arg(s, 0)?;  let r = m::ClientNotification::method(&s); Ok(out!(r)) }
        "ServerRequest.method" => { let s: m::ServerRequest = arg(s, 0)?;  let r = m::ServerRequest::method(&s); Ok(out!(r)) }
        "ServerNotification.method" => { let s: m::ServerNotification = arg(s, 0)?;  let r = m::ServerNotification::method(&s); Ok(out!(r)) }
        "GenericResult.From<InitializeResult>" => { let a0: m::InitializeResult = arg(a, 0)?; let r: m::GenericResult = From::from(a0); Ok(out!(r)) }
        "GenericResult.From<ListResourcesResult>" => { let a0: m::ListResourcesResult = arg(a, 0)?; let r: m::GenericResult = From::from(a0); Ok(out!(r)) }
        "GenericResult.From<ListResourceTemplatesResult>" => { let a0: m::ListResourceTemplatesResult = arg(a, 0)?; let r: m::GenericResult = From::from(a0); Ok(out!(r)) }
        "GenericResult.From<ReadResourceResult>" => { let a0: m::ReadResourceResult = arg(a, 0)?; let r: m::GenericResult = From::from(a0); Ok(out!(r)) }
        "GenericResult.From<ListPromptsResult>" => { let a0: m::ListPromptsResult = arg(a, 0)?; let r: m::GenericResult = From::from(a0); Ok(out!(r)) }
        "GenericResult.From<GetPromptResult>" => { let a0: m::GetPromptResult = arg(a, 0)?; let r: m::GenericResult = From::from(a0); Ok(out!(r)) }
        "GenericResult.From<ListToolsResult>" => { let a0: m::ListToolsResult = arg(a, 0)?; let r: m::GenericResult = From::from(a0); Ok(out!(r)) }
        "GenericResult.From<CallToolResult>" => { let a0: m::CallToolResult = arg(a, 0)?; let r: m::GenericResult = From::from(a0); Ok(out!(r)) }
        "GenericResult.From<CompleteResult>" => { let a0: m::CompleteResult = arg(a, 0)?; let r: m::GenericResult = From::from(a0); Ok(out!(r)) }
        "MessageTypes.Display" => { let s: u::MessageTypes = arg(s, 0)?; Ok(s.to_string().view()) }
        "RequestId.Display" => { let s: m::RequestId = arg(s, 0)?; Ok(s.to_string().view()) }
        "ClientMessage.as_response" => { let s: u::ClientMessage = arg(s, 0)?;  let r = u::ClientMessage::as_response(s); Ok(out!(r)) }
        "ClientMessage.as_request" => { let s: u::ClientMessage = arg(s, 0)?;  let r = u::ClientMessage::as_request(s); Ok(out!(r)) }
        "ClientMessage.as_notification" => { let s: u::ClientMessage = arg(s, 0)?;  let r = u::ClientMessage::as_notification(s); Ok(out!(r)) }
        "ClientMessage.as_error" => { let s: u::ClientMessage = arg(s, 0)?;  let r = u::ClientMessage::as_error(s); Ok(out!(r)) }
        "ClientMessage.is_initialize_request" => { let s: u::ClientMessage = arg(s, 0)?;  let r = u::ClientMessage::is_initialize_request(&s); Ok(out!(r)) }
        "ClientMessage.is_initialized_notification" => { let s: u::ClientMessage = arg(s, 0)?;  let r = u::ClientMessage::is_initialized_notification(&s); Ok(out!(r)) }
        "ClientMessage.From<ClientJsonrpcNotification>" => { let a0: u::ClientJsonrpcNotification = arg(a, 0)?; let r: u::ClientMessage = From::from(a0); Ok(out!(r)) }
        "ClientMessage.From<ClientJsonrpcRequest>" => { let a0: u::ClientJsonrpcRequest = arg(a, 0)?; let r: u::ClientMessage = From::from(a0); Ok(out!(r)) }
        "ClientMessage.From<ClientJsonrpcResponse>" => { let a0: u::ClientJsonrpcResponse = arg(a, 0)?; let r: u::ClientMessage = From::from(a0); Ok(out!(r)) }
        "ClientMessage.request_id" => { let s: u::ClientMessage = arg(s, 0)?;  let r = <u::ClientMessage as u::RpcMessage>::request_id(&s); Ok(out!(r)) }
        "ClientMessage.jsonrpc" => { let s: u::ClientMessage = arg(s, 0)?;  let r = <u::ClientMessage as u::RpcMessage>::jsonrpc(&s); Ok(out!(r)) }
        "ClientMessage.is_response" => { let s: u::ClientMessage = arg(s, 0)?;  let r = <u::ClientMessage as u::McpMessage>::is_response(&s); Ok(out!(r)) }
        "ClientMessage.is_request" => { let s: u::ClientMessage = arg(s, 0)?;  let r = <u::ClientMessage as u::McpMessage>::is_request(&s); Ok(out!(r)) }
        "ClientMessage.is_notification" => { let s: u::ClientMessage = arg(s, 0)?;  let r = <u::ClientMessage as u::McpMessage>::is_notification(&s); Ok(out!(r)) }
        "ClientMessage.is_error" => { let s: u::ClientMessage = arg(s, 0)?;  let r = <u::ClientMessage as u::McpMessage>::is_error(&s); Ok(out!(r)) }
        "ClientMessage.message_type" => { let s: u::ClientMessage = arg(s, 0)?;  let r = <u::ClientMessage as u::McpMessage>::message_type(&s); Ok(out!(r)) }
        "ClientJsonrpcRequest.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: u::RequestFromClient = arg(a, 1)?; let r = u::ClientJsonrpcRequest::new(a0, a1); Ok(out!(r)) }
        "ClientJsonrpcRequest.jsonrpc" => { let s: u::ClientJsonrpcRequest = arg(s, 0)?;  let r = u::ClientJsonrpcRequest::jsonrpc(&s); Ok(out!(r)) }
        "ClientJsonrpcRequest.Display" => { let s: u::ClientJsonrpcRequest = arg(s, 0)?; Ok(s.to_string().view()) }
        "ClientJsonrpcRequest.FromStr" => { let a0: String = arg(a, 0)?; let r: Result<u::ClientJsonrpcRequest, _> = std::str::FromStr::from_str(&a0); let o = out!(r); Ok(readers(&a0, &r, o)) }
        "ClientRequest.TryFrom<RequestFromClient>" => { let a0: u::RequestFromClient = arg(a, 0)?; let r: Result<m::ClientRequest, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "RequestFromClient.method" => { let s: u::RequestFromClient = arg(s, 0)?;  let r = u::RequestFromClient::method(&s); Ok(out!(r)) }
        "RequestFromClient.is_initialize_request" => { let s: u::RequestFromClient = arg(s, 0)?;  let r = u::RequestFromClient::is_initialize_request(&s); Ok(out!(r)) }
        "RequestFromClient.From<ClientRequest>" => { let a0: m::ClientRequest = arg(a, 0)?; let r: u::RequestFromClient = From::from(a0); Ok(out!(r)) }
        "RequestFromClient.From<Value>" => { let a0: serde_json::Value = arg(a, 0)?; let r: u::RequestFromClient = From::from(a0); Ok(out!(r)) }
        "ClientJsonrpcNotification.new" => { let a0: u::NotificationFromClient = arg(a, 0)?; let r = u::ClientJsonrpcNotification::new(a0); Ok(out!(r)) }
        "ClientJsonrpcNotification.jsonrpc" => { let s: u::ClientJsonrpcNotification = arg(s, 0)?;  let r = u::ClientJsonrpcNotification::jsonrpc(&s); Ok(out!(r)) }
        "ClientJsonrpcNotification.Display" => { let s: u::ClientJsonrpcNotification = arg(s, 0)?; Ok(s.to_string().view()) }
        "ClientJsonrpcNotification.FromStr" => { let a0: String = arg(a, 0)?; let r: Result<u::ClientJsonrpcNotification, _> = std::str::FromStr::from_str(&a0); let o = out!(r); Ok(readers(&a0, &r, o)) }
        "ClientNotification.TryFrom<NotificationFromClient>" => { let a0: u::NotificationFromClient = arg(a, 0)?; let r: Result<m::ClientNotification, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "NotificationFromClient.is_initialized_notification" => { let s: u::NotificationFromClient = arg(s, 0)?;  let r = u::NotificationFromClient::is_initialized_notification(&s); Ok(out!(r)) }
        "ClientJsonrpcResponse.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: u::ResultFromClient = arg(a, 1)?; let r = u::ClientJsonrpcResponse::new(a0, a1); Ok(out!(r)) }
        "ClientJsonrpcResponse.jsonrpc" => { let s: u::ClientJsonrpcResponse = arg(s, 0)?;  let r = u::ClientJsonrpcResponse::jsonrpc(&s); Ok(out!(r)) }
        "ClientJsonrpcResponse.Display" => { let s: u::ClientJsonrpcResponse = arg(s, 0)?; Ok(s.to_string().view()) }
        "ClientJsonrpcResponse.FromStr" => { let a0: String = arg(a, 0)?; let r: Result<u::ClientJsonrpcResponse, _> = std::str::FromStr::from_str(&a0); let o = out!(r); Ok(readers(&a0, &r, o)) }
        "ClientResult.TryFrom<ResultFromClient>" => { let a0: u::ResultFromClient = arg(a, 0)?; let r: Result<m::ClientResult, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "ResultFromClient.From<ClientResult>" => { let a0: m::ClientResult = arg(a, 0)?; let r: u::ResultFromClient = From::from(a0); Ok(out!(r)) }
        "ResultFromClient.From<Value>" => { let a0: serde_json::Value = arg(a, 0)?; let r: u::ResultFromClient = From::from(a0); Ok(out!(r)) }
        "ClientMessage.FromStr" => { let a0: String = arg(a, 0)?; let r: Result<u::ClientMessage, _> = std::str::FromStr::from_str(&a0); let o = out!(r); Ok(readers(&a0, &r, o)) }
        "ClientMessage.Display" => { let s: u::ClientMessage = arg(s, 0)?; Ok(s.to_string().view()) }
        "ServerMessage.as_response" => { let s: u::ServerMessage = arg(s, 0)?;  let r = u::ServerMessage::as_response(s); Ok(out!(r)) }
        "ServerMessage.as_request" => { let s: u::ServerMessage = arg(s, 0)?;  let r = u::ServerMessage::as_request(s); Ok(out!(r)) }
        "ServerMessage.as_notification" => { let s: u::ServerMessage = arg(s, 0)?;  let r = u::ServerMessage::as_notification(s); Ok(out!(r)) }
        "ServerMessage.as_error" => { let s: u::ServerMessage = arg(s, 0)?;  let r = u::ServerMessage::as_error(s); Ok(out!(r)) }
        "ServerMessage.From<ServerJsonrpcNotification>" => { let a0: u::ServerJsonrpcNotification = arg(a, 0)?; let r: u::ServerMessage = From::from(a0); Ok(out!(r)) }
        "ServerMessage.From<ServerJsonrpcRequest>" => { let a0: u::ServerJsonrpcRequest = arg(a, 0)?; let r: u::ServerMessage = From::from(a0); Ok(out!(r)) }
        "ServerMessage.From<ServerJsonrpcResponse>" => { let a0: u::ServerJsonrpcResponse = arg(a, 0)?; let r: u::ServerMessage = From::from(a0); Ok(out!(r)) }
        "ServerMessage.request_id" => { let s: u::ServerMessage = arg(s, 0)?;  let r = <u::ServerMessage as u::RpcMessage>::request_id(&s); Ok(out!(r)) }
        "ServerMessage.jsonrpc" => { let s: u::ServerMessage = arg(s, 0)?;  let r = <u::ServerMessage as u::RpcMessage>::jsonrpc(&s); Ok(out!(r)) }
        "ServerMessage.is_response" => { let s: u::ServerMessage = arg(s, 0)?;  let r = <u::ServerMessage as u::McpMessage>::is_response(&s); Ok(out!(r)) }
        "ServerMessage.is_request" => { let s: u::ServerMessage = arg(s, 0)?;  let r = <u::ServerMessage as u::McpMessage>::is_request(&s); Ok(out!(r)) }
        "ServerMessage.is_notification" => { let s: u::ServerMessage = arg(s, 0)?;  let r = <u::ServerMessage as u::McpMessage>::is_notification(&s); Ok(out!(r)) }
        "ServerMessage.is_error" => { let s: u::ServerMessage = arg(s, 0)?;  let r = <u::ServerMessage as u::McpMessage>::is_error(&s); Ok(out!(r)) }
        "ServerMessage.message_type" => { let s: u::ServerMessage = arg(s, 0)?;  let r = <u::ServerMessage as u::McpMessage>::message_type(&s); Ok(out!(r)) }
        "ServerMessage.FromStr" => { let a0: String = arg(a, 0)?; let r: Result<u::ServerMessage, _> = std::str::FromStr::from_str(&a0); let o = out!(r); Ok(readers(&a0, &r, o)) }
        "ServerMessage.Display" => { let s: u::ServerMessage = arg(s, 0)?; Ok(s.to_string().view()) }
        "ServerJsonrpcRequest.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: u::RequestFromServer = arg(a, 1)?; let r = u::ServerJsonrpcRequest::new(a0, a1); Ok(out!(r)) }
        "ServerJsonrpcRequest.jsonrpc" => { let s: u::ServerJsonrpcRequest = arg(s, 0)?;  let r = u::ServerJsonrpcRequest::jsonrpc(&s); Ok(out!(r)) }
        "ServerJsonrpcRequest.Display" => { let s: u::ServerJsonrpcRequest = arg(s, 0)?; Ok(s.to_string().view()) }
        "ServerJsonrpcRequest.FromStr" => { let a0: String = arg(a, 0)?; let r: Result<u::ServerJsonrpcRequest, _> = std::str::FromStr::from_str(&a0); let o = out!(r); Ok(readers(&a0, &r, o)) }
        "ServerRequest.TryFrom<RequestFromServer>" => { let a0: u::RequestFromServer = arg(a, 0)?; let r: Result<m::ServerRequest, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "RequestFromServer.method" => { let s: u::RequestFromServer = arg(s, 0)?;  let r = u::RequestFromServer::method(&s); Ok(out!(r)) }
        "RequestFromServer.From<ServerRequest>" => { let a0: m::ServerRequest = arg(a, 0)?; let r: u::RequestFromServer = From::from(a0); Ok(out!(r)) }
        "RequestFromServer.From<Value>" => { let a0: serde_json::Value = arg(a, 0)?; let r: u::RequestFromServer = From::from(a0); Ok(out!(r)) }
        "ServerJsonrpcNotification.new" => { let a0: u::NotificationFromServer = arg(a, 0)?; let r = u::ServerJsonrpcNotification::new(a0); Ok(out!(r)) }
        "ServerJsonrpcNotification.jsonrpc" => { let s: u::ServerJsonrpcNotification = arg(s, 0)?;  let r = u::ServerJsonrpcNotification::jsonrpc(&s); Ok(out!(r)) }
        "ServerJsonrpcNotification.Display" => { let s: u::ServerJsonrpcNotification = arg(s, 0)?; Ok(s.to_string().view()) }
        "ServerJsonrpcNotification.FromStr" => { let a0: String = arg(a, 0)?; let r: Result<u::ServerJsonrpcNotification, _> = std::str::FromStr::from_str(&a0); let o = out!(r); Ok(readers(&a0, &r, o)) }
        "ServerNotification.TryFrom<NotificationFromServer>" => { let a0: u::NotificationFromServer = arg(a, 0)?; let r: Result<m::ServerNotification, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "NotificationFromServer.method" => { let s: u::NotificationFromServer = arg(s, 0)?;  let r = u::NotificationFromServer::method(&s); Ok(out!(r)) }
        "ServerJsonrpcResponse.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: u::ResultFromServer = arg(a, 1)?; let r = u::ServerJsonrpcResponse::new(a0, a1); Ok(out!(r)) }
        "ServerJsonrpcResponse.jsonrpc" => { let s: u::ServerJsonrpcResponse = arg(s, 0)?;  let r = u::ServerJsonrpcResponse::jsonrpc(&s); Ok(out!(r)) }
        "ServerJsonrpcResponse.Display" => { let s: u::ServerJsonrpcResponse = arg(s, 0)?; Ok(s.to_string().view()) }
        "ServerJsonrpcResponse.FromStr" => { let a0: String = arg(a, 0)?; let r: Result<u::ServerJsonrpcResponse, _> = std::str::FromStr::from_str(&a0); let o = out!(r); Ok(readers(&a0, &r, o)) }
        "ServerResult.TryFrom<ResultFromServer>" => { let a0: u::ResultFromServer = arg(a, 0)?; let r: Result<m::ServerResult, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "ResultFromServer.From<ServerResult>" => { let a0: m::ServerResult = arg(a, 0)?; let r: u::ResultFromServer = From::from(a0); Ok(out!(r)) }
        "ResultFromServer.From<Value>" => { let a0: serde_json::Value = arg(a, 0)?; let r: u::ResultFromServer = From::from(a0); Ok(out!(r)) }
        "JsonrpcError.Display" => { let s: m::JsonrpcError = arg(s, 0)?; Ok(s.to_string().view()) }
        "JsonrpcError.FromStr" => { let a0: String = arg(a, 0)?; let r: Result<m::JsonrpcError, _> = std::str::FromStr::from_str(&a0); let o = out!(r); Ok(readers(&a0, &r, o)) }
        "MessageFromServer.From<RequestFromServer>" => { let a0: u::RequestFromServer = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.From<ResultFromServer>" => { let a0: u::ResultFromServer = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.From<NotificationFromServer>" => { let a0: u::NotificationFromServer = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.From<RpcError>" => { let a0: m::RpcError = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.is_response" => { let s: u::MessageFromServer = arg(s, 0)?;  let r = <u::MessageFromServer as u::McpMessage>::is_response(&s); Ok(out!(r)) }
        "MessageFromServer.is_request" => { let s: u::MessageFromServer = arg(s, 0)?;  let r = <u::MessageFromServer as u::McpMessage>::is_request(&s); Ok(out!(r)) }
        "MessageFromServer.is_notification" => { let s: u::MessageFromServer = arg(s, 0)?;  let r = <u::MessageFromServer as u::McpMessage>::is_notification(&s); Ok(out!(r)) }
        "MessageFromServer.is_error" => { let s: u::MessageFromServer = arg(s, 0)?;  let r = <u::MessageFromServer as u::McpMessage>::is_error(&s); Ok(out!(r)) }
        "MessageFromServer.message_type" => { let s: u::MessageFromServer = arg(s, 0)?;  let r = <u::MessageFromServer as u::McpMessage>::message_type(&s); Ok(out!(r)) }
        "ServerMessage.FromMessage<MessageFromServer>" => { let a0: u::MessageFromServer = arg(a, 0)?; let a1: Option<m::RequestId> = arg(a, 1)?; let r = <u::ServerMessage as u::FromMessage<u::MessageFromServer>>::from_message(a0, a1); Ok(out!(r)) }
        "MessageFromClient.is_initialize_request" => { let s: u::MessageFromClient = arg(s, 0)?;  let r = u::MessageFromClient::is_initialize_request(&s); Ok(out!(r)) }
        "MessageFromClient.is_initialized_notification" => { let s: u::MessageFromClient = arg(s, 0)?;  let r = u::MessageFromClient::is_initialized_notification(&s); Ok(out!(r)) }
        "MessageFromClient.From<RequestFromClient>" => { let a0: u::RequestFromClient = arg(a, 0)?; let r: u::MessageFromClient = From::from(a0); Ok(out!(r)) }
        "MessageFromClient.From<ResultFromClient>" => { let a0: u::ResultFromClient = arg(a, 0)?; let r: u::MessageFromClient = From::from(a0); Ok(out!(r)) }
        "MessageFromClient.From<NotificationFromClient>" => { let a0: u::NotificationFromClient = arg(a, 0)?; let r: u::MessageFromClient = From::from(a0); Ok(out!(r)) }
        "MessageFromClient.From<RpcError>" => { let a0: m::RpcError = arg(a, 0)?; let r: u::MessageFromClient = From::from(a0); Ok(out!(r)) }
        "MessageFromClient.is_response" => { let s: u::MessageFromClient = arg(s, 0)?;  let r = <u::MessageFromClient as u::McpMessage>::is_response(&s); Ok(out!(r)) }
        "MessageFromClient.is_request" => { let s: u::MessageFromClient = arg(s, 0)?;  let r = <u::MessageFromClient as u::McpMessage>::is_request(&s); Ok(out!(r)) }
        "MessageFromClient.is_notification" => { let s: u::MessageFromClient = arg(s, 0)?;  let r = <u::MessageFromClient as u::McpMessage>::is_notification(&s); Ok(out!(r)) }
        "MessageFromClient.is_error" => { let s: u::MessageFromClient = arg(s, 0)?;  let r = <u::MessageFromClient as u::McpMessage>::is_error(&s); Ok(out!(r)) }
        "MessageFromClient.message_type" => { let s: u::MessageFromClient = arg(s, 0)?;  let r = <u::MessageFromClient as u::McpMessage>::message_type(&s); Ok(out!(r)) }
        "ClientMessage.FromMessage<MessageFromClient>" => { let a0: u::MessageFromClient = arg(a, 0)?; let a1: Option<m::RequestId> = arg(a, 1)?; let r = <u::ClientMessage as u::FromMessage<u::MessageFromClient>>::from_message(a0, a1); Ok(out!(r)) }
        "UnknownTool.Display" => { let s: u::UnknownTool = arg(s, 0)?; Ok(s.to_string().view()) }
        "CallToolError.unknown_tool" => { let a0: String = arg(a, 0)?; let r = u::CallToolError::unknown_tool(a0); Ok(out!(r)) }
        "CallToolError.invalid_arguments" => { let a0: String = arg(a, 0)?; let a1: Option<String> = arg(a, 1)?; let r = u::CallToolError::invalid_arguments(a0, a1); Ok(out!(r)) }
        "CallToolError.from_message" => { let a0: String = arg(a, 0)?; let r = u::CallToolError::from_message(a0); Ok(out!(r)) }
        "RpcError.From<CallToolError>" => { let a0: u::CallToolError = arg(a, 0)?; let r: m::RpcError = From::from(a0); Ok(out!(r)) }
        "CallToolResult.From<CallToolError>" => { let a0: u::CallToolError = arg(a, 0)?; let r: m::CallToolResult = From::from(a0); Ok(out!(r)) }
        "CallToolError.Display" => { let s: u::CallToolError = arg(s, 0)?; Ok(s.to_string().view()) }
        "CallToolRequest.tool_name" => { let s: m::CallToolRequest = arg(s, 0)?;  let r = m::CallToolRequest::tool_name(&s); Ok(out!(r)) }
        "TextContent.From<T>" => { let a0: String = arg(a, 0)?; let r: m::TextContent = From::from(a0); Ok(out!(r)) }
        "ClientMessages.is_batch" => { let s: u::ClientMessages = arg(s, 0)?;  let r = u::ClientMessages::is_batch(&s); Ok(out!(r)) }
        "ClientMessages.includes_request" => { let s: u::ClientMessages = arg(s, 0)?;  let r = u::ClientMessages::includes_request(&s); Ok(out!(r)) }
        "ClientMessages.as_single" => { let s: u::ClientMessages = arg(s, 0)?;  let r = u::ClientMessages::as_single(s); Ok(out!(r)) }
        "ClientMessages.as_batch" => { let s: u::ClientMessages = arg(s, 0)?;  let r = u::ClientMessages::as_batch(s); Ok(out!(r)) }
        "ClientMessages.From<ClientMessage>" => { let a0: u::ClientMessage = arg(a, 0)?; let r: u::ClientMessages = From::from(a0); Ok(out!(r)) }
        "ClientMessages.From<Vec<ClientMessage>>" => { let a0: Vec<u::ClientMessage> = arg(a, 0)?; let r: u::ClientMessages = From::from(a0); Ok(out!(r)) }
        "ClientMessages.Display" => { let s: u::ClientMessages = arg(s, 0)?; Ok(s.to_string().view()) }
        "ServerMessages.is_batch" => { let s: u::ServerMessages = arg(s, 0)?;  let r = u::ServerMessages::is_batch(&s); Ok(out!(r)) }
        "ServerMessages.includes_request" => { let s: u::ServerMessages = arg(s, 0)?;  let r = u::ServerMessages::includes_request(&s); Ok(out!(r)) }
        "ServerMessages.as_single" => { let s: u::ServerMessages = arg(s, 0)?;  let r = u::ServerMessages::as_single(s); Ok(out!(r)) }
        "ServerMessages.as_batch" => { let s: u::ServerMessages = arg(s, 0)?;  let r = u::ServerMessages::as_batch(s); Ok(out!(r)) }
        "ServerMessages.From<ServerMessage>" => { let a0: u::ServerMessage = arg(a, 0)?; let r: u::ServerMessages = From::from(a0); Ok(out!(r)) }
        "ServerMessages.From<Vec<ServerMessage>>" => { let a0: Vec<u::ServerMessage> = arg(a, 0)?; let r: u::ServerMessages = From::from(a0); Ok(out!(r)) }
        "ServerMessages.Display" => { let s: u::ServerMessages = arg(s, 0)?; Ok(s.to_string().view()) }
        "MessagesFromServer.is_batch" => { let s: u::MessagesFromServer = arg(s, 0)?;  let r = u::MessagesFromServer::is_batch(&s); Ok(out!(r)) }
        "MessagesFromServer.includes_request" => { let s: u::MessagesFromServer = arg(s, 0)?;  let r = u::MessagesFromServer::includes_request(&s); Ok(out!(r)) }
        "MessagesFromServer.as_single" => { let s: u::MessagesFromServer = arg(s, 0)?;  let r = u::MessagesFromServer::as_single(s); Ok(out!(r)) }
        "MessagesFromServer.as_batch" => { let s: u::MessagesFromServer = arg(s, 0)?;  let r = u::MessagesFromServer::as_batch(s); Ok(out!(r)) }
        "MessagesFromServer.From<MessageFromServer>" => { let a0: u::MessageFromServer = arg(a, 0)?; let r: u::MessagesFromServer = From::from(a0); Ok(out!(r)) }
        "MessagesFromServer.From<Vec<MessageFromServer>>" => { let a0: Vec<u::MessageFromServer> = arg(a, 0)?; let r: u::MessagesFromServer = From::from(a0); Ok(out!(r)) }
        "MessagesFromClient.is_batch" => { let s: u::MessagesFromClient = arg(s, 0)?;  let r = u::MessagesFromClient::is_batch(&s); Ok(out!(r)) }
        "MessagesFromClient.includes_request" => { let s: u::MessagesFromClient = arg(s, 0)?;  let r = u::MessagesFromClient::includes_request(&s); Ok(out!(r)) }
        "MessagesFromClient.as_single" => { let s: u::MessagesFromClient = arg(s, 0)?;  let r = u::MessagesFromClient::as_single(s); Ok(out!(r)) }
        "MessagesFromClient.as_batch" => { let s: u::MessagesFromClient = arg(s, 0)?;  let r = u::MessagesFromClient::as_batch(s); Ok(out!(r)) }
        "MessagesFromClient.From<MessageFromClient>" => { let a0: u::MessageFromClient = arg(a, 0)?; let r: u::MessagesFromClient = From::from(a0); Ok(out!(r)) }
        "MessagesFromClient.From<Vec<MessageFromClient>>" => { let a0: Vec<u::MessageFromClient> = arg(a, 0)?; let r: u::MessagesFromClient = From::from(a0); Ok(out!(r)) }
        "StringSchemaFormat.FromStr" => { let a0: String = arg(a, 0)?; let r: Result<m::StringSchemaFormat, _> = std::str::FromStr::from_str(&a0); Ok(out!(r)) }
        "PrimitiveSchemaDefinition.TryFrom<&Map<String,Value>>" => { let a0: serde_json::Map<String,serde_json::Value> = arg(a, 0)?; let r: Result<m::PrimitiveSchemaDefinition, _> = TryFrom::try_from(&a0); Ok(out!(r)) }
        "RequestFromClient.From<InitializeRequest>" => { let a0: m::InitializeRequest = arg(a, 0)?; let r: u::RequestFromClient = From::from(a0); Ok(out!(r)) }
        "RequestFromClient.From<PingRequest>" => { let a0: m::PingRequest = arg(a, 0)?; let r: u::RequestFromClient = From::from(a0); Ok(out!(r)) }
        "RequestFromClient.From<ListResourcesRequest>" => { let a0: m::ListResourcesRequest = arg(a, 0)?; let r: u::RequestFromClient = From::from(a0); Ok(out!(r)) }
        "RequestFromClient.From<ListResourceTemplatesRequest>" => { let a0: m::ListResourceTemplatesRequest = arg(a, 0)?; let r: u::RequestFromClient = From::from(a0); Ok(out!(r)) }
        "RequestFromClient.From<ReadResourceRequest>" => { let a0: m::ReadResourceRequest = arg(a, 0)?; let r: u::RequestFromClient = From::from(a0); Ok(out!(r)) }
        "RequestFromClient.From<SubscribeRequest>" => { let a0: m::SubscribeRequest = arg(a, 0)?; let r: u::RequestFromClient = From::from(a0); Ok(out!(r)) }
        "RequestFromClient.From<UnsubscribeRequest>" => { let a0: m::UnsubscribeRequest = arg(a, 0)?; let r: u::RequestFromClient = From::from(a0); Ok(out!(r)) }
        "RequestFromClient.From<ListPromptsRequest>" => { let a0: m::ListPromptsRequest = arg(a, 0)?; let r: u::RequestFromClient = From::from(a0); Ok(out!(r)) }
        "RequestFromClient.From<GetPromptRequest>" => { let a0: m::GetPromptRequest = arg(a, 0)?; let r: u::RequestFromClient = From::from(a0); Ok(out!(r)) }
        "RequestFromClient.From<ListToolsRequest>" => { let a0: m::ListToolsRequest = arg(a, 0)?; let r: u::RequestFromClient = From::from(a0); Ok(out!(r)) }
        "RequestFromClient.From<CallToolRequest>" => { let a0: m::CallToolRequest = arg(a, 0)?; let r: u::RequestFromClient = From::from(a0); Ok(out!(r)) }
        "RequestFromClient.From<SetLevelRequest>" => { let a0: m::SetLevelRequest = arg(a, 0)?; let r: u::RequestFromClient = From::from(a0); Ok(out!(r)) }
        "RequestFromClient.From<CompleteRequest>" => { let a0: m::CompleteRequest = arg(a, 0)?; let r: u::RequestFromClient = From::from(a0); Ok(out!(r)) }
        "MessageFromClient.From<InitializeRequest>" => { let a0: m::InitializeRequest = arg(a, 0)?; let r: u::MessageFromClient = From::from(a0); Ok(out!(r)) }
        "MessageFromClient.From<PingRequest>" => { let a0: m::PingRequest = arg(a, 0)?; let r: u::MessageFromClient = From::from(a0); Ok(out!(r)) }
        "MessageFromClient.From<ListResourcesRequest>" => { let a0: m::ListResourcesRequest = arg(a, 0)?; let r: u::MessageFromClient = From::from(a0); Ok(out!(r)) }
        "MessageFromClient.From<ListResourceTemplatesRequest>" => { let a0: m::ListResourceTemplatesRequest = arg(a, 0)?; let r: u::MessageFromClient = From::from(a0); Ok(out!(r)) }
        "MessageFromClient.From<ReadResourceRequest>" => { let a0: m::ReadResourceRequest = arg(a, 0)?; let r: u::MessageFromClient = From::from(a0); Ok(out!(r)) }
        "MessageFromClient.From<SubscribeRequest>" => { let a0: m::SubscribeRequest = arg(a, 0)?; let r: u::MessageFromClient = From::from(a0); Ok(out!(r)) }
        "MessageFromClient.From<UnsubscribeRequest>" => { let a0: m::UnsubscribeRequest = arg(a, 0)?; let r: u::MessageFromClient = From::from(a0); Ok(out!(r)) }
        "MessageFromClient.From<ListPromptsRequest>" => { let a0: m::ListPromptsRequest = arg(a, 0)?; let r: u::MessageFromClient = From::from(a0); Ok(out!(r)) }
        "MessageFromClient.From<GetPromptRequest>" => { let a0: m::GetPromptRequest = arg(a, 0)?; let r: u::MessageFromClient = From::from(a0); Ok(out!(r)) }
        "MessageFromClient.From<ListToolsRequest>" => { let a0: m::ListToolsRequest = arg(a, 0)?; let r: u::MessageFromClient = From::from(a0); Ok(out!(r)) }
        "MessageFromClient.From<CallToolRequest>" => { let a0: m::CallToolRequest = arg(a, 0)?; let r: u::MessageFromClient = From::from(a0); Ok(out!(r)) }
        "MessageFromClient.From<SetLevelRequest>" => { let a0: m::SetLevelRequest = arg(a, 0)?; let r: u::MessageFromClient = From::from(a0); Ok(out!(r)) }
        "MessageFromClient.From<CompleteRequest>" => { let a0: m::CompleteRequest = arg(a, 0)?; let r: u::MessageFromClient = From::from(a0); Ok(out!(r)) }
        "NotificationFromClient.From<CancelledNotification>" => { let a0: m::CancelledNotification = arg(a, 0)?; let r: u::NotificationFromClient = From::from(a0); Ok(out!(r)) }
        "NotificationFromClient.From<InitializedNotification>" => { let a0: m::InitializedNotification = arg(a, 0)?; let r: u::NotificationFromClient = From::from(a0); Ok(out!(r)) }
        "NotificationFromClient.From<ProgressNotification>" => { let a0: m::ProgressNotification = arg(a, 0)?; let r: u::NotificationFromClient = From::from(a0); Ok(out!(r)) }
        "NotificationFromClient.From<RootsListChangedNotification>" => { let a0: m::RootsListChangedNotification = arg(a, 0)?; let r: u::NotificationFromClient = From::from(a0); Ok(out!(r)) }
        "ClientJsonrpcNotification.From<CancelledNotification>" => { let a0: m::CancelledNotification = arg(a, 0)?; let r: u::ClientJsonrpcNotification = From::from(a0); Ok(out!(r)) }
        "ClientJsonrpcNotification.From<InitializedNotification>" => { let a0: m::InitializedNotification = arg(a, 0)?; let r: u::ClientJsonrpcNotification = From::from(a0); Ok(out!(r)) }
        "ClientJsonrpcNotification.From<ProgressNotification>" => { let a0: m::ProgressNotification = arg(a, 0)?; let r: u::ClientJsonrpcNotification = From::from(a0); Ok(out!(r)) }
        "ClientJsonrpcNotification.From<RootsListChangedNotification>" => { let a0: m::RootsListChangedNotification = arg(a, 0)?; let r: u::ClientJsonrpcNotification = From::from(a0); Ok(out!(r)) }
        "MessageFromClient.From<CancelledNotification>" => { let a0: m::CancelledNotification = arg(a, 0)?; let r: u::MessageFromClient = From::from(a0); Ok(out!(r)) }
        "MessageFromClient.From<InitializedNotification>" => { let a0: m::InitializedNotification = arg(a, 0)?; let r: u::MessageFromClient = From::from(a0); Ok(out!(r)) }
        "MessageFromClient.From<ProgressNotification>" => { let a0: m::ProgressNotification = arg(a, 0)?; let r: u::MessageFromClient = From::from(a0); Ok(out!(r)) }
        "MessageFromClient.From<RootsListChangedNotification>" => { let a0: m::RootsListChangedNotification = arg(a, 0)?; let r: u::MessageFromClient = From::from(a0); Ok(out!(r)) }
        "ResultFromClient.From<Result>" => { let a0: m::Result = arg(a, 0)?; let r: u::ResultFromClient = From::from(a0); Ok(out!(r)) }
        "ResultFromClient.From<CreateMessageResult>" => { let a0: m::CreateMessageResult = arg(a, 0)?; let r: u::ResultFromClient = From::from(a0); Ok(out!(r)) }
        "ResultFromClient.From<ListRootsResult>" => { let a0: m::ListRootsResult = arg(a, 0)?; let r: u::ResultFromClient = From::from(a0); Ok(out!(r)) }
        "ResultFromClient.From<ElicitResult>" => { let a0: m::ElicitResult = arg(a, 0)?; let r: u::ResultFromClient = From::from(a0); Ok(out!(r)) }
        "MessageFromClient.From<Result>" => { let a0: m::Result = arg(a, 0)?; let r: u::MessageFromClient = From::from(a0); Ok(out!(r)) }
        "MessageFromClient.From<CreateMessageResult>" => { let a0: m::CreateMessageResult = arg(a, 0)?; let r: u::MessageFromClient = From::from(a0); Ok(out!(r)) }
        "MessageFromClient.From<ListRootsResult>" => { let a0: m::ListRootsResult = arg(a, 0)?; let r: u::MessageFromClient = From::from(a0); Ok(out!(r)) }
        "MessageFromClient.From<ElicitResult>" => { let a0: m::ElicitResult = arg(a, 0)?; let r: u::MessageFromClient = From::from(a0); Ok(out!(r)) }
        "i64.From<SdkErrorCodes>" => { let a0: u::SdkErrorCodes = arg(a, 0)?; let r: i64 = From::from(a0); Ok(out!(r)) }
        "SdkError.Display" => { let s: u::SdkError = arg(s, 0)?; Ok(s.to_string().view()) }
        "SdkError.new" => { let a0: u::SdkErrorCodes = arg(a, 0)?; let a1: ::std::string::String = arg(a, 1)?; let a2: ::std::option::Option<::serde_json::Value> = arg(a, 2)?; let r = u::SdkError::new(a0, a1, a2); Ok(out!(r)) }
        "SdkError.connection_closed" => {  let r = u::SdkError::connection_closed(); Ok(out!(r)) }
        "SdkError.request_timeout" => { let a0: u128 = arg(a, 0)?; let r = u::SdkError::request_timeout(a0); Ok(out!(r)) }
        "SdkError.session_not_found" => {  let r = u::SdkError::session_not_found(); Ok(out!(r)) }
        "SdkError.invalid_request" => {  let r = u::SdkError::invalid_request(); Ok(out!(r)) }
        "SdkError.method_not_found" => {  let r = u::SdkError::method_not_found(); Ok(out!(r)) }
        "SdkError.invalid_params" => {  let r = u::SdkError::invalid_params(); Ok(out!(r)) }
        "SdkError.internal_error" => {  let r = u::SdkError::internal_error(); Ok(out!(r)) }
        "SdkError.parse_error" => {  let r = u::SdkError::parse_error(); Ok(out!(r)) }
        "SdkError.resource_not_found" => {  let r = u::SdkError::resource_not_found(); Ok(out!(r)) }
        "SdkError.bad_request" => {  let r = u::SdkError::bad_request(); Ok(out!(r)) }
        "SdkError.with_message" => { let s: u::SdkError = arg(s, 0)?; let a0: String = arg(a, 0)?; let r = u::SdkError::with_message(s, a0.as_str()); Ok(out!(r)) }
        "SdkError.with_data" => { let s: u::SdkError = arg(s, 0)?; let a0: ::std::option::Option<::serde_json::Value> = arg(a, 0)?; let r = u::SdkError::with_data(s, a0); Ok(out!(r)) }
        "i64.From<RpcErrorCodes>" => { let a0: u::RpcErrorCodes = arg(a, 0)?; let r: i64 = From::from(a0); Ok(out!(r)) }
        "RpcError.new" => { let a0: u::RpcErrorCodes = arg(a, 0)?; let a1: ::std::string::String = arg(a, 1)?; let a2: ::std::option::Option<::serde_json::Value> = arg(a, 2)?; let r = m::RpcError::new(a0, a1, a2); Ok(out!(r)) }
        "RpcError.method_not_found" => {  let r = m::RpcError::method_not_found(); Ok(out!(r)) }
        "RpcError.invalid_params" => {  let r = m::RpcError::invalid_params(); Ok(out!(r)) }
        "RpcError.invalid_request" => {  let r = m::RpcError::invalid_request(); Ok(out!(r)) }
        "RpcError.internal_error" => {  let r = m::RpcError::internal_error(); Ok(out!(r)) }
        "RpcError.parse_error" => {  let r = m::RpcError::parse_error(); Ok(out!(r)) }
        "RpcError.with_message" => { let s: m::RpcError = arg(s, 0)?; let a0: String = arg(a, 0)?; let r = m::RpcError::with_message(s, a0); Ok(out!(r)) }
        "RpcError.with_data" => { let s: m::RpcError = arg(s, 0)?; let a0: ::std::option::Option<::serde_json::Value> = arg(a, 0)?; let r = m::RpcError::with_data(s, a0); Ok(out!(r)) }
        "RpcError.Display" => { let s: m::RpcError = arg(s, 0)?; Ok(s.to_string().view()) }
        "RpcError.FromStr" => { let a0: String = arg(a, 0)?; let r: Result<m::RpcError, _> = std::str::FromStr::from_str(&a0); let o = out!(r); Ok(readers(&a0, &r, o)) }
        "JsonrpcError.create" => { let a0: m::RequestId = arg(a, 0)?; let a1: u::RpcErrorCodes = arg(a, 1)?; let a2: ::std::string::String = arg(a, 2)?; let a3: ::std::option::Option<::serde_json::Value> = arg(a, 3)?; let r = m::JsonrpcError::create(a0, a1, a2, a3); Ok(out!(r)) }
        "NotificationFromServer.From<CancelledNotification>" => { let a0: m::CancelledNotification = arg(a, 0)?; let r: u::NotificationFromServer = From::from(a0); Ok(out!(r)) }
        "NotificationFromServer.From<ProgressNotification>" => { let a0: m::ProgressNotification = arg(a, 0)?; let r: u::NotificationFromServer = From::from(a0); Ok(out!(r)) }
        "NotificationFromServer.From<ResourceListChangedNotification>" => { let a0: m::ResourceListChangedNotification = arg(a, 0)?; let r: u::NotificationFromServer = From::from(a0); Ok(out!(r)) }
        "NotificationFromServer.From<ResourceUpdatedNotification>" => { let a0: m::ResourceUpdatedNotification = arg(a, 0)?; let r: u::NotificationFromServer = From::from(a0); Ok(out!(r)) }
        "NotificationFromServer.From<PromptListChangedNotification>" => { let a0: m::PromptListChangedNotification = arg(a, 0)?; let r: u::NotificationFromServer = From::from(a0); Ok(out!(r)) }
        "NotificationFromServer.From<ToolListChangedNotification>" => { let a0: m::ToolListChangedNotification = arg(a, 0)?; let r: u::NotificationFromServer = From::from(a0); Ok(out!(r)) }
        "NotificationFromServer.From<LoggingMessageNotification>" => { let a0: m::LoggingMessageNotification = arg(a, 0)?; let r: u::NotificationFromServer = From::from(a0); Ok(out!(r)) }
        "ServerJsonrpcNotification.From<CancelledNotification>" => { let a0: m::CancelledNotification = arg(a, 0)?; let r: u::ServerJsonrpcNotification = From::from(a0); Ok(out!(r)) }
        "ServerJsonrpcNotification.From<ProgressNotification>" => { let a0: m::ProgressNotification = arg(a, 0)?; let r: u::ServerJsonrpcNotification = From::from(a0); Ok(out!(r)) }
        "ServerJsonrpcNotification.From<ResourceListChangedNotification>" => { let a0: m::ResourceListChangedNotification = arg(a, 0)?; let r: u::ServerJsonrpcNotification = From::from(a0); Ok(out!(r)) }
        "ServerJsonrpcNotification.From<ResourceUpdatedNotification>" => { let a0: m::ResourceUpdatedNotification = arg(a, 0)?; let r: u::ServerJsonrpcNotification = From::from(a0); Ok(out!(r)) }
        "ServerJsonrpcNotification.From<PromptListChangedNotification>" => { let a0: m::PromptListChangedNotification = arg(a, 0)?; let r: u::ServerJsonrpcNotification = From::from(a0); Ok(out!(r)) }
        "ServerJsonrpcNotification.From<ToolListChangedNotification>" => { let a0: m::ToolListChangedNotification = arg(a, 0)?; let r: u::ServerJsonrpcNotification = From::from(a0); Ok(out!(r)) }
        "ServerJsonrpcNotification.From<LoggingMessageNotification>" => { let a0: m::LoggingMessageNotification = arg(a, 0)?; let r: u::ServerJsonrpcNotification = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.From<CancelledNotification>" => { let a0: m::CancelledNotification = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.From<ProgressNotification>" => { let a0: m::ProgressNotification = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.From<ResourceListChangedNotification>" => { let a0: m::ResourceListChangedNotification = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.From<ResourceUpdatedNotification>" => { let a0: m::ResourceUpdatedNotification = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.From<PromptListChangedNotification>" => { let a0: m::PromptListChangedNotification = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.From<ToolListChangedNotification>" => { let a0: m::ToolListChangedNotification = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.From<LoggingMessageNotification>" => { let a0: m::LoggingMessageNotification = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "RequestFromServer.From<PingRequest>" => { let a0: m::PingRequest = arg(a, 0)?; let r: u::RequestFromServer = From::from(a0); Ok(out!(r)) }
        "RequestFromServer.From<CreateMessageRequest>" => { let a0: m::CreateMessageRequest = arg(a, 0)?; let r: u::RequestFromServer = From::from(a0); Ok(out!(r)) }
        "RequestFromServer.From<ListRootsRequest>" => { let a0: m::ListRootsRequest = arg(a, 0)?; let r: u::RequestFromServer = From::from(a0); Ok(out!(r)) }
        "RequestFromServer.From<ElicitRequest>" => { let a0: m::ElicitRequest = arg(a, 0)?; let r: u::RequestFromServer = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.From<PingRequest>" => { let a0: m::PingRequest = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.From<CreateMessageRequest>" => { let a0: m::CreateMessageRequest = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.From<ListRootsRequest>" => { let a0: m::ListRootsRequest = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.From<ElicitRequest>" => { let a0: m::ElicitRequest = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "ResultFromServer.From<Result>" => { let a0: m::Result = arg(a, 0)?; let r: u::ResultFromServer = From::from(a0); Ok(out!(r)) }
        "ResultFromServer.From<InitializeResult>" => { let a0: m::InitializeResult = arg(a, 0)?; let r: u::ResultFromServer = From::from(a0); Ok(out!(r)) }
        "ResultFromServer.From<ListResourcesResult>" => { let a0: m::ListResourcesResult = arg(a, 0)?; let r: u::ResultFromServer = From::from(a0); Ok(out!(r)) }
        "ResultFromServer.From<ListResourceTemplatesResult>" => { let a0: m::ListResourceTemplatesResult = arg(a, 0)?; let r: u::ResultFromServer = From::from(a0); Ok(out!(r)) }
        "ResultFromServer.From<ReadResourceResult>" => { let a0: m::ReadResourceResult = arg(a, 0)?; let r: u::ResultFromServer = From::from(a0); Ok(out!(r)) }
        "ResultFromServer.From<ListPromptsResult>" => { let a0: m::ListPromptsResult = arg(a, 0)?; let r: u::ResultFromServer = From::from(a0); Ok(out!(r)) }
        "ResultFromServer.From<GetPromptResult>" => { let a0: m::GetPromptResult = arg(a, 0)?; let r: u::ResultFromServer = From::from(a0); Ok(out!(r)) }
        "ResultFromServer.From<ListToolsResult>" => { let a0: m::ListToolsResult = arg(a, 0)?; let r: u::ResultFromServer = From::from(a0); Ok(out!(r)) }
        "ResultFromServer.From<CallToolResult>" => { let a0: m::CallToolResult = arg(a, 0)?; let r: u::ResultFromServer = From::from(a0); Ok(out!(r)) }
        "ResultFromServer.From<CompleteResult>" => { let a0: m::CompleteResult = arg(a, 0)?; let r: u::ResultFromServer = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.From<Result>" => { let a0: m::Result = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.From<InitializeResult>" => { let a0: m::InitializeResult = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.From<ListResourcesResult>" => { let a0: m::ListResourcesResult = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.From<ListResourceTemplatesResult>" => { let a0: m::ListResourceTemplatesResult = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.From<ReadResourceResult>" => { let a0: m::ReadResourceResult = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.From<ListPromptsResult>" => { let a0: m::ListPromptsResult = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.From<GetPromptResult>" => { let a0: m::GetPromptResult = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.From<ListToolsResult>" => { let a0: m::ListToolsResult = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.From<CallToolResult>" => { let a0: m::CallToolResult = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.From<CompleteResult>" => { let a0: m::CompleteResult = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "ClientMessage.FromMessage<InitializeRequest>" => { let a0: m::InitializeRequest = arg(a, 0)?; let a1: Option<m::RequestId> = arg(a, 1)?; let r = <u::ClientMessage as u::FromMessage<m::InitializeRequest>>::from_message(a0, a1); Ok(out!(r)) }
        "InitializeRequest.ToMessage<ClientMessage>" => { let s: m::InitializeRequest = arg(s, 0)?; let a0: Option<m::RequestId> = arg(a, 0)?; let r = <m::InitializeRequest as u::ToMessage<u::ClientMessage>>::to_message(s, a0); Ok(out!(r)) }
        "ClientMessage.FromMessage<PingRequest>" => { let a0: m::PingRequest = arg(a, 0)?; let a1: Option<m::RequestId> = arg(a, 1)?; let r = <u::ClientMessage as u::FromMessage<m::PingRequest>>::from_message(a0, a1); Ok(out!(r)) }
        "PingRequest.ToMessage<ClientMessage>" => { let s: m::PingRequest = arg(s, 0)?; let a0: Option<m::RequestId> = arg(a, 0)?; let r = <m::PingRequest as u::ToMessage<u::ClientMessage>>::to_message(s, a0); Ok(out!(r)) }
        "ClientMessage.FromMessage<ListResourcesRequest>" => { let a0: m::ListResourcesRequest = arg(a, 0)?; let a1: Option<m::RequestId> = arg(a, 1)?; let r = <u::ClientMessage as u::FromMessage<m::ListResourcesRequest>>::from_message(a0, a1); Ok(out!(r)) }
        "ListResourcesRequest.ToMessage<ClientMessage>" => { let s: m::ListResourcesRequest = arg(s, 0)?; let a0: Option<m::RequestId> = arg(a, 0)?; let r = <m::ListResourcesRequest as u::ToMessage<u::ClientMessage>>::to_message(s, a0); Ok(out!(r)) }
        "ClientMessage.FromMessage<ListResourceTemplatesRequest>" => { let a0: m::ListResourceTemplatesRequest = arg(a, 0)?; let a1: Option<m::RequestId> = arg(a, 1)?; let r = <u::ClientMessage as u::FromMessage<m::ListResourceTemplatesRequest>>::from_message(a0, a1); Ok(out!(r)) }
        "ListResourceTemplatesRequest.ToMessage<ClientMessage>" => { let s: m::ListResourceTemplatesRequest = arg(s, 0)?; let a0: Option<m::RequestId> = arg(a, 0)?; let r = <m::ListResourceTemplatesRequest as u::ToMessage<u::ClientMessage>>::to_message(s, a0); Ok(out!(r)) }
        "ClientMessage.FromMessage<ReadResourceRequest>" => { let a0: m::ReadResourceRequest = arg(a, 0)?; let a1: Option<m::RequestId> = arg(a, 1)?; let r = <u::ClientMessage as u::FromMessage<m::ReadResourceRequest>>::from_message(a0, a1); Ok(out!(r)) }
        "ReadResourceRequest.ToMessage<ClientMessage>" => { let s: m::ReadResourceRequest = arg(s, 0)?; let a0: Option<m::RequestId> = arg(a, 0)?; let r = <m::ReadResourceRequest as u::ToMessage<u::ClientMessage>>::to_message(s, a0); Ok(out!(r)) }
        "ClientMessage.FromMessage<SubscribeRequest>" => { let a0: m::SubscribeRequest = arg(a, 0)?; let a1: Option<m::RequestId> = arg(a, 1)?; let r = <u::ClientMessage as u::FromMessage<m::SubscribeRequest>>::from_message(a0, a1); Ok(out!(r)) }
        "SubscribeRequest.ToMessage<ClientMessage>" => { let s: m::SubscribeRequest = arg(s, 0)?; let a0: Option<m::RequestId> = arg(a, 0)?; let r = <m::SubscribeRequest as u::ToMessage<u::ClientMessage>>::to_message(s, a0); Ok(out!(r)) }
        "ClientMessage.FromMessage<UnsubscribeRequest>" => { let a0: m::UnsubscribeRequest = arg(a, 0)?; let a1: Option<m::RequestId> = arg(a, 1)?; let r = <u::ClientMessage as u::FromMessage<m::UnsubscribeRequest>>::from_message(a0, a1); Ok(out!(r)) }
        "UnsubscribeRequest.ToMessage<ClientMessage>" => { let s: m::UnsubscribeRequest = arg(s, 0)?; let a0: Option<m::RequestId> = arg(a, 0)?; let r = <m::UnsubscribeRequest as u::ToMessage<u::ClientMessage>>::to_message(s, a0); Ok(out!(r)) }
        "ClientMessage.FromMessage<ListPromptsRequest>" => { let a0: m::ListPromptsRequest = arg(a, 0)?; let a1: Option<m::RequestId> = arg(a, 1)?; let r = <u::ClientMessage as u::FromMessage<m::ListPromptsRequest>>::from_message(a0, a1); Ok(out!(r)) }
        "ListPromptsRequest.ToMessage<ClientMessage>" => { let s: m::ListPromptsRequest = arg(s, 0)?; let a0: Option<m::RequestId> = arg(a, 0)?; let r = <m::ListPromptsRequest as u::ToMessage<u::ClientMessage>>::to_message(s, a0); Ok(out!(r)) }
        "ClientMessage.FromMessage<GetPromptRequest>" => { let a0: m::GetPromptRequest = arg(a, 0)?; let a1: Option<m::RequestId> = arg(a, 1)?; let r = <u::ClientMessage as u::FromMessage<m::GetPromptRequest>>::from_message(a0, a1); Ok(out!(r)) }
        "GetPromptRequest.ToMessage<ClientMessage>" => { let s: m::GetPromptRequest = arg(s, 0)?; let a0: Option<m::RequestId> = arg(a, 0)?; let r = <m::GetPromptRequest as u::ToMessage<u::ClientMessage>>::to_message(s, a0); Ok(out!(r)) }
        "ClientMessage.FromMessage<ListToolsRequest>" => { let a0: m::ListToolsRequest = arg(a, 0)?; let a1: Option<m::RequestId> = arg(a, 1)?; let r = <u::ClientMessage as u::FromMessage<m::ListToolsRequest>>::from_message(a0, a1); Ok(out!(r)) }
        "ListToolsRequest.ToMessage<ClientMessage>" => { let s: m::ListToolsRequest = arg(s, 0)?; let a0: Option<m::RequestId> = arg(a, 0)?; let r = <m::ListToolsRequest as u::ToMessage<u::ClientMessage>>::to_message(s, a0); Ok(out!(r)) }
        "ClientMessage.FromMessage<CallToolRequest>" => { let a0: m::CallToolRequest = arg(a, 0)?; let a1: Option<m::RequestId> = arg(a, 1)?; let r = <u::ClientMessage as u::FromMessage<m::CallToolRequest>>::from_message(a0, a1); Ok(out!(r)) }
        "CallToolRequest.ToMessage<ClientMessage>" => { let s: m::CallToolRequest = arg(s, 0)?; let a0: Option<m::RequestId> = arg(a, 0)?; let r = <m::CallToolRequest as u::ToMessage<u::ClientMessage>>::to_message(s, a0); Ok(out!(r)) }
        "ClientMessage.FromMessage<SetLevelRequest>" => { let a0: m::SetLevelRequest = arg(a, 0)?; let a1: Option<m::RequestId> = arg(a, 1)?; let r = <u::ClientMessage as u::FromMessage<m::SetLevelRequest>>::from_message(a0, a1); Ok(out!(r)) }
        "SetLevelRequest.ToMessage<ClientMessage>" => { let s: m::SetLevelRequest = arg(s, 0)?; let a0: Option<m::RequestId> = arg(a, 0)?; let r = <m::SetLevelRequest as u::ToMessage<u::ClientMessage>>::to_message(s, a0); Ok(out!(r)) }
        "ClientMessage.FromMessage<CompleteRequest>" => { let a0: m::CompleteRequest = arg(a, 0)?; let a1: Option<m::RequestId> = arg(a, 1)?; let r = <u::ClientMessage as u::FromMessage<m::CompleteRequest>>::from_message(a0, a1); Ok(out!(r)) }
        "CompleteRequest.ToMessage<ClientMessage>" => { let s: m::CompleteRequest = arg(s, 0)?; let a0: Option<m::RequestId> = arg(a, 0)?; let r = <m::CompleteRequest as u::ToMessage<u::ClientMessage>>::to_message(s, a0); Ok(out!(r)) }
        "ClientMessage.FromMessage<Result>" => { let a0: m::Result = arg(a, 0)?; let a1: Option<m::RequestId> = arg(a, 1)?; let r = <u::ClientMessage as u::FromMessage<m::Result>>::from_message(a0, a1); Ok(out!(r)) }
        "Result.ToMessage<ClientMessage>" => { let s: m::Result = arg(s, 0)?; let a0: Option<m::RequestId> = arg(a, 0)?; let r = <m::Result as u::ToMessage<u::ClientMessage>>::to_message(s, a0); Ok(out!(r)) }
        "ClientMessage.FromMessage<CreateMessageResult>" => { let a0: m::CreateMessageResult = arg(a, 0)?; let a1: Option<m::RequestId> = arg(a, 1)?; let r = <u::ClientMessage as u::FromMessage<m::CreateMessageResult>>::from_message(a0, a1); Ok(out!(r)) }
        "CreateMessageResult.ToMessage<ClientMessage>" => { let s: m::CreateMessageResult = arg(s, 0)?; let a0: Option<m::RequestId> = arg(a, 0)?; let r = <m::CreateMessageResult as u::ToMessage<u::ClientMessage>>::to_message(s, a0); Ok(out!(r)) }
        "ClientMessage.FromMessage<ListRootsResult>" => { let a0: m::ListRootsResult = arg(a, 0)?; let a1: Option<m::RequestId> = arg(a, 1)?; let r = <u::ClientMessage as u::FromMessage<m::ListRootsResult>>::from_message(a0, a1); Ok(out!(r)) }
        "ListRootsResult.ToMessage<ClientMessage>" => { let s: m::ListRootsResult = arg(s, 0)?; let a0: Option<m::RequestId> = arg(a, 0)?; let r = <m::ListRootsResult as u::ToMessage<u::ClientMessage>>::to_message(s, a0); Ok(out!(r)) }
        "ClientMessage.FromMessage<ElicitResult>" => { let a0: m::ElicitResult = arg(a, 0)?; let a1: Option<m::RequestId> = arg(a, 1)?; let r = <u::ClientMessage as u::FromMessage<m::ElicitResult>>::from_message(a0, a1); Ok(out!(r)) }
        "ElicitResult.ToMessage<ClientMessage>" => { let s: m::ElicitResult = arg(s, 0)?; let a0: Option<m::RequestId> = arg(a, 0)?; let r = <m::ElicitResult as u::ToMessage<u::ClientMessage>>::to_message(s, a0); Ok(out!(r)) }
        "ClientMessage.FromMessage<CancelledNotification>" => { let a0: m::CancelledNotification = arg(a, 0)?; let a1: Option<m::RequestId> = arg(a, 1)?; let r = <u::ClientMessage as u::FromMessage<m::CancelledNotification>>::from_message(a0, a1); Ok(out!(r)) }
        "CancelledNotification.ToMessage<ClientMessage>" => { let s: m::CancelledNotification = arg(s, 0)?; let a0: Option<m::RequestId> = arg(a, 0)?; let r = <m::CancelledNotification as u::ToMessage<u::ClientMessage>>::to_message(s, a0); Ok(out!(r)) }
        "ClientMessage.FromMessage<InitializedNotification>" => { let a0: m::InitializedNotification = arg(a, 0)?; let a1: Option<m::RequestId> = arg(a, 1)?; let r = <u::ClientMessage as u::FromMessage<m::InitializedNotification>>::from_message(a0, a1); Ok(out!(r)) }
        "InitializedNotification.ToMessage<ClientMessage>" => { let s: m::InitializedNotification = arg(s, 0)?; let a0: Option<m::RequestId> = arg(a, 0)?; let r = <m::InitializedNotification as u::ToMessage<u::ClientMessage>>::to_message(s, a0); Ok(out!(r)) }
        "ClientMessage.FromMessage<ProgressNotification>" => { let a0: m::ProgressNotification = arg(a, 0)?; let a1: Option<m::RequestId> = arg(a, 1)?; let r = <u::ClientMessage as u::FromMessage<m::ProgressNotification>>::from_message(a0, a1); Ok(out!(r)) }
        "ProgressNotification.ToMessage<ClientMessage>" => { let s: m::ProgressNotification = arg(s, 0)?; let a0: Option<m::RequestId> = arg(a, 0)?; let r = <m::ProgressNotification as u::ToMessage<u::ClientMessage>>::to_message(s, a0); Ok(out!(r)) }
        "ClientMessage.FromMessage<RootsListChangedNotification>" => { let a0: m::RootsListChangedNotification = arg(a, 0)?; let a1: Option<m::RequestId> = arg(a, 1)?; let r = <u::ClientMessage as u::FromMessage<m::RootsListChangedNotification>>::from_message(a0, a1); Ok(out!(r)) }
        "RootsListChangedNotification.ToMessage<ClientMessage>" => { let s: m::RootsListChangedNotification = arg(s, 0)?; let a0: Option<m::RequestId> = arg(a, 0)?; let r = <m::RootsListChangedNotification as u::ToMessage<u::ClientMessage>>::to_message(s, a0); Ok(out!(r)) }
        "ServerMessage.FromMessage<PingRequest>" => { let a0: m::PingRequest = arg(a, 0)?; let a1: Option<m::RequestId> = arg(a, 1)?; let r = <u::ServerMessage as u::FromMessage<m::PingRequest>>::from_message(a0, a1); Ok(out!(r)) }
        "PingRequest.ToMessage<ServerMessage>" => { let s: m::PingRequest = arg(s, 0)?; let a0: Option<m::RequestId> = arg(a, 0)?; let r = <m::PingRequest as u::ToMessage<u::ServerMessage>>::to_message(s, a0); Ok(out!(r)) }
        "ServerMessage.FromMessage<CreateMessageRequest>" => { let a0: m::CreateMessageRequest = arg(a, 0)?; let a1: Option<m::RequestId> = arg(a, 1)?; let r = <u::ServerMessage as u::FromMessage<m::CreateMessageRequest>>::from_message(a0, a1); Ok(out!(r)) }
        "CreateMessageRequest.ToMessage<ServerMessage>" => { let s: m::CreateMessageRequest = arg(s, 0)?; let a0: Option<m::RequestId> = arg(a, 0)?; let r = <m::CreateMessageRequest as u::ToMessage<u::ServerMessage>>::to_message(s, a0); Ok(out!(r)) }
        "ServerMessage.FromMessage<ListRootsRequest>" => { let a0: m::ListRootsRequest = arg(a, 0)?; let a1: Option<m::RequestId> = arg(a, 1)?; let r = <u::ServerMessage as u::FromMessage<m::ListRootsRequest>>::from_message(a0, a1); Ok(out!(r)) }
        "ListRootsRequest.ToMessage<ServerMessage>" => { let s: m::ListRootsRequest = arg(s, 0)?; let a0: Option<m::RequestId> = arg(a, 0)?; let r = <m::ListRootsRequest as u::ToMessage<u::ServerMessage>>::to_message(s, a0); Ok(out!(r)) }
        "ServerMessage.FromMessage<ElicitRequest>" => { let a0: m::ElicitRequest = arg(a, 0)?; let a1: Option<m::RequestId> = arg(a, 1)?; let r = <u::ServerMessage as u::FromMessage<m::ElicitRequest>>::from_message(a0, a1); Ok(out!(r)) }
        "ElicitRequest.ToMessage<ServerMessage>" => { let s: m::ElicitRequest = arg(s, 0)?; let a0: Option<m::RequestId> = arg(a, 0)?; let r = <m::ElicitRequest as u::ToMessage<u::ServerMessage>>::to_message(s, a0); Ok(out!(r)) }
        "ServerMessage.FromMessage<Result>" => { let a0: m::Result = arg(a, 0)?; let a1: Option<m::RequestId> = arg(a, 1)?; let r = <u::ServerMessage as u::FromMessage<m::Result>>::from_message(a0, a1); Ok(out!(r)) }
        "Result.ToMessage<ServerMessage>" => { let s: m::Result = arg(s, 0)?; let a0: Option<m::RequestId> = arg(a, 0)?; let r = <m::Result as u::ToMessage<u::ServerMessage>>::to_message(s, a0); Ok(out!(r)) }
        "ServerMessage.FromMessage<InitializeResult>" => { let a0: m::InitializeResult = arg(a, 0)?; let a1: Option<m::RequestId> = arg(a, 1)?; let r = <u::ServerMessage as u::FromMessage<m::InitializeResult>>::from_message(a0, a1); Ok(out!(r)) }
        "InitializeResult.ToMessage<ServerMessage>" => { let s: m::InitializeResult = arg(s, 0)?; let a0: Option<m::RequestId> = arg(a, 0)?; let r = <m::InitializeResult as u::ToMessage<u::ServerMessage>>::to_message(s, a0); Ok(out!(r)) }
        "ServerMessage.FromMessage<ListResourcesResult>" => { let a0: m::ListResourcesResult = arg(a, 0)?; let a1: Option<m::RequestId> = arg(a, 1)?; let r = <u::ServerMessage as u::FromMessage<m::ListResourcesResult>>::from_message(a0, a1); Ok(out!(r)) }
        "ListResourcesResult.ToMessage<ServerMessage>" => { let s: m::ListResourcesResult = arg(s, 0)?; let a0: Option<m::RequestId> = arg(a, 0)?; let r = <m::ListResourcesResult as u::ToMessage<u::ServerMessage>>::to_message(s, a0); Ok(out!(r)) }
        "ServerMessage.FromMessage<ListResourceTemplatesResult>" => { let a0: m::ListResourceTemplatesResult = arg(a, 0)?; let a1: Option<m::RequestId> = arg(a, 1)?; let r = <u::ServerMessage as u::FromMessage<m::ListResourceTemplatesResult>>::from_message(a0, a1); Ok(out!(r)) }
        "ListResourceTemplatesResult.ToMessage<ServerMessage>" => { let s: m::ListResourceTemplatesResult = arg(s, 0)?; let a0: Option<m::RequestId> = arg(a, 0)?; let r = <m::ListResourceTemplatesResult as u::ToMessage<u::ServerMessage>>::to_message(s, a0); Ok(out!(r)) }
        "ServerMessage.FromMessage<ReadResourceResult>" => { let a0: m::ReadResourceResult = arg(a, 0)?; let a1: Option<m::RequestId> = arg(a, 1)?; let r = <u::ServerMessage as u::FromMessage<m::ReadResourceResult>>::from_message(a0, a1); Ok(out!(r)) }
        "ReadResourceResult.ToMessage<ServerMessage>" => { let s: m::ReadResourceResult = arg(s, 0)?; let a0: Option<m::RequestId> = arg(a, 0)?; let r = <m::ReadResourceResult as u::ToMessage<u::ServerMessage>>::to_message(s, a0); Ok(out!(r)) }
        "ServerMessage.FromMessage<ListPromptsResult>" => { let a0: m::ListPromptsResult = arg(a, 0)?; let a1: Option<m::RequestId> = arg(a, 1)?; let r = <u::ServerMessage as u::FromMessage<m::ListPromptsResult>>::from_message(a0, a1); Ok(out!(r)) }
        "ListPromptsResult.ToMessage<ServerMessage>" => { let s: m::ListPromptsResult = arg(s, 0)?; let a0: Option<m::RequestId> = arg(a, 0)?; let r = <m::ListPromptsResult as u::ToMessage<u::ServerMessage>>::to_message(s, a0); Ok(out!(r)) }
        "ServerMessage.FromMessage<GetPromptResult>" => { let a0: m::GetPromptResult = arg(a, 0)?; let a1: Option<m::RequestId> = arg(a, 1)?; let r = <u::ServerMessage as u::FromMessage<m::GetPromptResult>>::from_message(a0, a1); Ok(out!(r)) }
        "GetPromptResult.ToMessage<ServerMessage>" => { let s: m::GetPromptResult = arg(s, 0)?; let a0: Option<m::RequestId> = arg(a, 0)?; let r = <m::GetPromptResult as u::ToMessage<u::ServerMessage>>::to_message(s, a0); Ok(out!(r)) }
        "ServerMessage.FromMessage<ListToolsResult>" => { let a0: m::ListToolsResult = arg(a, 0)?; let a1: Option<m::RequestId> = arg(a, 1)?; let r = <u::ServerMessage as u::FromMessage<m::ListToolsResult>>::from_message(a0, a1); Ok(out!(r)) }
        "ListToolsResult.ToMessage<ServerMessage>" => { let s: m::ListToolsResult = arg(s, 0)?; let a0: Option<m::RequestId> = arg(a, 0)?; let r = <m::ListToolsResult as u::ToMessage<u::ServerMessage>>::to_message(s, a0); Ok(out!(r)) }
        "ServerMessage.FromMessage<CallToolResult>" => { let a0: m::CallToolResult = arg(a, 0)?; let a1: Option<m::RequestId> = arg(a, 1)?; let r = <u::ServerMessage as u::FromMessage<m::CallToolResult>>::from_message(a0, a1); Ok(out!(r)) }
        "CallToolResult.ToMessage<ServerMessage>" => { let s: m::CallToolResult = arg(s, 0)?; let a0: Option<m::RequestId> = arg(a, 0)?; let r = <m::CallToolResult as u::ToMessage<u::ServerMessage>>::to_message(s, a0); Ok(out!(r)) }
        "ServerMessage.FromMessage<CompleteResult>" => { let a0: m::CompleteResult = arg(a, 0)?; let a1: Option<m::RequestId> = arg(a, 1)?; let r = <u::ServerMessage as u::FromMessage<m::CompleteResult>>::from_message(a0, a1); Ok(out!(r)) }
        "CompleteResult.ToMessage<ServerMessage>" => { let s: m::CompleteResult = arg(s, 0)?; let a0: Option<m::RequestId> = arg(a, 0)?; let r = <m::CompleteResult as u::ToMessage<u::ServerMessage>>::to_message(s, a0); Ok(out!(r)) }
        "ServerMessage.FromMessage<CancelledNotification>" => { let a0: m::CancelledNotification = arg(a, 0)?; let a1: Option<m::RequestId> = arg(a, 1)?; let r = <u::ServerMessage as u::FromMessage<m::CancelledNotification>>::from_message(a0, a1); Ok(out!(r)) }
        "CancelledNotification.ToMessage<ServerMessage>" => { let s: m::CancelledNotification = arg(s, 0)?; let a0: Option<m::RequestId> = arg(a, 0)?; let r = <m::CancelledNotification as u::ToMessage<u::ServerMessage>>::to_message(s, a0); Ok(out!(r)) }
        "ServerMessage.FromMessage<ProgressNotification>" => { let a0: m::ProgressNotification = arg(a, 0)?; let a1: Option<m::RequestId> = arg(a, 1)?; let r = <u::ServerMessage as u::FromMessage<m::ProgressNotification>>::from_message(a0, a1); Ok(out!(r)) }
        "ProgressNotification.ToMessage<ServerMessage>" => { let s: m::ProgressNotification = arg(s, 0)?; let a0: Option<m::RequestId> = arg(a, 0)?; let r = <m::ProgressNotification as u::ToMessage<u::ServerMessage>>::to_message(s, a0); Ok(out!(r)) }
        "ServerMessage.FromMessage<ResourceListChangedNotification>" => { let a0: m::ResourceListChangedNotification = arg(a, 0)?; let a1: Option<m::RequestId> = arg(a, 1)?; let r = <u::ServerMessage as u::FromMessage<m::ResourceListChangedNotification>>::from_message(a0, a1); Ok(out!(r)) }
        "ResourceListChangedNotification.ToMessage<ServerMessage>" => { let s: m::ResourceListChangedNotification = arg(s, 0)?; let a0: Option<m::RequestId> = arg(a, 0)?; let r = <m::ResourceListChangedNotification as u::ToMessage<u::ServerMessage>>::to_message(s, a0); Ok(out!(r)) }
        "ServerMessage.FromMessage<ResourceUpdatedNotification>" => { let a0: m::ResourceUpdatedNotification = arg(a, 0)?; let a1: Option<m::RequestId> = arg(a, 1)?; let r = <u::ServerMessage as u::FromMessage<m::ResourceUpdatedNotification>>::from_message(a0, a1); Ok(out!(r)) }
        "ResourceUpdatedNotification.ToMessage<ServerMessage>" => { let s: m::ResourceUpdatedNotification = arg(s, 0)?; let a0: Option<m::RequestId> = arg(a, 0)?; let r = <m::ResourceUpdatedNotification as u::ToMessage<u::ServerMessage>>::to_message(s, a0); Ok(out!(r)) }
        "ServerMessage.FromMessage<PromptListChangedNotification>" => { let a0: m::PromptListChangedNotification = arg(a, 0)?; let a1: Option<m::RequestId> = arg(a, 1)?; let r = <u::ServerMessage as u::FromMessage<m::PromptListChangedNotification>>::from_message(a0, a1); Ok(out!(r)) }
        "PromptListChangedNotification.ToMessage<ServerMessage>" => { let s: m::PromptListChangedNotification = arg(s, 0)?; let a0: Option<m::RequestId> = arg(a, 0)?; let r = <m::PromptListChangedNotification as u::ToMessage<u::ServerMessage>>::to_message(s, a0); Ok(out!(r)) }
        "ServerMessage.FromMessage<ToolListChangedNotification>" => { let a0: m::ToolListChangedNotification = arg(a, 0)?; let a1: Option<m::RequestId> = arg(a, 1)?; let r = <u::ServerMessage as u::FromMessage<m::ToolListChangedNotification>>::from_message(a0, a1); Ok(out!(r)) }
        "ToolListChangedNotification.ToMessage<ServerMessage>" => { let s: m::ToolListChangedNotification = arg(s, 0)?; let a0: Option<m::RequestId> = arg(a, 0)?; let r = <m::ToolListChangedNotification as u::ToMessage<u::ServerMessage>>::to_message(s, a0); Ok(out!(r)) }
        "ServerMessage.FromMessage<LoggingMessageNotification>" => { let a0: m::LoggingMessageNotification = arg(a, 0)?; let a1: Option<m::RequestId> = arg(a, 1)?; let r = <u::ServerMessage as u::FromMessage<m::LoggingMessageNotification>>::from_message(a0, a1); Ok(out!(r)) }
        "LoggingMessageNotification.ToMessage<ServerMessage>" => { let s: m::LoggingMessageNotification = arg(s, 0)?; let a0: Option<m::RequestId> = arg(a, 0)?; let r = <m::LoggingMessageNotification as u::ToMessage<u::ServerMessage>>::to_message(s, a0); Ok(out!(r)) }
        "InitializeRequest.TryFrom<RequestFromClient>" => { let a0: u::RequestFromClient = arg(a, 0)?; let r: Result<m::InitializeRequest, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "PingRequest.TryFrom<RequestFromClient>" => { let a0: u::RequestFromClient = arg(a, 0)?; let r: Result<m::PingRequest, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "ListResourcesRequest.TryFrom<RequestFromClient>" => { let a0: u::RequestFromClient = arg(a, 0)?; let r: Result<m::ListResourcesRequest, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "ListResourceTemplatesRequest.TryFrom<RequestFromClient>" => { let a0: u::RequestFromClient = arg(a, 0)?; let r: Result<m::ListResourceTemplatesRequest, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "ReadResourceRequest.TryFrom<RequestFromClient>" => { let a0: u::RequestFromClient = arg(a, 0)?; let r: Result<m::ReadResourceRequest, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "SubscribeRequest.TryFrom<RequestFromClient>" => { let a0: u::RequestFromClient = arg(a, 0)?; let r: Result<m::SubscribeRequest, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "UnsubscribeRequest.TryFrom<RequestFromClient>" => { let a0: u::RequestFromClient = arg(a, 0)?; let r: Result<m::UnsubscribeRequest, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "ListPromptsRequest.TryFrom<RequestFromClient>" => { let a0: u::RequestFromClient = arg(a, 0)?; let r: Result<m::ListPromptsRequest, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "GetPromptRequest.TryFrom<RequestFromClient>" => { let a0: u::RequestFromClient = arg(a, 0)?; let r: Result<m::GetPromptRequest, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "ListToolsRequest.TryFrom<RequestFromClient>" => { let a0: u::RequestFromClient = arg(a, 0)?; let r: Result<m::ListToolsRequest, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "CallToolRequest.TryFrom<RequestFromClient>" => { let a0: u::RequestFromClient = arg(a, 0)?; let r: Result<m::CallToolRequest, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "SetLevelRequest.TryFrom<RequestFromClient>" => { let a0: u::RequestFromClient = arg(a, 0)?; let r: Result<m::SetLevelRequest, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "CompleteRequest.TryFrom<RequestFromClient>" => { let a0: u::RequestFromClient = arg(a, 0)?; let r: Result<m::CompleteRequest, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "Result.TryFrom<ResultFromClient>" => { let a0: u::ResultFromClient = arg(a, 0)?; let r: Result<m::Result, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "CreateMessageResult.TryFrom<ResultFromClient>" => { let a0: u::ResultFromClient = arg(a, 0)?; let r: Result<m::CreateMessageResult, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "ListRootsResult.TryFrom<ResultFromClient>" => { let a0: u::ResultFromClient = arg(a, 0)?; let r: Result<m::ListRootsResult, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "ElicitResult.TryFrom<ResultFromClient>" => { let a0: u::ResultFromClient = arg(a, 0)?; let r: Result<m::ElicitResult, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "CancelledNotification.TryFrom<NotificationFromClient>" => { let a0: u::NotificationFromClient = arg(a, 0)?; let r: Result<m::CancelledNotification, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "InitializedNotification.TryFrom<NotificationFromClient>" => { let a0: u::NotificationFromClient = arg(a, 0)?; let r: Result<m::InitializedNotification, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "ProgressNotification.TryFrom<NotificationFromClient>" => { let a0: u::NotificationFromClient = arg(a, 0)?; let r: Result<m::ProgressNotification, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "RootsListChangedNotification.TryFrom<NotificationFromClient>" => { let a0: u::NotificationFromClient = arg(a, 0)?; let r: Result<m::RootsListChangedNotification, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "PingRequest.TryFrom<RequestFromServer>" => { let a0: u::RequestFromServer = arg(a, 0)?; let r: Result<m::PingRequest, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "CreateMessageRequest.TryFrom<RequestFromServer>" => { let a0: u::RequestFromServer = arg(a, 0)?; let r: Result<m::CreateMessageRequest, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "ListRootsRequest.TryFrom<RequestFromServer>" => { let a0: u::RequestFromServer = arg(a, 0)?; let r: Result<m::ListRootsRequest, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "ElicitRequest.TryFrom<RequestFromServer>" => { let a0: u::RequestFromServer = arg(a, 0)?; let r: Result<m::ElicitRequest, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "Result.TryFrom<ResultFromServer>" => { let a0: u::ResultFromServer = arg(a, 0)?; let r: Result<m::Result, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "InitializeResult.TryFrom<ResultFromServer>" => { let a0: u::ResultFromServer = arg(a, 0)?; let r: Result<m::InitializeResult, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "ListResourcesResult.TryFrom<ResultFromServer>" => { let a0: u::ResultFromServer = arg(a, 0)?; let r: Result<m::ListResourcesResult, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "ListResourceTemplatesResult.TryFrom<ResultFromServer>" => { let a0: u::ResultFromServer = arg(a, 0)?; let r: Result<m::ListResourceTemplatesResult, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "ReadResourceResult.TryFrom<ResultFromServer>" => { let a0: u::ResultFromServer = arg(a, 0)?; let r: Result<m::ReadResourceResult, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "ListPromptsResult.TryFrom<ResultFromServer>" => { let a0: u::ResultFromServer = arg(a, 0)?; let r: Result<m::ListPromptsResult, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "GetPromptResult.TryFrom<ResultFromServer>" => { let a0: u::ResultFromServer = arg(a, 0)?; let r: Result<m::GetPromptResult, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "ListToolsResult.TryFrom<ResultFromServer>" => { let a0: u::ResultFromServer = arg(a, 0)?; let r: Result<m::ListToolsResult, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "CallToolResult.TryFrom<ResultFromServer>" => { let a0: u::ResultFromServer = arg(a, 0)?; let r: Result<m::CallToolResult, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "CompleteResult.TryFrom<ResultFromServer>" => { let a0: u::ResultFromServer = arg(a, 0)?; let r: Result<m::CompleteResult, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "CancelledNotification.TryFrom<NotificationFromServer>" => { let a0: u::NotificationFromServer = arg(a, 0)?; let r: Result<m::CancelledNotification, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "ProgressNotification.TryFrom<NotificationFromServer>" => { let a0: u::NotificationFromServer = arg(a, 0)?; let r: Result<m::ProgressNotification, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "ResourceListChangedNotification.TryFrom<NotificationFromServer>" => { let a0: u::NotificationFromServer = arg(a, 0)?; let r: Result<m::ResourceListChangedNotification, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "ResourceUpdatedNotification.TryFrom<NotificationFromServer>" => { let a0: u::NotificationFromServer = arg(a, 0)?; let r: Result<m::ResourceUpdatedNotification, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "PromptListChangedNotification.TryFrom<NotificationFromServer>" => { let a0: u::NotificationFromServer = arg(a, 0)?; let r: Result<m::PromptListChangedNotification, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "ToolListChangedNotification.TryFrom<NotificationFromServer>" => { let a0: u::NotificationFromServer = arg(a, 0)?; let r: Result<m::ToolListChangedNotification, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "LoggingMessageNotification.TryFrom<NotificationFromServer>" => { let a0: u::NotificationFromServer = arg(a, 0)?; let r: Result<m::LoggingMessageNotification, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "ContentBlock.text_content" => { let a0: ::std::string::String = arg(a, 0)?; let r = m::ContentBlock::text_content(a0); Ok(out!(r)) }
        "ContentBlock.image_content" => { let a0: ::std::string::String = arg(a, 0)?; let a1: ::std::string::String = arg(a, 1)?; let r = m::ContentBlock::image_content(a0, a1); Ok(out!(r)) }
        "ContentBlock.audio_content" => { let a0: ::std::string::String = arg(a, 0)?; let a1: ::std::string::String = arg(a, 1)?; let r = m::ContentBlock::audio_content(a0, a1); Ok(out!(r)) }
        "ContentBlock.resource_link" => { let a0: m::ResourceLink = arg(a, 0)?; let r = m::ContentBlock::resource_link(a0); Ok(out!(r)) }
        "ContentBlock.embedded_resource" => { let a0: m::EmbeddedResourceResource = arg(a, 0)?; let r = m::ContentBlock::embedded_resource(a0); Ok(out!(r)) }
        "ContentBlock.content_type" => { let s: m::ContentBlock = arg(s, 0)?;  let r = m::ContentBlock::content_type(&s); Ok(out!(r)) }
        "ContentBlock.as_text_content" => { let s: m::ContentBlock = arg(s, 0)?;  let r = m::ContentBlock::as_text_content(&s); Ok(out!(r)) }
        "ContentBlock.as_image_content" => { let s: m::ContentBlock = arg(s, 0)?;  let r = m::ContentBlock::as_image_content(&s); Ok(out!(r)) }
        "ContentBlock.as_audio_content" => { let s: m::ContentBlock = arg(s, 0)?;  let r = m::ContentBlock::as_audio_content(&s); Ok(out!(r)) }
        "ContentBlock.as_resource_link" => { let s: m::ContentBlock = arg(s, 0)?;  let r = m::ContentBlock::as_resource_link(&s); Ok(out!(r)) }
        "ContentBlock.as_embedded_resource" => { let s: m::ContentBlock = arg(s, 0)?;  let r = m::ContentBlock::as_embedded_resource(&s); Ok(out!(r)) }
        "CallToolResult.text_content" => { let a0: Vec<m::TextContent> = arg(a, 0)?; let r = m::CallToolResult::text_content(a0); Ok(out!(r)) }
        "CallToolResult.image_content" => { let a0: Vec<m::ImageContent> = arg(a, 0)?; let r = m::CallToolResult::image_content(a0); Ok(out!(r)) }
        "CallToolResult.audio_content" => { let a0: Vec<m::AudioContent> = arg(a, 0)?; let r = m::CallToolResult::audio_content(a0); Ok(out!(r)) }
        "CallToolResult.resource_link" => { let a0: Vec<m::ResourceLink> = arg(a, 0)?; let r = m::CallToolResult::resource_link(a0); Ok(out!(r)) }
        "CallToolResult.embedded_resource" => { let a0: Vec<m::EmbeddedResource> = arg(a, 0)?; let r = m::CallToolResult::embedded_resource(a0); Ok(out!(r)) }
        "CallToolResult.with_error" => { let a0: u::CallToolError = arg(a, 0)?; let r = m::CallToolResult::with_error(a0); Ok(out!(r)) }
        "CallToolResult.with_meta" => { let s: m::CallToolResult = arg(s, 0)?; let a0: Option<serde_json::Map<String,serde_json::Value>> = arg(a, 0)?; let r = m::CallToolResult::with_meta(s, a0); Ok(out!(r)) }
        "CallToolResult.with_structured_content" => { let s: m::CallToolResult = arg(s, 0)?; let a0: ::serde_json::Map<::std::string::String,::serde_json::Value> = arg(a, 0)?; let r = m::CallToolResult::with_structured_content(s, a0); Ok(out!(r)) }
        "CallToolResult.from_content" => { let a0: Vec<m::ContentBlock> = arg(a, 0)?; let r = m::CallToolResult::from_content(a0); Ok(out!(r)) }
        "CallToolResult.add_content" => { let s: m::CallToolResult = arg(s, 0)?; let a0: m::ContentBlock = arg(a, 0)?; let r = m::CallToolResult::add_content(s, a0); Ok(out!(r)) }
        "Annotations.default" => { let r: m::Annotations = Default::default(); Ok(out!(r)) }
        "ClientCapabilities.default" => { let r: m::ClientCapabilities = Default::default(); Ok(out!(r)) }
        "ClientRoots.default" => { let r: m::ClientRoots = Default::default(); Ok(out!(r)) }
        "CompleteRequestContext.default" => { let r: m::CompleteRequestContext = Default::default(); Ok(out!(r)) }
        "InitializedNotificationParams.default" => { let r: m::InitializedNotificationParams = Default::default(); Ok(out!(r)) }
        "JsonrpcNotificationParams.default" => { let r: m::JsonrpcNotificationParams = Default::default(); Ok(out!(r)) }
        "JsonrpcRequestParams.default" => { let r: m::JsonrpcRequestParams = Default::default(); Ok(out!(r)) }
        "JsonrpcRequestParamsMeta.default" => { let r: m::JsonrpcRequestParamsMeta = Default::default(); Ok(out!(r)) }
        "ListPromptsRequestParams.default" => { let r: m::ListPromptsRequestParams = Default::default(); Ok(out!(r)) }
        "ListResourceTemplatesRequestParams.default" => { let r: m::ListResourceTemplatesRequestParams = Default::default(); Ok(out!(r)) }
        "ListResourcesRequestParams.default" => { let r: m::ListResourcesRequestParams = Default::default(); Ok(out!(r)) }
        "ListRootsRequestParams.default" => { let r: m::ListRootsRequestParams = Default::default(); Ok(out!(r)) }
        "ListRootsRequestParamsMeta.default" => { let r: m::ListRootsRequestParamsMeta = Default::default(); Ok(out!(r)) }
        "ListToolsRequestParams.default" => { let r: m::ListToolsRequestParams = Default::default(); Ok(out!(r)) }
        "ModelHint.default" => { let r: m::ModelHint = Default::default(); Ok(out!(r)) }
        "ModelPreferences.default" => { let r: m::ModelPreferences = Default::default(); Ok(out!(r)) }
        "NotificationParams.default" => { let r: m::NotificationParams = Default::default(); Ok(out!(r)) }
        "PaginatedRequestParams.default" => { let r: m::PaginatedRequestParams = Default::default(); Ok(out!(r)) }
        "PaginatedResult.default" => { let r: m::PaginatedResult = Default::default(); Ok(out!(r)) }
        "PingRequestParams.default" => { let r: m::PingRequestParams = Default::default(); Ok(out!(r)) }
        "PingRequestParamsMeta.default" => { let r: m::PingRequestParamsMeta = Default::default(); Ok(out!(r)) }
        "PromptListChangedNotificationParams.default" => { let r: m::PromptListChangedNotificationParams = Default::default(); Ok(out!(r)) }
        "RequestParams.default" => { let r: m::RequestParams = Default::default(); Ok(out!(r)) }
        "RequestParamsMeta.default" => { let r: m::RequestParamsMeta = Default::default(); Ok(out!(r)) }
        "ResourceListChangedNotificationParams.default" => { let r: m::ResourceListChangedNotificationParams = Default::default(); Ok(out!(r)) }
        "Result.default" => { let r: m::Result = Default::default(); Ok(out!(r)) }
        "RootsListChangedNotificationParams.default" => { let r: m::RootsListChangedNotificationParams = Default::default(); Ok(out!(r)) }
        "ServerCapabilities.default" => { let r: m::ServerCapabilities = Default::default(); Ok(out!(r)) }
        "ServerCapabilitiesPrompts.default" => { let r: m::ServerCapabilitiesPrompts = Default::default(); Ok(out!(r)) }
        "ServerCapabilitiesResources.default" => { let r: m::ServerCapabilitiesResources = Default::default(); Ok(out!(r)) }
        "ServerCapabilitiesTools.default" => { let r: m::ServerCapabilitiesTools = Default::default(); Ok(out!(r)) }
        "ToolAnnotations.default" => { let r: m::ToolAnnotations = Default::default(); Ok(out!(r)) }
        "ToolListChangedNotificationParams.default" => { let r: m::ToolListChangedNotificationParams = Default::default(); Ok(out!(r)) }
        "RequestId.eq" => { let s: m::RequestId = arg(s, 0)?; let a0: m::RequestId = arg(a, 0)?; Ok(same_id(&s, &a0, &s == a0, &a0 == s)) }
        "RequestId.find" => { let a0: Vec<m::RequestId> = arg(a, 0)?; let a1: m::RequestId = arg(a, 1)?; Ok(find_id(a0, &a1)) }
        _ => Err(format!("no function {f}")),
    }
}
#[allow(unused_mut, unused_assignments, unused_variables)]
pub fn run_chain(t: &str, s: &V, calls: &[V]) -> R<(V, V)> {
    match t {
        "SdkError" => { let mut s: u::SdkError = arg(s, 0)?; for c in calls { let a = &c[1]; let _ = a; match c[0].as_str().unwrap_or("") { "with_message" => { let a0: String = arg(a, 0)?; s = u::SdkError::with_message(s, a0.as_str()); } "with_data" => { let a0: ::std::option::Option<::serde_json::Value> = arg(a, 0)?; s = u::SdkError::with_data(s, a0); } x => return Err(bad(x, c)) } } Ok((s.view(), text(&s))) }
        "RpcError" => { let mut s: m::RpcError = arg(s, 0)?; for c in calls { let a = &c[1]; let _ = a; match c[0].as_str().unwrap_or("") { "with_message" => { let a0: String = arg(a, 0)?; s = m::RpcError::with_message(s, a0); } "with_data" => { let a0: ::std::option::Option<::serde_json::Value> = arg(a, 0)?; s = m::RpcError::with_data(s, a0); } x => return Err(bad(x, c)) } } Ok((s.view(), text(&s))) }
        "CallToolResult" => { let mut s: m::CallToolResult = arg(s, 0)?; for c in calls { let a = &c[1]; let _ = a; match c[0].as_str().unwrap_or("") { "with_meta" => { let a0: Option<serde_json::Map<String,serde_json::Value>> = arg(a, 0)?; s = m::CallToolResult::with_meta(s, a0); } "with_structured_content" => { let a0: ::serde_json::Map<::std::string::String,::serde_json::Value> = arg(a, 0)?; s = m::CallToolResult::with_structured_content(s, a0); } "add_content" => { let a0: m::ContentBlock = arg(a, 0)?; s = m::CallToolResult::add_content(s, a0); } x => return Err(bad(x, c)) } } Ok((s.view(), text(&s))) }
        _ => Err(format!("no chain {t}")),
    }
}
pub fn consts() -> V {
    json!({"LATEST_PROTOCOL_VERSION": m::LATEST_PROTOCOL_VERSION, "JSONRPC_VERSION": m::JSONRPC_VERSION, "PARSE_ERROR": m::PARSE_ERROR, "INVALID_REQUEST": m::INVALID_REQUEST, "METHOD_NOT_FOUND": m::METHOD_NOT_FOUND, "INVALID_PARAMS": m::INVALID_PARAMS, "INTERNAL_ERROR": m::INTERNAL_ERROR})
}
pub const CALLS: &[&str] = &["AudioContent.new", "AudioContent.type_", "AudioContent.type_value", "AudioContent.type_name", "BooleanSchema.new", "BooleanSchema.type_", "BooleanSchema.type_value", "BooleanSchema.type_name", "CallToolRequest.new", "CallToolRequest.method", "CallToolRequest.method_value", "CallToolRequest.method_name", "CancelledNotification.new", "CancelledNotification.method", "CancelledNotification.method_value", "CancelledNotification.method_name", "ClientNotification.From<CancelledNotification>", "ClientNotification.From<InitializedNotification>", "ClientNotification.From<ProgressNotification>", "ClientNotification.From<RootsListChangedNotification>", "ClientRequest.From<InitializeRequest>", "ClientRequest.From<PingRequest>", "ClientRequest.From<ListResourcesRequest>", "ClientRequest.From<ListResourceTemplatesRequest>", "ClientRequest.From<ReadResourceRequest>", "ClientRequest.From<SubscribeRequest>", "ClientRequest.From<UnsubscribeRequest>", "ClientRequest.From<ListPromptsRequest>", "ClientRequest.From<GetPromptRequest>", "ClientRequest.From<ListToolsRequest>", "ClientRequest.From<CallToolRequest>", "ClientRequest.From<SetLevelRequest>", "ClientRequest.From<CompleteRequest>", "ClientResult.From<CreateMessageResult>", "ClientResult.From<ListRootsResult>", "ClientResult.From<ElicitResult>", "ClientResult.From<Result>", "CompleteRequest.new", "CompleteRequest.method", "CompleteRequest.method_value", "CompleteRequest.method_name", "CompleteRequestRef.From<PromptReference>", "CompleteRequestRef.From<ResourceTemplateReference>", "ContentBlock.From<TextContent>", "ContentBlock.From<ImageContent>", "ContentBlock.From<AudioContent>", "ContentBlock.From<ResourceLink>", "ContentBlock.From<EmbeddedResource>", "CreateMessageContent.From<TextContent>", "CreateMessageContent.From<ImageContent>", "CreateMessageContent.From<AudioContent>", "CreateMessageRequest.new", "CreateMessageRequest.method", "CreateMessageRequest.method_value", "CreateMessageRequest.method_name", "ElicitRequest.new", "ElicitRequest.method", "ElicitRequest.method_value", "ElicitRequest.method_name", "ElicitRequestedSchema.new", "ElicitRequestedSchema.type_", "ElicitRequestedSchema.type_value", "ElicitRequestedSchema.type_name", "ElicitResultAction.Display", "ElicitResultContent.From<bool>", "ElicitResultContent.From<i64>", "EmbeddedResource.new", "EmbeddedResource.type_", "EmbeddedResource.type_value", "EmbeddedResource.type_name", "EmbeddedResourceResource.From<TextResourceContents>", "EmbeddedResourceResource.From<BlobResourceContents>", "EnumSchema.new", "EnumSchema.type_", "EnumSchema.type_value", "EnumSchema.type_name", "GetPromptRequest.new", "GetPromptRequest.method", "GetPromptRequest.method_value", "GetPromptRequest.method_name", "ImageContent.new", "ImageContent.type_", "ImageContent.type_value", "ImageContent.type_name", "IncludeContext.Display", "InitializeRequest.new", "InitializeRequest.method", "InitializeRequest.method_value", "InitializeRequest.method_name", "InitializedNotification.new", "InitializedNotification.method", "InitializedNotification.method_value", "InitializedNotification.method_name", "JsonrpcError.new", "JsonrpcError.jsonrpc", "JsonrpcMessage.From<JsonrpcRequest>", "JsonrpcMessage.From<JsonrpcNotification>", "JsonrpcMessage.From<JsonrpcResponse>", "JsonrpcMessage.From<JsonrpcError>", "JsonrpcNotification.new", "JsonrpcNotification.jsonrpc", "JsonrpcRequest.new", "JsonrpcRequest.jsonrpc", "JsonrpcResponse.new", "JsonrpcResponse.jsonrpc", "ListPromptsRequest.new", "ListPromptsRequest.method", "ListPromptsRequest.method_value", "ListPromptsRequest.method_name", "ListResourceTemplatesRequest.new", "ListResourceTemplatesRequest.method", "ListResourceTemplatesRequest.method_value", "ListResourceTemplatesRequest.method_name", "ListResourcesRequest.new", "ListResourcesRequest.method", "ListResourcesRequest.method_value", "ListResourcesRequest.method_name", "ListRootsRequest.new", "ListRootsRequest.method", "ListRootsRequest.method_value", "ListRootsRequest.method_name", "ListToolsRequest.new", "ListToolsRequest.method", "ListToolsRequest.method_value", "ListToolsRequest.method_name", "LoggingLevel.Display", "LoggingMessageNotification.new", "LoggingMessageNotification.method", "LoggingMessageNotification.method_value", "LoggingMessageNotification.method_name", "NumberSchemaType.Display", "PingRequest.new", "PingRequest.method", "PingRequest.method_value", "PingRequest.method_name", "PrimitiveSchemaDefinition.From<StringSchema>", "PrimitiveSchemaDefinition.From<NumberSchema>", "PrimitiveSchemaDefinition.From<BooleanSchema>", "PrimitiveSchemaDefinition.From<EnumSchema>", "ProgressNotification.new", "ProgressNotification.method", "ProgressNotification.method_value", "ProgressNotification.method_name", "ProgressToken.From<i64>", "PromptListChangedNotification.new", "PromptListChangedNotification.method", "PromptListChangedNotification.method_value", "PromptListChangedNotification.method_name", "PromptReference.new", "PromptReference.type_", "PromptReference.type_value", "PromptReference.type_name", "ReadResourceContent.From<TextResourceContents>", "ReadResourceContent.From<BlobResourceContents>", "ReadResourceRequest.new", "ReadResourceRequest.method", "ReadResourceRequest.method_value", "ReadResourceRequest.method_name", "RequestId.From<i64>", "ResourceLink.new", "ResourceLink.type_", "ResourceLink.type_value", "ResourceLink.type_name", "ResourceListChangedNotification.new", "ResourceListChangedNotification.method", "ResourceListChangedNotification.method_value", "ResourceListChangedNotification.method_name", "ResourceTemplateReference.new", "ResourceTemplateReference.type_", "ResourceTemplateReference.type_value", "ResourceTemplateReference.type_name", "ResourceUpdatedNotification.new", "ResourceUpdatedNotification.method", "ResourceUpdatedNotification.method_value", "ResourceUpdatedNotification.method_name", "Role.Display", "RootsListChangedNotification.new", "RootsListChangedNotification.method", "RootsListChangedNotification.method_value", "RootsListChangedNotification.method_name", "SamplingMessageContent.From<TextContent>", "SamplingMessageContent.From<ImageContent>", "SamplingMessageContent.From<AudioContent>", "ServerNotification.From<CancelledNotification>", "ServerNotification.From<ProgressNotification>", "ServerNotification.From<ResourceListChangedNotification>", "ServerNotification.From<ResourceUpdatedNotification>", "ServerNotification.From<PromptListChangedNotification>", "ServerNotification.From<ToolListChangedNotification>", "ServerNotification.From<LoggingMessageNotification>", "ServerRequest.From<PingRequest>", "ServerRequest.From<CreateMessageRequest>", "ServerRequest.From<ListRootsRequest>", "ServerRequest.From<ElicitRequest>", "ServerResult.From<InitializeResult>", "ServerResult.From<ListResourcesResult>", "ServerResult.From<ListResourceTemplatesResult>", "ServerResult.From<ReadResourceResult>", "ServerResult.From<ListPromptsResult>", "ServerResult.From<GetPromptResult>", "ServerResult.From<ListToolsResult>", "ServerResult.From<CallToolResult>", "ServerResult.From<CompleteResult>", "ServerResult.From<Result>", "SetLevelRequest.new", "SetLevelRequest.method", "SetLevelRequest.method_value", "SetLevelRequest.method_name", "StringSchema.new", "StringSchema.type_", "StringSchema.type_value", "StringSchema.type_name", "StringSchemaFormat.Display", "SubscribeRequest.new", "SubscribeRequest.method", "SubscribeRequest.method_value", "SubscribeRequest.method_name", "TextContent.new", "TextContent.type_", "TextContent.type_value", "TextContent.type_name", "ToolInputSchema.new", "ToolInputSchema.type_", "ToolInputSchema.type_value", "ToolInputSchema.type_name", "ToolListChangedNotification.new", "ToolListChangedNotification.method", "ToolListChangedNotification.method_value", "ToolListChangedNotification.method_name", "ToolOutputSchema.new", "ToolOutputSchema.type_", "ToolOutputSchema.type_value", "ToolOutputSchema.type_name", "UnsubscribeRequest.new", "UnsubscribeRequest.method", "UnsubscribeRequest.method_value", "UnsubscribeRequest.method_name", "ClientRequest.method", "ClientNotification.method", "ServerRequest.method", "ServerNotification.method", "GenericResult.From<InitializeResult>", "GenericResult.From<ListResourcesResult>", "GenericResult.From<ListResourceTemplatesResult>", "GenericResult.From<ReadResourceResult>", "GenericResult.From<ListPromptsResult>", "GenericResult.From<GetPromptResult>", "GenericResult.From<ListToolsResult>", "GenericResult.From<CallToolResult>", "GenericResult.From<CompleteResult>", "MessageTypes.Display", "RequestId.Display", "ClientMessage.as_response", "ClientMessage.as_request", "ClientMessage.as_notification", "ClientMessage.as_error", "ClientMessage.is_initialize_request", "ClientMessage.is_initialized_notification", "ClientMessage.From<ClientJsonrpcNotification>", "ClientMessage.From<ClientJsonrpcRequest>", "ClientMessage.From<ClientJsonrpcResponse>", "ClientMessage.request_id", "ClientMessage.jsonrpc", "ClientMessage.is_response", "ClientMessage.is_request", "ClientMessage.is_notification", "ClientMessage.is_error", "ClientMessage.message_type", "ClientJsonrpcRequest.new", "ClientJsonrpcRequest.jsonrpc", "ClientJsonrpcRequest.Display", "ClientJsonrpcRequest.FromStr", "ClientRequest.TryFrom<RequestFromClient>", "RequestFromClient.method", "RequestFromClient.is_initialize_request", "RequestFromClient.From<ClientRequest>", "RequestFromClient.From<Value>", "ClientJsonrpcNotification.new", "ClientJsonrpcNotification.jsonrpc", "ClientJsonrpcNotification.Display", "ClientJsonrpcNotification.FromStr", "ClientNotification.TryFrom<NotificationFromClient>", "NotificationFromClient.is_initialized_notification", "ClientJsonrpcResponse.new", "ClientJsonrpcResponse.jsonrpc", "ClientJsonrpcResponse.Display", "ClientJsonrpcResponse.FromStr", "ClientResult.TryFrom<ResultFromClient>", "ResultFromClient.From<ClientResult>", "ResultFromClient.From<Value>", "ClientMessage.FromStr", "ClientMessage.Display", "ServerMessage.as_response", "ServerMessage.as_request", "ServerMessage.as_notification", "ServerMessage.as_error", "ServerMessage.From<ServerJsonrpcNotification>", "ServerMessage.From<ServerJsonrpcRequest>", "ServerMessage.From<ServerJsonrpcResponse>", "ServerMessage.request_id", "ServerMessage.jsonrpc", "ServerMessage.is_response", "ServerMessage.is_request", "ServerMessage.is_notification", "ServerMessage.is_error", "ServerMessage.message_type", "ServerMessage.FromStr", "ServerMessage.Display", "ServerJsonrpcRequest.new", "ServerJsonrpcRequest.jsonrpc", "ServerJsonrpcRequest.Display", "ServerJsonrpcRequest.FromStr", "ServerRequest.TryFrom<RequestFromServer>", "RequestFromServer.method", "RequestFromServer.From<ServerRequest>", "RequestFromServer.From<Value>", "ServerJsonrpcNotification.new", "ServerJsonrpcNotification.jsonrpc", "ServerJsonrpcNotification.Display", "ServerJsonrpcNotification.FromStr", "ServerNotification.TryFrom<NotificationFromServer>", "NotificationFromServer.method", "ServerJsonrpcResponse.new", "ServerJsonrpcResponse.jsonrpc", "ServerJsonrpcResponse.Display", "ServerJsonrpcResponse.FromStr", "ServerResult.TryFrom<ResultFromServer>", "ResultFromServer.From<ServerResult>", "ResultFromServer.From<Value>", "JsonrpcError.Display", "JsonrpcError.FromStr", "MessageFromServer.From<RequestFromServer>", "MessageFromServer.From<ResultFromServer>", "MessageFromServer.From<NotificationFromServer>", "MessageFromServer.From<RpcError>", "MessageFromServer.is_response", "MessageFromServer.is_request", "MessageFromServer.is_notification", "MessageFromServer.is_error", "MessageFromServer.message_type", "ServerMessage.FromMessage<MessageFromServer>", "MessageFromClient.is_initialize_request", "MessageFromClient.is_initialized_notification", "MessageFromClient.From<RequestFromClient>", "MessageFromClient.From<ResultFromClient>", "MessageFromClient.From<NotificationFromClient>", "MessageFromClient.From<RpcError>", "MessageFromClient.is_response", "MessageFromClient.is_request", "MessageFromClient.is_notification", "MessageFromClient.is_error", "MessageFromClient.message_type", "ClientMessage.FromMessage<MessageFromClient>", "UnknownTool.Display", "CallToolError.unknown_tool", "CallToolError.invalid_arguments", "CallToolError.from_message", "RpcError.From<CallToolError>", "CallToolResult.From<CallToolError>", "CallToolError.Display", "CallToolRequest.tool_name", "TextContent.From<T>", "ClientMessages.is_batch", "ClientMessages.includes_request", "ClientMessages.as_single", "ClientMessages.as_batch", "ClientMessages.From<ClientMessage>", "ClientMessages.From<Vec<ClientMessage>>", "ClientMessages.Display", "ServerMessages.is_batch", "ServerMessages.includes_request", "ServerMessages.as_single", "ServerMessages.as_batch", "ServerMessages.From<ServerMessage>", "ServerMessages.From<Vec<ServerMessage>>", "ServerMessages.Display", "MessagesFromServer.is_batch", "MessagesFromServer.includes_request", "MessagesFromServer.as_single", "MessagesFromServer.as_batch", "MessagesFromServer.From<MessageFromServer>", "MessagesFromServer.From<Vec<MessageFromServer>>", "MessagesFromClient.is_batch", "MessagesFromClient.includes_request", "MessagesFromClient.as_single", "MessagesFromClient.as_batch", "MessagesFromClient.From<MessageFromClient>", "MessagesFromClient.From<Vec<MessageFromClient>>", "StringSchemaFormat.FromStr", "PrimitiveSchemaDefinition.TryFrom<&Map<String,Value>>", "RequestFromClient.From<InitializeRequest>", "RequestFromClient.From<PingRequest>", "RequestFromClient.From<ListResourcesRequest>", "RequestFromClient.From<ListResourceTemplatesRequest>", "RequestFromClient.From<ReadResourceRequest>", "RequestFromClient.From<SubscribeRequest>", "RequestFromClient.From<UnsubscribeRequest>", "RequestFromClient.From<ListPromptsRequest>", "RequestFromClient.From<GetPromptRequest>", "RequestFromClient.From<ListToolsRequest>", "RequestFromClient.From<CallToolRequest>", "RequestFromClient.From<SetLevelRequest>", "RequestFromClient.From<CompleteRequest>", "MessageFromClient.From<InitializeRequest>", "MessageFromClient.From<PingRequest>", "MessageFromClient.From<ListResourcesRequest>", "MessageFromClient.From<ListResourceTemplatesRequest>", "MessageFromClient.From<ReadResourceRequest>", "MessageFromClient.From<SubscribeRequest>", "MessageFromClient.From<UnsubscribeRequest>", "MessageFromClient.From<ListPromptsRequest>", "MessageFromClient.From<GetPromptRequest>", "MessageFromClient.From<ListToolsRequest>", "MessageFromClient.From<CallToolRequest>", "MessageFromClient.From<SetLevelRequest>", "MessageFromClient.From<CompleteRequest>", "NotificationFromClient.From<CancelledNotification>", "NotificationFromClient.From<InitializedNotification>", "NotificationFromClient.From<ProgressNotification>", "NotificationFromClient.From<RootsListChangedNotification>", "ClientJsonrpcNotification.From<CancelledNotification>", "ClientJsonrpcNotification.From<InitializedNotification>", "ClientJsonrpcNotification.From<ProgressNotification>", "ClientJsonrpcNotification.From<RootsListChangedNotification>", "MessageFromClient.From<CancelledNotification>", "MessageFromClient.From<InitializedNotification>", "MessageFromClient.From<ProgressNotification>", "MessageFromClient.From<RootsListChangedNotification>", "ResultFromClient.From<Result>", "ResultFromClient.From<CreateMessageResult>", "ResultFromClient.From<ListRootsResult>", "ResultFromClient.From<ElicitResult>", "MessageFromClient.From<Result>", "MessageFromClient.From<CreateMessageResult>", "MessageFromClient.From<ListRootsResult>", "MessageFromClient.From<ElicitResult>", "i64.From<SdkErrorCodes>", "SdkError.Display", "SdkError.new", "SdkError.connection_closed", "SdkError.request_timeout", "SdkError.session_not_found", "SdkError.invalid_request", "SdkError.method_not_found", "SdkError.invalid_params", "SdkError.internal_error", "SdkError.parse_error", "SdkError.resource_not_found", "SdkError.bad_request", "SdkError.with_message", "SdkError.with_data", "i64.From<RpcErrorCodes>", "RpcError.new", "RpcError.method_not_found", "RpcError.invalid_params", "RpcError.invalid_request", "RpcError.internal_error", "RpcError.parse_error", "RpcError.with_message", "RpcError.with_data", "RpcError.Display", "RpcError.FromStr", "JsonrpcError.create", "NotificationFromServer.From<CancelledNotification>", "NotificationFromServer.From<ProgressNotification>", "NotificationFromServer.From<ResourceListChangedNotification>", "NotificationFromServer.From<ResourceUpdatedNotification>", "NotificationFromServer.From<PromptListChangedNotification>", "NotificationFromServer.From<ToolListChangedNotification>", "NotificationFromServer.From<LoggingMessageNotification>", "ServerJsonrpcNotification.From<CancelledNotification>", "ServerJsonrpcNotification.From<ProgressNotification>", "ServerJsonrpcNotification.From<ResourceListChangedNotification>", "ServerJsonrpcNotification.From<ResourceUpdatedNotification>", "ServerJsonrpcNotification.From<PromptListChangedNotification>", "ServerJsonrpcNotification.From<ToolListChangedNotification>", "ServerJsonrpcNotification.From<LoggingMessageNotification>", "MessageFromServer.From<CancelledNotification>", "MessageFromServer.From<ProgressNotification>", "MessageFromServer.From<ResourceListChangedNotification>", "MessageFromServer.From<ResourceUpdatedNotification>", "MessageFromServer.From<PromptListChangedNotification>", "MessageFromServer.From<ToolListChangedNotification>", "MessageFromServer.From<LoggingMessageNotification>", "RequestFromServer.From<PingRequest>", "RequestFromServer.From<CreateMessageRequest>", "RequestFromServer.From<ListRootsRequest>", "RequestFromServer.From<ElicitRequest>", "MessageFromServer.From<PingRequest>", "MessageFromServer.From<CreateMessageRequest>", "MessageFromServer.From<ListRootsRequest>", "MessageFromServer.From<ElicitRequest>", "ResultFromServer.From<Result>", "ResultFromServer.From<InitializeResult>", "ResultFromServer.From<ListResourcesResult>", "ResultFromServer.From<ListResourceTemplatesResult>", "ResultFromServer.From<ReadResourceResult>", "ResultFromServer.From<ListPromptsResult>", "ResultFromServer.From<GetPromptResult>", "ResultFromServer.From<ListToolsResult>", "ResultFromServer.From<CallToolResult>", "ResultFromServer.From<CompleteResult>", "MessageFromServer.From<Result>", "MessageFromServer.From<InitializeResult>", "MessageFromServer.From<ListResourcesResult>", "MessageFromServer.From<ListResourceTemplatesResult>", "MessageFromServer.From<ReadResourceResult>", "MessageFromServer.From<ListPromptsResult>", "MessageFromServer.From<GetPromptResult>", "MessageFromServer.From<ListToolsResult>", "MessageFromServer.From<CallToolResult>", "MessageFromServer.From<CompleteResult>", "ClientMessage.FromMessage<InitializeRequest>", "InitializeRequest.ToMessage<ClientMessage>", "ClientMessage.FromMessage<PingRequest>", "PingRequest.ToMessage<ClientMessage>", "ClientMessage.FromMessage<ListResourcesRequest>", "ListResourcesRequest.ToMessage<ClientMessage>", "ClientMessage.FromMessage<ListResourceTemplatesRequest>", "ListResourceTemplatesRequest.ToMessage<ClientMessage>", "ClientMessage.FromMessage<ReadResourceRequest>", "ReadResourceRequest.ToMessage<ClientMessage>", "ClientMessage.FromMessage<SubscribeRequest>", "SubscribeRequest.ToMessage<ClientMessage>", "ClientMessage.FromMessage<UnsubscribeRequest>", "UnsubscribeRequest.ToMessage<ClientMessage>", "ClientMessage.FromMessage<ListPromptsRequest>", "ListPromptsRequest.ToMessage<ClientMessage>", "ClientMessage.FromMessage<GetPromptRequest>", "GetPromptRequest.ToMessage<ClientMessage>", "ClientMessage.FromMessage<ListToolsRequest>", "ListToolsRequest.ToMessage<ClientMessage>", "ClientMessage.FromMessage<CallToolRequest>", "CallToolRequest.ToMessage<ClientMessage>", "ClientMessage.FromMessage<SetLevelRequest>", "SetLevelRequest.ToMessage<ClientMessage>", "ClientMessage.FromMessage<CompleteRequest>", "CompleteRequest.ToMessage<ClientMessage>", "ClientMessage.FromMessage<Result>", "Result.ToMessage<ClientMessage>", "ClientMessage.FromMessage<CreateMessageResult>", "CreateMessageResult.ToMessage<ClientMessage>", "ClientMessage.FromMessage<ListRootsResult>", "ListRootsResult.ToMessage<ClientMessage>", "ClientMessage.FromMessage<ElicitResult>", "ElicitResult.ToMessage<ClientMessage>", "ClientMessage.FromMessage<CancelledNotification>", "CancelledNotification.ToMessage<ClientMessage>", "ClientMessage.FromMessage<InitializedNotification>", "InitializedNotification.ToMessage<ClientMessage>", "ClientMessage.FromMessage<ProgressNotification>", "ProgressNotification.ToMessage<ClientMessage>", "ClientMessage.FromMessage<RootsListChangedNotification>", "RootsListChangedNotification.ToMessage<ClientMessage>", "ServerMessage.FromMessage<PingRequest>", "PingRequest.ToMessage<ServerMessage>", "ServerMessage.FromMessage<CreateMessageRequest>", "CreateMessageRequest.ToMessage<ServerMessage>", "ServerMessage.FromMessage<ListRootsRequest>", "ListRootsRequest.ToMessage<ServerMessage>", "ServerMessage.FromMessage<ElicitRequest>", "ElicitRequest.ToMessage<ServerMessage>", "ServerMessage.FromMessage<Result>", "Result.ToMessage<ServerMessage>", "ServerMessage.FromMessage<InitializeResult>", "InitializeResult.ToMessage<ServerMessage>", "ServerMessage.FromMessage<ListResourcesResult>", "ListResourcesResult.ToMessage<ServerMessage>", "ServerMessage.FromMessage<ListResourceTemplatesResult>", "ListResourceTemplatesResult.ToMessage<ServerMessage>", "ServerMessage.FromMessage<ReadResourceResult>", "ReadResourceResult.ToMessage<ServerMessage>", "ServerMessage.FromMessage<ListPromptsResult>", "ListPromptsResult.ToMessage<ServerMessage>", "ServerMessage.FromMessage<GetPromptResult>", "GetPromptResult.ToMessage<ServerMessage>", "ServerMessage.FromMessage<ListToolsResult>", "ListToolsResult.ToMessage<ServerMessage>", "ServerMessage.FromMessage<CallToolResult>", "CallToolResult.ToMessage<ServerMessage>", "ServerMessage.FromMessage<CompleteResult>", "CompleteResult.ToMessage<ServerMessage>", "ServerMessage.FromMessage<CancelledNotification>", "CancelledNotification.ToMessage<ServerMessage>", "ServerMessage.FromMessage<ProgressNotification>", "ProgressNotification.ToMessage<ServerMessage>", "ServerMessage.FromMessage<ResourceListChangedNotification>", "ResourceListChangedNotification.ToMessage<ServerMessage>", "ServerMessage.FromMessage<ResourceUpdatedNotification>", "ResourceUpdatedNotification.ToMessage<ServerMessage>", "ServerMessage.FromMessage<PromptListChangedNotification>", "PromptListChangedNotification.ToMessage<ServerMessage>", "ServerMessage.FromMessage<ToolListChangedNotification>", "ToolListChangedNotification.ToMessage<ServerMessage>", "ServerMessage.FromMessage<LoggingMessageNotification>", "LoggingMessageNotification.ToMessage<ServerMessage>", "InitializeRequest.TryFrom<RequestFromClient>", "PingRequest.TryFrom<RequestFromClient>", "ListResourcesRequest.TryFrom<RequestFromClient>", "ListResourceTemplatesRequest.TryFrom<RequestFromClient>", "ReadResourceRequest.TryFrom<RequestFromClient>", "SubscribeRequest.TryFrom<RequestFromClient>", "UnsubscribeRequest.TryFrom<RequestFromClient>", "ListPromptsRequest.TryFrom<RequestFromClient>", "GetPromptRequest.TryFrom<RequestFromClient>", "ListToolsRequest.TryFrom<RequestFromClient>", "CallToolRequest.TryFrom<RequestFromClient>", "SetLevelRequest.TryFrom<RequestFromClient>", "CompleteRequest.TryFrom<RequestFromClient>", "Result.TryFrom<ResultFromClient>", "CreateMessageResult.TryFrom<ResultFromClient>", "ListRootsResult.TryFrom<ResultFromClient>", "ElicitResult.TryFrom<ResultFromClient>", "CancelledNotification.TryFrom<NotificationFromClient>", "InitializedNotification.TryFrom<NotificationFromClient>", "ProgressNotification.TryFrom<NotificationFromClient>", "RootsListChangedNotification.TryFrom<NotificationFromClient>", "PingRequest.TryFrom<RequestFromServer>", "CreateMessageRequest.TryFrom<RequestFromServer>", "ListRootsRequest.TryFrom<RequestFromServer>", "ElicitRequest.TryFrom<RequestFromServer>", "Result.TryFrom<ResultFromServer>", "InitializeResult.TryFrom<ResultFromServer>", "ListResourcesResult.TryFrom<ResultFromServer>", "ListResourceTemplatesResult.TryFrom<ResultFromServer>", "ReadResourceResult.TryFrom<ResultFromServer>", "ListPromptsResult.TryFrom<ResultFromServer>", "GetPromptResult.TryFrom<ResultFromServer>", "ListToolsResult.TryFrom<ResultFromServer>", "CallToolResult.TryFrom<ResultFromServer>", "CompleteResult.TryFrom<ResultFromServer>", "CancelledNotification.TryFrom<NotificationFromServer>", "ProgressNotification.TryFrom<NotificationFromServer>", "ResourceListChangedNotification.TryFrom<NotificationFromServer>", "ResourceUpdatedNotification.TryFrom<NotificationFromServer>", "PromptListChangedNotification.TryFrom<NotificationFromServer>", "ToolListChangedNotification.TryFrom<NotificationFromServer>", "LoggingMessageNotification.TryFrom<NotificationFromServer>", "ContentBlock.text_content", "ContentBlock.image_content", "ContentBlock.audio_content", "ContentBlock.resource_link", "ContentBlock.embedded_resource", "ContentBlock.content_type", "ContentBlock.as_text_content", "ContentBlock.as_image_content", "ContentBlock.as_audio_content", "ContentBlock.as_resource_link", "ContentBlock.as_embedded_resource", "CallToolResult.text_content", "CallToolResult.image_content", "CallToolResult.audio_content", "CallToolResult.resource_link", "CallToolResult.embedded_resource", "CallToolResult.with_error", "CallToolResult.with_meta", "CallToolResult.with_structured_content", "CallToolResult.from_content", "CallToolResult.add_content", "Annotations.default", "ClientCapabilities.default", "ClientRoots.default", "CompleteRequestContext.default", "InitializedNotificationParams.default", "JsonrpcNotificationParams.default", "JsonrpcRequestParams.default", "JsonrpcRequestParamsMeta.default", "ListPromptsRequestParams.default", "ListResourceTemplatesRequestParams.default", "ListResourcesRequestParams.default", "ListRootsRequestParams.default", "ListRootsRequestParamsMeta.default", "ListToolsRequestParams.default", "ModelHint.default", "ModelPreferences.default", "NotificationParams.default", "PaginatedRequestParams.default", "PaginatedResult.default", "PingRequestParams.default", "PingRequestParamsMeta.default", "PromptListChangedNotificationParams.default", "RequestParams.default", "RequestParamsMeta.default", "ResourceListChangedNotificationParams.default", "Result.default", "RootsListChangedNotificationParams.default", "ServerCapabilities.default", "ServerCapabilitiesPrompts.default", "ServerCapabilitiesResources.default", "ServerCapabilitiesTools.default", "ToolAnnotations.default", "ToolListChangedNotificationParams.default", "RequestId.eq", "RequestId.find"];
pub const TYPES: &[&str] = &["Annotations", "AudioContent", "BaseMetadata", "BlobResourceContents", "BooleanSchema", "CallToolRequest", "CallToolRequestParams", "CallToolResult", "CancelledNotification", "CancelledNotificationParams", "ClientCapabilities", "ClientNotification", "ClientRequest", "ClientResult", "ClientRoots", "CompleteRequest", "CompleteRequestArgument", "CompleteRequestContext", "CompleteRequestParams", "CompleteRequestRef", "CompleteResult", "CompleteResultCompletion", "ContentBlock", "CreateMessageContent", "CreateMessageRequest", "CreateMessageRequestParams", "CreateMessageResult", "Cursor", "ElicitRequest", "ElicitRequestParams", "ElicitRequestedSchema", "ElicitResult", "ElicitResultAction", "ElicitResultContent", "EmbeddedResource", "EmbeddedResourceResource", "EmptyResult", "EnumSchema", "GetPromptRequest", "GetPromptRequestParams", "GetPromptResult", "ImageContent", "Implementation", "IncludeContext", "InitializeRequest", "InitializeRequestParams", "InitializeResult", "InitializedNotification", "InitializedNotificationParams", "JsonrpcError", "JsonrpcMessage", "JsonrpcNotification", "JsonrpcNotificationParams", "JsonrpcRequest", "JsonrpcRequestParams", "JsonrpcRequestParamsMeta", "JsonrpcResponse", "ListPromptsRequest", "ListPromptsRequestParams", "ListPromptsResult", "ListResourceTemplatesRequest", "ListResourceTemplatesRequestParams", "ListResourceTemplatesResult", "ListResourcesRequest", "ListResourcesRequestParams", "ListResourcesResult", "ListRootsRequest", "ListRootsRequestParams", "ListRootsRequestParamsMeta", "ListRootsResult", "ListToolsRequest", "ListToolsRequestParams", "ListToolsResult", "LoggingLevel", "LoggingMessageNotification", "LoggingMessageNotificationParams", "ModelHint", "ModelPreferences", "Notification", "NotificationParams", "NumberSchema", "NumberSchemaType", "PaginatedRequest", "PaginatedRequestParams", "PaginatedResult", "PingRequest", "PingRequestParams", "PingRequestParamsMeta", "PrimitiveSchemaDefinition", "ProgressNotification", "ProgressNotificationParams", "ProgressToken", "Prompt", "PromptArgument", "PromptListChangedNotification", "PromptListChangedNotificationParams", "PromptMessage", "PromptReference", "ReadResourceContent", "ReadResourceRequest", "ReadResourceRequestParams", "ReadResourceResult", "Request", "RequestId", "RequestParams", "RequestParamsMeta", "Resource", "ResourceContents", "ResourceLink", "ResourceListChangedNotification", "ResourceListChangedNotificationParams", "ResourceTemplate", "ResourceTemplateReference", "ResourceUpdatedNotification", "ResourceUpdatedNotificationParams", "Result", "Role", "Root", "RootsListChangedNotification", "RootsListChangedNotificationParams", "RpcError", "SamplingMessage", "SamplingMessageContent", "ServerCapabilities", "ServerCapabilitiesPrompts", "ServerCapabilitiesResources", "ServerCapabilitiesTools", "ServerNotification", "ServerRequest", "ServerResult", "SetLevelRequest", "SetLevelRequestParams", "StringSchema", "StringSchemaFormat", "SubscribeRequest", "SubscribeRequestParams", "TextContent", "TextResourceContents", "Tool", "ToolAnnotations", "ToolInputSchema", "ToolListChangedNotification", "ToolListChangedNotificationParams", "ToolOutputSchema", "UnsubscribeRequest", "UnsubscribeRequestParams", "ClientMessage", "ClientJsonrpcRequest", "RequestFromClient", "ClientJsonrpcNotification", "NotificationFromClient", "ClientJsonrpcResponse", "ResultFromClient", "ServerMessage", "ServerJsonrpcRequest", "RequestFromServer", "ServerJsonrpcNotification", "NotificationFromServer", "ServerJsonrpcResponse", "ResultFromServer", "MessageFromServer", "MessageFromClient", "ClientMessages", "ServerMessages", "MessagesFromServer", "MessagesFromClient", "SdkError"];
