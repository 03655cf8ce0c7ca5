// Generated by tools/gen_harness.py. Typed glue for schema version 2025_11_25.
use crate::core::*;
use crate::out;
use rust_mcp_schema::mcp_2025_11_25 as m;
use rust_mcp_schema::mcp_2025_11_25::schema_utils as u;
#[allow(unused_imports)]
use rust_mcp_schema::mcp_2025_11_25::schema_utils::*;
use serde_json::json;
use serde_json::Value as V;

impl View for m::Annotations { fn view(&self) -> V { vs(vec![("audience", self.audience.view()), ("last_modified", self.last_modified.view()), ("priority", self.priority.view())]) } }
impl Build for m::Annotations { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("Annotations", v)); } Ok(m::Annotations { audience: fld(v, "audience")?, last_modified: fld(v, "last_modified")?, priority: fld(v, "priority")? }) } }
impl View for m::AudioContent { fn view(&self) -> V { vs(vec![("annotations", self.annotations.view()), ("data", self.data.view()), ("meta", self.meta.view()), ("mime_type", self.mime_type.view()), ("type_", self.type_().view())]) } }
impl Build for m::AudioContent { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("AudioContent", v)) } }
impl View for m::BaseMetadata { fn view(&self) -> V { vs(vec![("name", self.name.view()), ("title", self.title.view())]) } }
impl Build for m::BaseMetadata { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("BaseMetadata", v)); } Ok(m::BaseMetadata { name: fld(v, "name")?, title: fld(v, "title")? }) } }
impl View for m::BlobResourceContents { fn view(&self) -> V { vs(vec![("blob", self.blob.view()), ("meta", self.meta.view()), ("mime_type", self.mime_type.view()), ("uri", self.uri.view())]) } }
impl Build for m::BlobResourceContents { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("BlobResourceContents", v)); } Ok(m::BlobResourceContents { blob: fld(v, "blob")?, meta: fld(v, "meta")?, mime_type: fld(v, "mime_type")?, uri: fld(v, "uri")? }) } }
impl View for m::BooleanSchema { fn view(&self) -> V { vs(vec![("default", self.default.view()), ("description", self.description.view()), ("title", self.title.view()), ("type_", self.type_().view())]) } }
impl Build for m::BooleanSchema { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("BooleanSchema", v)) } }
impl View for m::CallToolMeta { fn view(&self) -> V { vs(vec![("progress_token", self.progress_token.view()), ("extra", self.extra.view())]) } }
impl Build for m::CallToolMeta { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("CallToolMeta", v)); } Ok(m::CallToolMeta { progress_token: fld(v, "progress_token")?, extra: fld(v, "extra")? }) } }
impl View for m::CallToolRequest { fn view(&self) -> V { vs(vec![("id", self.id.view()), ("jsonrpc", self.jsonrpc().view()), ("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::CallToolRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("CallToolRequest", v)) } }
impl View for m::CallToolRequestParams { fn view(&self) -> V { vs(vec![("arguments", self.arguments.view()), ("meta", self.meta.view()), ("name", self.name.view()), ("task", self.task.view())]) } }
impl Build for m::CallToolRequestParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("CallToolRequestParams", v)); } Ok(m::CallToolRequestParams { arguments: fld(v, "arguments")?, meta: fld(v, "meta")?, name: fld(v, "name")?, task: fld(v, "task")? }) } }
impl View for m::CallToolResult { fn view(&self) -> V { vs(vec![("content", self.content.view()), ("is_error", self.is_error.view()), ("meta", self.meta.view()), ("structured_content", self.structured_content.view())]) } }
impl Build for m::CallToolResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("CallToolResult", v)); } Ok(m::CallToolResult { content: fld(v, "content")?, is_error: fld(v, "is_error")?, meta: fld(v, "meta")?, structured_content: fld(v, "structured_content")? }) } }
impl View for m::CancelTaskParams { fn view(&self) -> V { vs(vec![("task_id", self.task_id.view())]) } }
impl Build for m::CancelTaskParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("CancelTaskParams", v)); } Ok(m::CancelTaskParams { task_id: fld(v, "task_id")? }) } }
impl View for m::CancelTaskRequest { fn view(&self) -> V { vs(vec![("id", self.id.view()), ("jsonrpc", self.jsonrpc().view()), ("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::CancelTaskRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("CancelTaskRequest", v)) } }
impl View for m::CancelTaskResult { fn view(&self) -> V { vs(vec![("created_at", self.created_at.view()), ("last_updated_at", self.last_updated_at.view()), ("meta", self.meta.view()), ("poll_interval", self.poll_interval.view()), ("status", self.status.view()), ("status_message", self.status_message.view()), ("task_id", self.task_id.view()), ("ttl", self.ttl.view()), ("extra", self.extra.view())]) } }
impl Build for m::CancelTaskResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("CancelTaskResult", v)); } Ok(m::CancelTaskResult { created_at: fld(v, "created_at")?, last_updated_at: fld(v, "last_updated_at")?, meta: fld(v, "meta")?, poll_interval: fld(v, "poll_interval")?, status: fld(v, "status")?, status_message: fld(v, "status_message")?, task_id: fld(v, "task_id")?, ttl: fld(v, "ttl")?, extra: fld(v, "extra")? }) } }
impl View for m::CancelledNotification { fn view(&self) -> V { vs(vec![("jsonrpc", self.jsonrpc().view()), ("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::CancelledNotification { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("CancelledNotification", v)) } }
impl View for m::CancelledNotificationParams { fn view(&self) -> V { vs(vec![("meta", self.meta.view()), ("reason", self.reason.view()), ("request_id", self.request_id.view())]) } }
impl Build for m::CancelledNotificationParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("CancelledNotificationParams", v)); } Ok(m::CancelledNotificationParams { meta: fld(v, "meta")?, reason: fld(v, "reason")?, request_id: fld(v, "request_id")? }) } }
impl View for m::ClientCapabilities { fn view(&self) -> V { vs(vec![("elicitation", self.elicitation.view()), ("experimental", self.experimental.view()), ("roots", self.roots.view()), ("sampling", self.sampling.view()), ("tasks", self.tasks.view())]) } }
impl Build for m::ClientCapabilities { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ClientCapabilities", v)); } Ok(m::ClientCapabilities { elicitation: fld(v, "elicitation")?, experimental: fld(v, "experimental")?, roots: fld(v, "roots")?, sampling: fld(v, "sampling")?, tasks: fld(v, "tasks")? }) } }
impl View for m::ClientElicitation { fn view(&self) -> V { vs(vec![("form", self.form.view()), ("url", self.url.view())]) } }
impl Build for m::ClientElicitation { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ClientElicitation", v)); } Ok(m::ClientElicitation { form: fld(v, "form")?, url: fld(v, "url")? }) } }
impl View for m::ClientNotification { fn view(&self) -> V { match self { m::ClientNotification::CancelledNotification(x) => json!(["E", "CancelledNotification", x.view()]), m::ClientNotification::InitializedNotification(x) => json!(["E", "InitializedNotification", x.view()]), m::ClientNotification::ProgressNotification(x) => json!(["E", "ProgressNotification", x.view()]), m::ClientNotification::TaskStatusNotification(x) => json!(["E", "TaskStatusNotification", x.view()]), m::ClientNotification::RootsListChangedNotification(x) => json!(["E", "RootsListChangedNotification", x.view()]) } } }
impl Build for m::ClientNotification { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("ClientNotification", v)); } Ok(match v[1].as_str().unwrap_or("") { "CancelledNotification" => m::ClientNotification::CancelledNotification(Build::build(&v[2])?), "InitializedNotification" => m::ClientNotification::InitializedNotification(Build::build(&v[2])?), "ProgressNotification" => m::ClientNotification::ProgressNotification(Build::build(&v[2])?), "TaskStatusNotification" => m::ClientNotification::TaskStatusNotification(Build::build(&v[2])?), "RootsListChangedNotification" => m::ClientNotification::RootsListChangedNotification(Build::build(&v[2])?), _ => return Err(bad("ClientNotification", v)) }) } }
impl View for m::ClientRequest { fn view(&self) -> V { match self { m::ClientRequest::InitializeRequest(x) => json!(["E", "InitializeRequest", x.view()]), m::ClientRequest::PingRequest(x) => json!(["E", "PingRequest", x.view()]), m::ClientRequest::ListResourcesRequest(x) => json!(["E", "ListResourcesRequest", x.view()]), m::ClientRequest::ListResourceTemplatesRequest(x) => json!(["E", "ListResourceTemplatesRequest", x.view()]), m::ClientRequest::ReadResourceRequest(x) => json!(["E", "ReadResourceRequest", x.view()]), m::ClientRequest::SubscribeRequest(x) => json!(["E", "SubscribeRequest", x.view()]), m::ClientRequest::UnsubscribeRequest(x) => json!(["E", "UnsubscribeRequest", x.view()]), m::ClientRequest::ListPromptsRequest(x) => json!(["E", "ListPromptsRequest", x.view()]), m::ClientRequest::GetPromptRequest(x) => json!(["E", "GetPromptRequest", x.view()]), m::ClientRequest::ListToolsRequest(x) => json!(["E", "ListToolsRequest", x.view()]), m::ClientRequest::CallToolRequest(x) => json!(["E", "CallToolRequest", x.view()]), m::ClientRequest::GetTaskRequest(x) => json!(["E", "GetTaskRequest", x.view()]), m::ClientRequest::GetTaskPayloadRequest(x) => json!(["E", "GetTaskPayloadRequest", x.view()]), m::ClientRequest::CancelTaskRequest(x) => json!(["E", "CancelTaskRequest", x.view()]), m::ClientRequest::ListTasksRequest(x) => json!(["E", "ListTasksRequest", x.view()]), m::ClientRequest::SetLevelRequest(x) => json!(["E", "SetLevelRequest", x.view()]), m::ClientRequest::CompleteRequest(x) => json!(["E", "CompleteRequest", x.view()]) } } }
impl Build for m::ClientRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("ClientRequest", v)); } Ok(match v[1].as_str().unwrap_or("") { "InitializeRequest" => m::ClientRequest::InitializeRequest(Build::build(&v[2])?), "PingRequest" => m::ClientRequest::PingRequest(Build::build(&v[2])?), "ListResourcesRequest" => m::ClientRequest::ListResourcesRequest(Build::build(&v[2])?), "ListResourceTemplatesRequest" => m::ClientRequest::ListResourceTemplatesRequest(Build::build(&v[2])?), "ReadResourceRequest" => m::ClientRequest::ReadResourceRequest(Build::build(&v[2])?), "SubscribeRequest" => m::ClientRequest::SubscribeRequest(Build::build(&v[2])?), "UnsubscribeRequest" => m::ClientRequest::UnsubscribeRequest(Build::build(&v[2])?), "ListPromptsRequest" => m::ClientRequest::ListPromptsRequest(Build::build(&v[2])?), "GetPromptRequest" => m::ClientRequest::GetPromptRequest(Build::build(&v[2])?), "ListToolsRequest" => m::ClientRequest::ListToolsRequest(Build::build(&v[2])?), "CallToolRequest" => m::ClientRequest::CallToolRequest(Build::build(&v[2])?), "GetTaskRequest" => m::ClientRequest::GetTaskRequest(Build::build(&v[2])?), "GetTaskPayloadRequest" => m::ClientRequest::GetTaskPayloadRequest(Build::build(&v[2])?), "CancelTaskRequest" => m::ClientRequest::CancelTaskRequest(Build::build(&v[2])?), "ListTasksRequest" => m::ClientRequest::ListTasksRequest(Build::build(&v[2])?), "SetLevelRequest" => m::ClientRequest::SetLevelRequest(Build::build(&v[2])?), "CompleteRequest" => m::ClientRequest::CompleteRequest(Build::build(&v[2])?), _ => return Err(bad("ClientRequest", v)) }) } }
impl View for m::ClientResult { fn view(&self) -> V { match self { m::ClientResult::GetTaskResult(x) => json!(["E", "GetTaskResult", x.view()]), m::ClientResult::CancelTaskResult(x) => json!(["E", "CancelTaskResult", x.view()]), m::ClientResult::ListTasksResult(x) => json!(["E", "ListTasksResult", x.view()]), m::ClientResult::CreateMessageResult(x) => json!(["E", "CreateMessageResult", x.view()]), m::ClientResult::ListRootsResult(x) => json!(["E", "ListRootsResult", x.view()]), m::ClientResult::ElicitResult(x) => json!(["E", "ElicitResult", x.view()]), m::ClientResult::Result(x) => json!(["E", "Result", x.view()]), m::ClientResult::GetTaskPayloadResult(x) => json!(["E", "GetTaskPayloadResult", x.view()]) } } }
impl Build for m::ClientResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("ClientResult", v)); } Ok(match v[1].as_str().unwrap_or("") { "GetTaskResult" => m::ClientResult::GetTaskResult(Build::build(&v[2])?), "CancelTaskResult" => m::ClientResult::CancelTaskResult(Build::build(&v[2])?), "ListTasksResult" => m::ClientResult::ListTasksResult(Build::build(&v[2])?), "CreateMessageResult" => m::ClientResult::CreateMessageResult(Build::build(&v[2])?), "ListRootsResult" => m::ClientResult::ListRootsResult(Build::build(&v[2])?), "ElicitResult" => m::ClientResult::ElicitResult(Build::build(&v[2])?), "Result" => m::ClientResult::Result(Build::build(&v[2])?), "GetTaskPayloadResult" => m::ClientResult::GetTaskPayloadResult(Build::build(&v[2])?), _ => return Err(bad("ClientResult", v)) }) } }
impl View for m::ClientRoots { fn view(&self) -> V { vs(vec![("list_changed", self.list_changed.view())]) } }
impl Build for m::ClientRoots { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ClientRoots", v)); } Ok(m::ClientRoots { list_changed: fld(v, "list_changed")? }) } }
impl View for m::ClientSampling { fn view(&self) -> V { vs(vec![("context", self.context.view()), ("tools", self.tools.view())]) } }
impl Build for m::ClientSampling { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ClientSampling", v)); } Ok(m::ClientSampling { context: fld(v, "context")?, tools: fld(v, "tools")? }) } }
impl View for m::ClientTaskElicitation { fn view(&self) -> V { vs(vec![("create", self.create.view())]) } }
impl Build for m::ClientTaskElicitation { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ClientTaskElicitation", v)); } Ok(m::ClientTaskElicitation { create: fld(v, "create")? }) } }
impl View for m::ClientTaskRequest { fn view(&self) -> V { vs(vec![("elicitation", self.elicitation.view()), ("sampling", self.sampling.view())]) } }
impl Build for m::ClientTaskRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ClientTaskRequest", v)); } Ok(m::ClientTaskRequest { elicitation: fld(v, "elicitation")?, sampling: fld(v, "sampling")? }) } }
impl View for m::ClientTaskSampling { fn view(&self) -> V { vs(vec![("create_message", self.create_message.view())]) } }
impl Build for m::ClientTaskSampling { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ClientTaskSampling", v)); } Ok(m::ClientTaskSampling { create_message: fld(v, "create_message")? }) } }
impl View for m::ClientTasks { fn view(&self) -> V { vs(vec![("cancel", self.cancel.view()), ("list", self.list.view()), ("requests", self.requests.view())]) } }
impl Build for m::ClientTasks { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ClientTasks", v)); } Ok(m::ClientTasks { cancel: fld(v, "cancel")?, list: fld(v, "list")?, requests: fld(v, "requests")? }) } }
impl View for m::CompleteRequest { fn view(&self) -> V { vs(vec![("id", self.id.view()), ("jsonrpc", self.jsonrpc().view()), ("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::CompleteRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("CompleteRequest", v)) } }
impl View for m::CompleteRequestArgument { fn view(&self) -> V { vs(vec![("name", self.name.view()), ("value", self.value.view())]) } }
impl Build for m::CompleteRequestArgument { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("CompleteRequestArgument", v)); } Ok(m::CompleteRequestArgument { name: fld(v, "name")?, value: fld(v, "value")? }) } }
impl View for m::CompleteRequestContext { fn view(&self) -> V { vs(vec![("arguments", self.arguments.view())]) } }
impl Build for m::CompleteRequestContext { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("CompleteRequestContext", v)); } Ok(m::CompleteRequestContext { arguments: fld(v, "arguments")? }) } }
impl View for m::CompleteRequestMeta { fn view(&self) -> V { vs(vec![("progress_token", self.progress_token.view()), ("extra", self.extra.view())]) } }
impl Build for m::CompleteRequestMeta { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("CompleteRequestMeta", v)); } Ok(m::CompleteRequestMeta { progress_token: fld(v, "progress_token")?, extra: fld(v, "extra")? }) } }
impl View for m::CompleteRequestParams { fn view(&self) -> V { vs(vec![("argument", self.argument.view()), ("context", self.context.view()), ("meta", self.meta.view()), ("ref_", self.ref_.view())]) } }
impl Build for m::CompleteRequestParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("CompleteRequestParams", v)); } Ok(m::CompleteRequestParams { argument: fld(v, "argument")?, context: fld(v, "context")?, meta: fld(v, "meta")?, ref_: fld(v, "ref_")? }) } }
impl View for m::CompleteRequestRef { fn view(&self) -> V { match self { m::CompleteRequestRef::PromptReference(x) => json!(["E", "PromptReference", x.view()]), m::CompleteRequestRef::ResourceTemplateReference(x) => json!(["E", "ResourceTemplateReference", x.view()]) } } }
impl Build for m::CompleteRequestRef { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("CompleteRequestRef", v)); } Ok(match v[1].as_str().unwrap_or("") { "PromptReference" => m::CompleteRequestRef::PromptReference(Build::build(&v[2])?), "ResourceTemplateReference" => m::CompleteRequestRef::ResourceTemplateReference(Build::build(&v[2])?), _ => return Err(bad("CompleteRequestRef", v)) }) } }
impl View for m::CompleteResult { fn view(&self) -> V { vs(vec![("completion", self.completion.view()), ("meta", self.meta.view())]) } }
impl Build for m::CompleteResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("CompleteResult", v)); } Ok(m::CompleteResult { completion: fld(v, "completion")?, meta: fld(v, "meta")? }) } }
impl View for m::CompleteResultCompletion { fn view(&self) -> V { vs(vec![("has_more", self.has_more.view()), ("total", self.total.view()), ("values", self.values.view())]) } }
impl Build for m::CompleteResultCompletion { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("CompleteResultCompletion", v)); } Ok(m::CompleteResultCompletion { has_more: fld(v, "has_more")?, total: fld(v, "total")?, values: fld(v, "values")? }) } }
impl View for m::ContentBlock { fn view(&self) -> V { match self { m::ContentBlock::TextContent(x) => json!(["E", "TextContent", x.view()]), m::ContentBlock::ImageContent(x) => json!(["E", "ImageContent", x.view()]), m::ContentBlock::AudioContent(x) => json!(["E", "AudioContent", x.view()]), m::ContentBlock::ResourceLink(x) => json!(["E", "ResourceLink", x.view()]), m::ContentBlock::EmbeddedResource(x) => json!(["E", "EmbeddedResource", x.view()]) } } }
impl Build for m::ContentBlock { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("ContentBlock", v)); } Ok(match v[1].as_str().unwrap_or("") { "TextContent" => m::ContentBlock::TextContent(Build::build(&v[2])?), "ImageContent" => m::ContentBlock::ImageContent(Build::build(&v[2])?), "AudioContent" => m::ContentBlock::AudioContent(Build::build(&v[2])?), "ResourceLink" => m::ContentBlock::ResourceLink(Build::build(&v[2])?), "EmbeddedResource" => m::ContentBlock::EmbeddedResource(Build::build(&v[2])?), _ => return Err(bad("ContentBlock", v)) }) } }
impl View for m::CreateMessageContent { fn view(&self) -> V { match self { m::CreateMessageContent::TextContent(x) => json!(["E", "TextContent", x.view()]), m::CreateMessageContent::ImageContent(x) => json!(["E", "ImageContent", x.view()]), m::CreateMessageContent::AudioContent(x) => json!(["E", "AudioContent", x.view()]), m::CreateMessageContent::ToolUseContent(x) => json!(["E", "ToolUseContent", x.view()]), m::CreateMessageContent::ToolResultContent(x) => json!(["E", "ToolResultContent", x.view()]), m::CreateMessageContent::SamplingMessageContentBlock(x) => json!(["E", "SamplingMessageContentBlock", x.view()]) } } }
impl Build for m::CreateMessageContent { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("CreateMessageContent", v)); } Ok(match v[1].as_str().unwrap_or("") { "TextContent" => m::CreateMessageContent::TextContent(Build::build(&v[2])?), "ImageContent" => m::CreateMessageContent::ImageContent(Build::build(&v[2])?), "AudioContent" => m::CreateMessageContent::AudioContent(Build::build(&v[2])?), "ToolUseContent" => m::CreateMessageContent::ToolUseContent(Build::build(&v[2])?), "ToolResultContent" => m::CreateMessageContent::ToolResultContent(Build::build(&v[2])?), "SamplingMessageContentBlock" => m::CreateMessageContent::SamplingMessageContentBlock(Build::build(&v[2])?), _ => return Err(bad("CreateMessageContent", v)) }) } }
impl View for m::CreateMessageRequest { fn view(&self) -> V { vs(vec![("id", self.id.view()), ("jsonrpc", self.jsonrpc().view()), ("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::CreateMessageRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("CreateMessageRequest", v)) } }
impl View for m::CreateMessageRequestParams { fn view(&self) -> V { vs(vec![("include_context", self.include_context.view()), ("max_tokens", self.max_tokens.view()), ("messages", self.messages.view()), ("meta", self.meta.view()), ("metadata", self.metadata.view()), ("model_preferences", self.model_preferences.view()), ("stop_sequences", self.stop_sequences.view()), ("system_prompt", self.system_prompt.view()), ("task", self.task.view()), ("temperature", self.temperature.view()), ("tool_choice", self.tool_choice.view()), ("tools", self.tools.view())]) } }
impl Build for m::CreateMessageRequestParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("CreateMessageRequestParams", v)); } Ok(m::CreateMessageRequestParams { include_context: fld(v, "include_context")?, max_tokens: fld(v, "max_tokens")?, messages: fld(v, "messages")?, meta: fld(v, "meta")?, metadata: fld(v, "metadata")?, model_preferences: fld(v, "model_preferences")?, stop_sequences: fld(v, "stop_sequences")?, system_prompt: fld(v, "system_prompt")?, task: fld(v, "task")?, temperature: fld(v, "temperature")?, tool_choice: fld(v, "tool_choice")?, tools: fld(v, "tools")? }) } }
impl View for m::CreateMessageResult { fn view(&self) -> V { vs(vec![("content", self.content.view()), ("meta", self.meta.view()), ("model", self.model.view()), ("role", self.role.view()), ("stop_reason", self.stop_reason.view())]) } }
impl Build for m::CreateMessageResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("CreateMessageResult", v)); } Ok(m::CreateMessageResult { content: fld(v, "content")?, meta: fld(v, "meta")?, model: fld(v, "model")?, role: fld(v, "role")?, stop_reason: fld(v, "stop_reason")? }) } }
impl View for m::CreateTaskResult { fn view(&self) -> V { vs(vec![("meta", self.meta.view()), ("task", self.task.view())]) } }
impl Build for m::CreateTaskResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("CreateTaskResult", v)); } Ok(m::CreateTaskResult { meta: fld(v, "meta")?, task: fld(v, "task")? }) } }
impl View for m::Cursor { fn view(&self) -> V { self.0.view() } }
impl Build for m::Cursor { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Ok(m::Cursor(Build::build(v)?)) } }
impl View for m::ElicitCompleteParams { fn view(&self) -> V { vs(vec![("elicitation_id", self.elicitation_id.view())]) } }
impl Build for m::ElicitCompleteParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ElicitCompleteParams", v)); } Ok(m::ElicitCompleteParams { elicitation_id: fld(v, "elicitation_id")? }) } }
impl View for m::ElicitFormMeta { fn view(&self) -> V { vs(vec![("progress_token", self.progress_token.view()), ("extra", self.extra.view())]) } }
impl Build for m::ElicitFormMeta { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ElicitFormMeta", v)); } Ok(m::ElicitFormMeta { progress_token: fld(v, "progress_token")?, extra: fld(v, "extra")? }) } }
impl View for m::ElicitFormSchema { fn view(&self) -> V { vs(vec![("properties", self.properties.view()), ("required", self.required.view()), ("schema", self.schema.view()), ("type_", self.type_().view())]) } }
impl Build for m::ElicitFormSchema { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ElicitFormSchema", v)) } }
impl View for m::ElicitRequest { fn view(&self) -> V { vs(vec![("id", self.id.view()), ("jsonrpc", self.jsonrpc().view()), ("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::ElicitRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ElicitRequest", v)) } }
impl View for m::ElicitRequestFormParams { fn view(&self) -> V { vs(vec![("message", self.message.view()), ("meta", self.meta.view()), ("mode", self.mode().view()), ("requested_schema", self.requested_schema.view()), ("task", self.task.view())]) } }
impl Build for m::ElicitRequestFormParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ElicitRequestFormParams", v)) } }
impl View for m::ElicitRequestParams { fn view(&self) -> V { match self { m::ElicitRequestParams::UrlParams(x) => json!(["E", "UrlParams", x.view()]), m::ElicitRequestParams::FormParams(x) => json!(["E", "FormParams", x.view()]) } } }
impl Build for m::ElicitRequestParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("ElicitRequestParams", v)); } Ok(match v[1].as_str().unwrap_or("") { "UrlParams" => m::ElicitRequestParams::UrlParams(Build::build(&v[2])?), "FormParams" => m::ElicitRequestParams::FormParams(Build::build(&v[2])?), _ => return Err(bad("ElicitRequestParams", v)) }) } }
impl View for m::ElicitRequestUrlParams { fn view(&self) -> V { vs(vec![("elicitation_id", self.elicitation_id.view()), ("message", self.message.view()), ("meta", self.meta.view()), ("mode", self.mode().view()), ("task", self.task.view()), ("url", self.url.view())]) } }
impl Build for m::ElicitRequestUrlParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ElicitRequestUrlParams", v)) } }
impl View for m::ElicitResult { fn view(&self) -> V { vs(vec![("action", self.action.view()), ("content", self.content.view()), ("meta", self.meta.view())]) } }
impl Build for m::ElicitResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ElicitResult", v)); } Ok(m::ElicitResult { action: fld(v, "action")?, content: fld(v, "content")?, meta: fld(v, "meta")? }) } }
impl View for m::ElicitResultAction { fn view(&self) -> V { json!(["U", match self { m::ElicitResultAction::Accept => "Accept", m::ElicitResultAction::Cancel => "Cancel", m::ElicitResultAction::Decline => "Decline" }]) } }
impl Build for m::ElicitResultAction { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Ok(match v[1].as_str().unwrap_or("") { "Accept" => m::ElicitResultAction::Accept, "Cancel" => m::ElicitResultAction::Cancel, "Decline" => m::ElicitResultAction::Decline, _ => return Err(bad("ElicitResultAction", v)) }) } }
impl View for m::ElicitResultContent { fn view(&self) -> V { match self { m::ElicitResultContent::StringArray(x) => json!(["E", "StringArray", x.view()]), m::ElicitResultContent::Primitive(x) => json!(["E", "Primitive", x.view()]) } } }
impl Build for m::ElicitResultContent { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("ElicitResultContent", v)); } Ok(match v[1].as_str().unwrap_or("") { "StringArray" => m::ElicitResultContent::StringArray(Build::build(&v[2])?), "Primitive" => m::ElicitResultContent::Primitive(Build::build(&v[2])?), _ => return Err(bad("ElicitResultContent", v)) }) } }
impl View for m::ElicitResultContentPrimitive { fn view(&self) -> V { match self { m::ElicitResultContentPrimitive::Boolean(x) => json!(["E", "Boolean", x.view()]), m::ElicitResultContentPrimitive::String(x) => json!(["E", "String", x.view()]), m::ElicitResultContentPrimitive::Integer(x) => json!(["E", "Integer", x.view()]) } } }
impl Build for m::ElicitResultContentPrimitive { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("ElicitResultContentPrimitive", v)); } Ok(match v[1].as_str().unwrap_or("") { "Boolean" => m::ElicitResultContentPrimitive::Boolean(Build::build(&v[2])?), "String" => m::ElicitResultContentPrimitive::String(Build::build(&v[2])?), "Integer" => m::ElicitResultContentPrimitive::Integer(Build::build(&v[2])?), _ => return Err(bad("ElicitResultContentPrimitive", v)) }) } }
impl View for m::ElicitUrlMeta { fn view(&self) -> V { vs(vec![("progress_token", self.progress_token.view()), ("extra", self.extra.view())]) } }
impl Build for m::ElicitUrlMeta { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ElicitUrlMeta", v)); } Ok(m::ElicitUrlMeta { progress_token: fld(v, "progress_token")?, extra: fld(v, "extra")? }) } }
impl View for m::ElicitationCompleteNotification { fn view(&self) -> V { vs(vec![("jsonrpc", self.jsonrpc().view()), ("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::ElicitationCompleteNotification { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ElicitationCompleteNotification", v)) } }
impl View for m::EmbeddedResource { fn view(&self) -> V { vs(vec![("annotations", self.annotations.view()), ("meta", self.meta.view()), ("resource", self.resource.view()), ("type_", self.type_().view())]) } }
impl Build for m::EmbeddedResource { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("EmbeddedResource", v)) } }
impl View for m::EmbeddedResourceResource { fn view(&self) -> V { match self { m::EmbeddedResourceResource::TextResourceContents(x) => json!(["E", "TextResourceContents", x.view()]), m::EmbeddedResourceResource::BlobResourceContents(x) => json!(["E", "BlobResourceContents", x.view()]) } } }
impl Build for m::EmbeddedResourceResource { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("EmbeddedResourceResource", v)); } Ok(match v[1].as_str().unwrap_or("") { "TextResourceContents" => m::EmbeddedResourceResource::TextResourceContents(Build::build(&v[2])?), "BlobResourceContents" => m::EmbeddedResourceResource::BlobResourceContents(Build::build(&v[2])?), _ => return Err(bad("EmbeddedResourceResource", v)) }) } }
impl View for m::EmptyResult { fn view(&self) -> V { self.0.view() } }
impl Build for m::EmptyResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Ok(m::EmptyResult(Build::build(v)?)) } }
impl View for m::EnumSchema { fn view(&self) -> V { match self { m::EnumSchema::UntitledSingleSelectEnumSchema(x) => json!(["E", "UntitledSingleSelectEnumSchema", x.view()]), m::EnumSchema::TitledSingleSelectEnumSchema(x) => json!(["E", "TitledSingleSelectEnumSchema", x.view()]), m::EnumSchema::UntitledMultiSelectEnumSchema(x) => json!(["E", "UntitledMultiSelectEnumSchema", x.view()]), m::EnumSchema::TitledMultiSelectEnumSchema(x) => json!(["E", "TitledMultiSelectEnumSchema", x.view()]), m::EnumSchema::LegacyTitledEnumSchema(x) => json!(["E", "LegacyTitledEnumSchema", x.view()]) } } }
impl Build for m::EnumSchema { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("EnumSchema", v)); } Ok(match v[1].as_str().unwrap_or("") { "UntitledSingleSelectEnumSchema" => m::EnumSchema::UntitledSingleSelectEnumSchema(Build::build(&v[2])?), "TitledSingleSelectEnumSchema" => m::EnumSchema::TitledSingleSelectEnumSchema(Build::build(&v[2])?), "UntitledMultiSelectEnumSchema" => m::EnumSchema::UntitledMultiSelectEnumSchema(Build::build(&v[2])?), "TitledMultiSelectEnumSchema" => m::EnumSchema::TitledMultiSelectEnumSchema(Build::build(&v[2])?), "LegacyTitledEnumSchema" => m::EnumSchema::LegacyTitledEnumSchema(Build::build(&v[2])?), _ => return Err(bad("EnumSchema", v)) }) } }
impl View for m::GetPromptMeta { fn view(&self) -> V { vs(vec![("progress_token", self.progress_token.view()), ("extra", self.extra.view())]) } }
impl Build for m::GetPromptMeta { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("GetPromptMeta", v)); } Ok(m::GetPromptMeta { progress_token: fld(v, "progress_token")?, extra: fld(v, "extra")? }) } }
impl View for m::GetPromptRequest { fn view(&self) -> V { vs(vec![("id", self.id.view()), ("jsonrpc", self.jsonrpc().view()), ("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::GetPromptRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("GetPromptRequest", v)) } }
impl View for m::GetPromptRequestParams { fn view(&self) -> V { vs(vec![("arguments", self.arguments.view()), ("meta", self.meta.view()), ("name", self.name.view())]) } }
impl Build for m::GetPromptRequestParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("GetPromptRequestParams", v)); } Ok(m::GetPromptRequestParams { arguments: fld(v, "arguments")?, meta: fld(v, "meta")?, name: fld(v, "name")? }) } }
impl View for m::GetPromptResult { fn view(&self) -> V { vs(vec![("description", self.description.view()), ("messages", self.messages.view()), ("meta", self.meta.view())]) } }
impl Build for m::GetPromptResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("GetPromptResult", v)); } Ok(m::GetPromptResult { description: fld(v, "description")?, messages: fld(v, "messages")?, meta: fld(v, "meta")? }) } }
impl View for m::GetTaskParams { fn view(&self) -> V { vs(vec![("task_id", self.task_id.view())]) } }
impl Build for m::GetTaskParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("GetTaskParams", v)); } Ok(m::GetTaskParams { task_id: fld(v, "task_id")? }) } }
impl View for m::GetTaskPayloadParams { fn view(&self) -> V { vs(vec![("task_id", self.task_id.view())]) } }
impl Build for m::GetTaskPayloadParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("GetTaskPayloadParams", v)); } Ok(m::GetTaskPayloadParams { task_id: fld(v, "task_id")? }) } }
impl View for m::GetTaskPayloadRequest { fn view(&self) -> V { vs(vec![("id", self.id.view()), ("jsonrpc", self.jsonrpc().view()), ("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::GetTaskPayloadRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("GetTaskPayloadRequest", v)) } }
impl View for m::GetTaskPayloadResult { fn view(&self) -> V { vs(vec![("meta", self.meta.view()), ("extra", self.extra.view())]) } }
impl Build for m::GetTaskPayloadResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("GetTaskPayloadResult", v)); } Ok(m::GetTaskPayloadResult { meta: fld(v, "meta")?, extra: fld(v, "extra")? }) } }
impl View for m::GetTaskRequest { fn view(&self) -> V { vs(vec![("id", self.id.view()), ("jsonrpc", self.jsonrpc().view()), ("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::GetTaskRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("GetTaskRequest", v)) } }
impl View for m::GetTaskResult { fn view(&self) -> V { vs(vec![("created_at", self.created_at.view()), ("last_updated_at", self.last_updated_at.view()), ("meta", self.meta.view()), ("poll_interval", self.poll_interval.view()), ("status", self.status.view()), ("status_message", self.status_message.view()), ("task_id", self.task_id.view()), ("ttl", self.ttl.view()), ("extra", self.extra.view())]) } }
impl Build for m::GetTaskResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("GetTaskResult", v)); } Ok(m::GetTaskResult { created_at: fld(v, "created_at")?, last_updated_at: fld(v, "last_updated_at")?, meta: fld(v, "meta")?, poll_interval: fld(v, "poll_interval")?, status: fld(v, "status")?, status_message: fld(v, "status_message")?, task_id: fld(v, "task_id")?, ttl: fld(v, "ttl")?, extra: fld(v, "extra")? }) } }
impl View for m::Icon { fn view(&self) -> V { vs(vec![("mime_type", self.mime_type.view()), ("sizes", self.sizes.view()), ("src", self.src.view()), ("theme", self.theme.view())]) } }
impl Build for m::Icon { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("Icon", v)); } Ok(m::Icon { mime_type: fld(v, "mime_type")?, sizes: fld(v, "sizes")?, src: fld(v, "src")?, theme: fld(v, "theme")? }) } }
impl View for m::IconTheme { fn view(&self) -> V { json!(["U", match self { m::IconTheme::Dark => "Dark", m::IconTheme::Light => "Light" }]) } }
impl Build for m::IconTheme { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Ok(match v[1].as_str().unwrap_or("") { "Dark" => m::IconTheme::Dark, "Light" => m::IconTheme::Light, _ => return Err(bad("IconTheme", v)) }) } }
impl View for m::Icons { fn view(&self) -> V { vs(vec![("icons", self.icons.view())]) } }
impl Build for m::Icons { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("Icons", v)); } Ok(m::Icons { icons: fld(v, "icons")? }) } }
impl View for m::ImageContent { fn view(&self) -> V { vs(vec![("annotations", self.annotations.view()), ("data", self.data.view()), ("meta", self.meta.view()), ("mime_type", self.mime_type.view()), ("type_", self.type_().view())]) } }
impl Build for m::ImageContent { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ImageContent", v)) } }
impl View for m::Implementation { fn view(&self) -> V { vs(vec![("description", self.description.view()), ("icons", self.icons.view()), ("name", self.name.view()), ("title", self.title.view()), ("version", self.version.view()), ("website_url", self.website_url.view())]) } }
impl Build for m::Implementation { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("Implementation", v)); } Ok(m::Implementation { description: fld(v, "description")?, icons: fld(v, "icons")?, name: fld(v, "name")?, title: fld(v, "title")?, version: fld(v, "version")?, website_url: fld(v, "website_url")? }) } }
impl View for m::IncludeContext { fn view(&self) -> V { json!(["U", match self { m::IncludeContext::AllServers => "AllServers", m::IncludeContext::None => "None", m::IncludeContext::ThisServer => "ThisServer" }]) } }
impl Build for m::IncludeContext { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Ok(match v[1].as_str().unwrap_or("") { "AllServers" => m::IncludeContext::AllServers, "None" => m::IncludeContext::None, "ThisServer" => m::IncludeContext::ThisServer, _ => return Err(bad("IncludeContext", v)) }) } }
impl View for m::InitializeMeta { fn view(&self) -> V { vs(vec![("progress_token", self.progress_token.view()), ("extra", self.extra.view())]) } }
impl Build for m::InitializeMeta { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("InitializeMeta", v)); } Ok(m::InitializeMeta { progress_token: fld(v, "progress_token")?, extra: fld(v, "extra")? }) } }
impl View for m::InitializeRequest { fn view(&self) -> V { vs(vec![("id", self.id.view()), ("jsonrpc", self.jsonrpc().view()), ("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::InitializeRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("InitializeRequest", v)) } }
impl View for m::InitializeRequestParams { fn view(&self) -> V { vs(vec![("capabilities", self.capabilities.view()), ("client_info", self.client_info.view()), ("meta", self.meta.view()), ("protocol_version", self.protocol_version.view())]) } }
impl Build for m::InitializeRequestParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("InitializeRequestParams", v)); } Ok(m::InitializeRequestParams { capabilities: fld(v, "capabilities")?, client_info: fld(v, "client_info")?, meta: fld(v, "meta")?, protocol_version: fld(v, "protocol_version")? }) } }
impl View for m::InitializeResult { fn view(&self) -> V { vs(vec![("capabilities", self.capabilities.view()), ("instructions", self.instructions.view()), ("meta", self.meta.view()), ("protocol_version", self.protocol_version.view()), ("server_info", self.server_info.view())]) } }
impl Build for m::InitializeResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("InitializeResult", v)); } Ok(m::InitializeResult { capabilities: fld(v, "capabilities")?, instructions: fld(v, "instructions")?, meta: fld(v, "meta")?, protocol_version: fld(v, "protocol_version")?, server_info: fld(v, "server_info")? }) } }
impl View for m::InitializedNotification { fn view(&self) -> V { vs(vec![("jsonrpc", self.jsonrpc().view()), ("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::InitializedNotification { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("InitializedNotification", v)) } }
impl View for m::JsonrpcErrorResponse { fn view(&self) -> V { vs(vec![("error", self.error.view()), ("id", self.id.view()), ("jsonrpc", self.jsonrpc().view())]) } }
impl Build for m::JsonrpcErrorResponse { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("JsonrpcErrorResponse", v)) } }
impl View for m::JsonrpcMessage { fn view(&self) -> V { match self { m::JsonrpcMessage::Request(x) => json!(["E", "Request", x.view()]), m::JsonrpcMessage::Notification(x) => json!(["E", "Notification", x.view()]), m::JsonrpcMessage::ResultResponse(x) => json!(["E", "ResultResponse", x.view()]), m::JsonrpcMessage::ErrorResponse(x) => json!(["E", "ErrorResponse", x.view()]) } } }
impl Build for m::JsonrpcMessage { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("JsonrpcMessage", v)); } Ok(match v[1].as_str().unwrap_or("") { "Request" => m::JsonrpcMessage::Request(Build::build(&v[2])?), "Notification" => m::JsonrpcMessage::Notification(Build::build(&v[2])?), "ResultResponse" => m::JsonrpcMessage::ResultResponse(Build::build(&v[2])?), "ErrorResponse" => m::JsonrpcMessage::ErrorResponse(Build::build(&v[2])?), _ => return Err(bad("JsonrpcMessage", v)) }) } }
impl View for m::JsonrpcNotification { fn view(&self) -> V { vs(vec![("jsonrpc", self.jsonrpc().view()), ("method", self.method.view()), ("params", self.params.view())]) } }
impl Build for m::JsonrpcNotification { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("JsonrpcNotification", v)) } }
impl View for m::JsonrpcRequest { fn view(&self) -> V { vs(vec![("id", self.id.view()), ("jsonrpc", self.jsonrpc().view()), ("method", self.method.view()), ("params", self.params.view())]) } }
impl Build for m::JsonrpcRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("JsonrpcRequest", v)) } }
impl View for m::JsonrpcResponse { fn view(&self) -> V { match self { m::JsonrpcResponse::ResultResponse(x) => json!(["E", "ResultResponse", x.view()]), m::JsonrpcResponse::ErrorResponse(x) => json!(["E", "ErrorResponse", x.view()]) } } }
impl Build for m::JsonrpcResponse { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("JsonrpcResponse", v)); } Ok(match v[1].as_str().unwrap_or("") { "ResultResponse" => m::JsonrpcResponse::ResultResponse(Build::build(&v[2])?), "ErrorResponse" => m::JsonrpcResponse::ErrorResponse(Build::build(&v[2])?), _ => return Err(bad("JsonrpcResponse", v)) }) } }
impl View for m::JsonrpcResultResponse { fn view(&self) -> V { vs(vec![("id", self.id.view()), ("jsonrpc", self.jsonrpc().view()), ("result", self.result.view())]) } }
impl Build for m::JsonrpcResultResponse { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("JsonrpcResultResponse", v)) } }
impl View for m::LegacyTitledEnumSchema { fn view(&self) -> V { vs(vec![("default", self.default.view()), ("description", self.description.view()), ("enum_", self.enum_.view()), ("enum_names", self.enum_names.view()), ("title", self.title.view()), ("type_", self.type_().view())]) } }
impl Build for m::LegacyTitledEnumSchema { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("LegacyTitledEnumSchema", v)) } }
impl View for m::ListPromptsRequest { fn view(&self) -> V { vs(vec![("id", self.id.view()), ("jsonrpc", self.jsonrpc().view()), ("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::ListPromptsRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ListPromptsRequest", v)) } }
impl View for m::ListPromptsResult { fn view(&self) -> V { vs(vec![("meta", self.meta.view()), ("next_cursor", self.next_cursor.view()), ("prompts", self.prompts.view())]) } }
impl Build for m::ListPromptsResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ListPromptsResult", v)); } Ok(m::ListPromptsResult { meta: fld(v, "meta")?, next_cursor: fld(v, "next_cursor")?, prompts: fld(v, "prompts")? }) } }
impl View for m::ListResourceTemplatesRequest { fn view(&self) -> V { vs(vec![("id", self.id.view()), ("jsonrpc", self.jsonrpc().view()), ("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::ListResourceTemplatesRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ListResourceTemplatesRequest", v)) } }
impl View for m::ListResourceTemplatesResult { fn view(&self) -> V { vs(vec![("meta", self.meta.view()), ("next_cursor", self.next_cursor.view()), ("resource_templates", self.resource_templates.view())]) } }
impl Build for m::ListResourceTemplatesResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ListResourceTemplatesResult", v)); } Ok(m::ListResourceTemplatesResult { meta: fld(v, "meta")?, next_cursor: fld(v, "next_cursor")?, resource_templates: fld(v, "resource_templates")? }) } }
impl View for m::ListResourcesRequest { fn view(&self) -> V { vs(vec![("id", self.id.view()), ("jsonrpc", self.jsonrpc().view()), ("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::ListResourcesRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ListResourcesRequest", v)) } }
impl View for m::ListResourcesResult { fn view(&self) -> V { vs(vec![("meta", self.meta.view()), ("next_cursor", self.next_cursor.view()), ("resources", self.resources.view())]) } }
impl Build for m::ListResourcesResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ListResourcesResult", v)); } Ok(m::ListResourcesResult { meta: fld(v, "meta")?, next_cursor: fld(v, "next_cursor")?, resources: fld(v, "resources")? }) } }
impl View for m::ListRootsRequest { fn view(&self) -> V { vs(vec![("id", self.id.view()), ("jsonrpc", self.jsonrpc().view()), ("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::ListRootsRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ListRootsRequest", v)) } }
impl View for m::ListRootsResult { fn view(&self) -> V { vs(vec![("meta", self.meta.view()), ("roots", self.roots.view())]) } }
impl Build for m::ListRootsResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ListRootsResult", v)); } Ok(m::ListRootsResult { meta: fld(v, "meta")?, roots: fld(v, "roots")? }) } }
impl View for m::ListTasksRequest { fn view(&self) -> V { vs(vec![("id", self.id.view()), ("jsonrpc", self.jsonrpc().view()), ("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::ListTasksRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ListTasksRequest", v)) } }
impl View for m::ListTasksResult { fn view(&self) -> V { vs(vec![("meta", self.meta.view()), ("next_cursor", self.next_cursor.view()), ("tasks", self.tasks.view())]) } }
impl Build for m::ListTasksResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ListTasksResult", v)); } Ok(m::ListTasksResult { meta: fld(v, "meta")?, next_cursor: fld(v, "next_cursor")?, tasks: fld(v, "tasks")? }) } }
impl View for m::ListToolsRequest { fn view(&self) -> V { vs(vec![("id", self.id.view()), ("jsonrpc", self.jsonrpc().view()), ("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::ListToolsRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ListToolsRequest", v)) } }
impl View for m::ListToolsResult { fn view(&self) -> V { vs(vec![("meta", self.meta.view()), ("next_cursor", self.next_cursor.view()), ("tools", self.tools.view())]) } }
impl Build for m::ListToolsResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ListToolsResult", v)); } Ok(m::ListToolsResult { meta: fld(v, "meta")?, next_cursor: fld(v, "next_cursor")?, tools: fld(v, "tools")? }) } }
impl View for m::LoggingLevel { fn view(&self) -> V { json!(["U", match self { m::LoggingLevel::Alert => "Alert", m::LoggingLevel::Critical => "Critical", m::LoggingLevel::Debug => "Debug", m::LoggingLevel::Emergency => "Emergency", m::LoggingLevel::Error => "Error", m::LoggingLevel::Info => "Info", m::LoggingLevel::Notice => "Notice", m::LoggingLevel::Warning => "Warning" }]) } }
impl Build for m::LoggingLevel { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Ok(match v[1].as_str().unwrap_or("") { "Alert" => m::LoggingLevel::Alert, "Critical" => m::LoggingLevel::Critical, "Debug" => m::LoggingLevel::Debug, "Emergency" => m::LoggingLevel::Emergency, "Error" => m::LoggingLevel::Error, "Info" => m::LoggingLevel::Info, "Notice" => m::LoggingLevel::Notice, "Warning" => m::LoggingLevel::Warning, _ => return Err(bad("LoggingLevel", v)) }) } }
impl View for m::LoggingMessageNotification { fn view(&self) -> V { vs(vec![("jsonrpc", self.jsonrpc().view()), ("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::LoggingMessageNotification { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("LoggingMessageNotification", v)) } }
impl View for m::LoggingMessageNotificationParams { fn view(&self) -> V { vs(vec![("data", self.data.view()), ("level", self.level.view()), ("logger", self.logger.view()), ("meta", self.meta.view())]) } }
impl Build for m::LoggingMessageNotificationParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("LoggingMessageNotificationParams", v)); } Ok(m::LoggingMessageNotificationParams { data: fld(v, "data")?, level: fld(v, "level")?, logger: fld(v, "logger")?, meta: fld(v, "meta")? }) } }
impl View for m::MessageMeta { fn view(&self) -> V { vs(vec![("progress_token", self.progress_token.view()), ("extra", self.extra.view())]) } }
impl Build for m::MessageMeta { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("MessageMeta", v)); } Ok(m::MessageMeta { progress_token: fld(v, "progress_token")?, extra: fld(v, "extra")? }) } }
impl View for m::ModelHint { fn view(&self) -> V { vs(vec![("name", self.name.view())]) } }
impl Build for m::ModelHint { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ModelHint", v)); } Ok(m::ModelHint { name: fld(v, "name")? }) } }
impl View for m::ModelPreferences { fn view(&self) -> V { vs(vec![("cost_priority", self.cost_priority.view()), ("hints", self.hints.view()), ("intelligence_priority", self.intelligence_priority.view()), ("speed_priority", self.speed_priority.view())]) } }
impl Build for m::ModelPreferences { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ModelPreferences", v)); } Ok(m::ModelPreferences { cost_priority: fld(v, "cost_priority")?, hints: fld(v, "hints")?, intelligence_priority: fld(v, "intelligence_priority")?, speed_priority: fld(v, "speed_priority")? }) } }
impl View for m::MultiSelectEnumSchema { fn view(&self) -> V { match self { m::MultiSelectEnumSchema::UntitledMultiSelectEnumSchema(x) => json!(["E", "UntitledMultiSelectEnumSchema", x.view()]), m::MultiSelectEnumSchema::TitledMultiSelectEnumSchema(x) => json!(["E", "TitledMultiSelectEnumSchema", x.view()]) } } }
impl Build for m::MultiSelectEnumSchema { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("MultiSelectEnumSchema", v)); } Ok(match v[1].as_str().unwrap_or("") { "UntitledMultiSelectEnumSchema" => m::MultiSelectEnumSchema::UntitledMultiSelectEnumSchema(Build::build(&v[2])?), "TitledMultiSelectEnumSchema" => m::MultiSelectEnumSchema::TitledMultiSelectEnumSchema(Build::build(&v[2])?), _ => return Err(bad("MultiSelectEnumSchema", v)) }) } }
impl View for m::Notification { fn view(&self) -> V { vs(vec![("method", self.method.view()), ("params", self.params.view())]) } }
impl Build for m::Notification { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("Notification", v)); } Ok(m::Notification { method: fld(v, "method")?, params: fld(v, "params")? }) } }
impl View for m::NotificationParams { fn view(&self) -> V { vs(vec![("meta", self.meta.view())]) } }
impl Build for m::NotificationParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("NotificationParams", v)); } Ok(m::NotificationParams { meta: fld(v, "meta")? }) } }
impl View for m::NumberSchema { fn view(&self) -> V { vs(vec![("default", self.default.view()), ("description", self.description.view()), ("maximum", self.maximum.view()), ("minimum", self.minimum.view()), ("title", self.title.view()), ("type_", self.type_.view())]) } }
impl Build for m::NumberSchema { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("NumberSchema", v)); } Ok(m::NumberSchema { default: fld(v, "default")?, description: fld(v, "description")?, maximum: fld(v, "maximum")?, minimum: fld(v, "minimum")?, title: fld(v, "title")?, type_: fld(v, "type_")? }) } }
impl View for m::NumberSchemaType { fn view(&self) -> V { json!(["U", match self { m::NumberSchemaType::Integer => "Integer", m::NumberSchemaType::Number => "Number" }]) } }
impl Build for m::NumberSchemaType { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Ok(match v[1].as_str().unwrap_or("") { "Integer" => m::NumberSchemaType::Integer, "Number" => m::NumberSchemaType::Number, _ => return Err(bad("NumberSchemaType", v)) }) } }
impl View for m::PaginatedMeta { fn view(&self) -> V { vs(vec![("progress_token", self.progress_token.view()), ("extra", self.extra.view())]) } }
impl Build for m::PaginatedMeta { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("PaginatedMeta", v)); } Ok(m::PaginatedMeta { progress_token: fld(v, "progress_token")?, extra: fld(v, "extra")? }) } }
impl View for m::PaginatedRequest { fn view(&self) -> V { vs(vec![("id", self.id.view()), ("jsonrpc", self.jsonrpc().view()), ("method", self.method.view()), ("params", self.params.view())]) } }
impl Build for m::PaginatedRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("PaginatedRequest", v)) } }
impl View for m::PaginatedRequestParams { fn view(&self) -> V { vs(vec![("cursor", self.cursor.view()), ("meta", self.meta.view())]) } }
impl Build for m::PaginatedRequestParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("PaginatedRequestParams", v)); } Ok(m::PaginatedRequestParams { cursor: fld(v, "cursor")?, meta: fld(v, "meta")? }) } }
impl View for m::PaginatedResult { fn view(&self) -> V { vs(vec![("meta", self.meta.view()), ("next_cursor", self.next_cursor.view())]) } }
impl Build for m::PaginatedResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("PaginatedResult", v)); } Ok(m::PaginatedResult { meta: fld(v, "meta")?, next_cursor: fld(v, "next_cursor")? }) } }
impl View for m::PingRequest { fn view(&self) -> V { vs(vec![("id", self.id.view()), ("jsonrpc", self.jsonrpc().view()), ("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::PingRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("PingRequest", v)) } }
impl View for m::PrimitiveSchemaDefinition { fn view(&self) -> V { match self { m::PrimitiveSchemaDefinition::UntitledSingleSelectEnumSchema(x) => json!(["E", "UntitledSingleSelectEnumSchema", x.view()]), m::PrimitiveSchemaDefinition::TitledSingleSelectEnumSchema(x) => json!(["E", "TitledSingleSelectEnumSchema", x.view()]), m::PrimitiveSchemaDefinition::UntitledMultiSelectEnumSchema(x) => json!(["E", "UntitledMultiSelectEnumSchema", x.view()]), m::PrimitiveSchemaDefinition::TitledMultiSelectEnumSchema(x) => json!(["E", "TitledMultiSelectEnumSchema", x.view()]), m::PrimitiveSchemaDefinition::LegacyTitledEnumSchema(x) => json!(["E", "LegacyTitledEnumSchema", x.view()]), m::PrimitiveSchemaDefinition::StringSchema(x) => json!(["E", "StringSchema", x.view()]), m::PrimitiveSchemaDefinition::NumberSchema(x) => json!(["E", "NumberSchema", x.view()]), m::PrimitiveSchemaDefinition::BooleanSchema(x) => json!(["E", "BooleanSchema", x.view()]) } } }
impl Build for m::PrimitiveSchemaDefinition { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("PrimitiveSchemaDefinition", v)); } Ok(match v[1].as_str().unwrap_or("") { "UntitledSingleSelectEnumSchema" => m::PrimitiveSchemaDefinition::UntitledSingleSelectEnumSchema(Build::build(&v[2])?), "TitledSingleSelectEnumSchema" => m::PrimitiveSchemaDefinition::TitledSingleSelectEnumSchema(Build::build(&v[2])?), "UntitledMultiSelectEnumSchema" => m::PrimitiveSchemaDefinition::UntitledMultiSelectEnumSchema(Build::build(&v[2])?), "TitledMultiSelectEnumSchema" => m::PrimitiveSchemaDefinition::TitledMultiSelectEnumSchema(Build::build(&v[2])?), "LegacyTitledEnumSchema" => m::PrimitiveSchemaDefinition::LegacyTitledEnumSchema(Build::build(&v[2])?), "StringSchema" => m::PrimitiveSchemaDefinition::StringSchema(Build::build(&v[2])?), "NumberSchema" => m::PrimitiveSchemaDefinition::NumberSchema(Build::build(&v[2])?), "BooleanSchema" => m::PrimitiveSchemaDefinition::BooleanSchema(Build::build(&v[2])?), _ => return Err(bad("PrimitiveSchemaDefinition", v)) }) } }
impl View for m::ProgressNotification { fn view(&self) -> V { vs(vec![("jsonrpc", self.jsonrpc().view()), ("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::ProgressNotification { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ProgressNotification", v)) } }
impl View for m::ProgressNotificationParams { fn view(&self) -> V { vs(vec![("message", self.message.view()), ("meta", self.meta.view()), ("progress", self.progress.view()), ("progress_token", self.progress_token.view()), ("total", self.total.view())]) } }
impl Build for m::ProgressNotificationParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ProgressNotificationParams", v)); } Ok(m::ProgressNotificationParams { message: fld(v, "message")?, meta: fld(v, "meta")?, progress: fld(v, "progress")?, progress_token: fld(v, "progress_token")?, total: fld(v, "total")? }) } }
impl View for m::ProgressToken { fn view(&self) -> V { match self { m::ProgressToken::String(x) => json!(["E", "String", x.view()]), m::ProgressToken::Integer(x) => json!(["E", "Integer", x.view()]) } } }
impl Build for m::ProgressToken { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("ProgressToken", v)); } Ok(match v[1].as_str().unwrap_or("") { "String" => m::ProgressToken::String(Build::build(&v[2])?), "Integer" => m::ProgressToken::Integer(Build::build(&v[2])?), _ => return Err(bad("ProgressToken", v)) }) } }
impl View for m::Prompt { fn view(&self) -> V { vs(vec![("arguments", self.arguments.view()), ("description", self.description.view()), ("icons", self.icons.view()), ("meta", self.meta.view()), ("name", self.name.view()), ("title", self.title.view())]) } }
impl Build for m::Prompt { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("Prompt", v)); } Ok(m::Prompt { arguments: fld(v, "arguments")?, description: fld(v, "description")?, icons: fld(v, "icons")?, meta: fld(v, "meta")?, name: fld(v, "name")?, title: fld(v, "title")? }) } }
impl View for m::PromptArgument { fn view(&self) -> V { vs(vec![("description", self.description.view()), ("name", self.name.view()), ("required", self.required.view()), ("title", self.title.view())]) } }
impl Build for m::PromptArgument { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("PromptArgument", v)); } Ok(m::PromptArgument { description: fld(v, "description")?, name: fld(v, "name")?, required: fld(v, "required")?, title: fld(v, "title")? }) } }
impl View for m::PromptListChangedNotification { fn view(&self) -> V { vs(vec![("jsonrpc", self.jsonrpc().view()), ("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::PromptListChangedNotification { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("PromptListChangedNotification", v)) } }
impl View for m::PromptMessage { fn view(&self) -> V { vs(vec![("content", self.content.view()), ("role", self.role.view())]) } }
impl Build for m::PromptMessage { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("PromptMessage", v)); } Ok(m::PromptMessage { content: fld(v, "content")?, role: fld(v, "role")? }) } }
impl View for m::PromptReference { fn view(&self) -> V { vs(vec![("name", self.name.view()), ("title", self.title.view()), ("type_", self.type_().view())]) } }
impl Build for m::PromptReference { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("PromptReference", v)) } }
impl View for m::ReadResourceContent { fn view(&self) -> V { match self { m::ReadResourceContent::TextResourceContents(x) => json!(["E", "TextResourceContents", x.view()]), m::ReadResourceContent::BlobResourceContents(x) => json!(["E", "BlobResourceContents", x.view()]) } } }
impl Build for m::ReadResourceContent { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("ReadResourceContent", v)); } Ok(match v[1].as_str().unwrap_or("") { "TextResourceContents" => m::ReadResourceContent::TextResourceContents(Build::build(&v[2])?), "BlobResourceContents" => m::ReadResourceContent::BlobResourceContents(Build::build(&v[2])?), _ => return Err(bad("ReadResourceContent", v)) }) } }
impl View for m::ReadResourceMeta { fn view(&self) -> V { vs(vec![("progress_token", self.progress_token.view()), ("extra", self.extra.view())]) } }
impl Build for m::ReadResourceMeta { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ReadResourceMeta", v)); } Ok(m::ReadResourceMeta { progress_token: fld(v, "progress_token")?, extra: fld(v, "extra")? }) } }
impl View for m::ReadResourceRequest { fn view(&self) -> V { vs(vec![("id", self.id.view()), ("jsonrpc", self.jsonrpc().view()), ("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::ReadResourceRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ReadResourceRequest", v)) } }
impl View for m::ReadResourceRequestParams { fn view(&self) -> V { vs(vec![("meta", self.meta.view()), ("uri", self.uri.view())]) } }
impl Build for m::ReadResourceRequestParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ReadResourceRequestParams", v)); } Ok(m::ReadResourceRequestParams { meta: fld(v, "meta")?, uri: fld(v, "uri")? }) } }
impl View for m::ReadResourceResult { fn view(&self) -> V { vs(vec![("contents", self.contents.view()), ("meta", self.meta.view())]) } }
impl Build for m::ReadResourceResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ReadResourceResult", v)); } Ok(m::ReadResourceResult { contents: fld(v, "contents")?, meta: fld(v, "meta")? }) } }
impl View for m::RelatedTaskMetadata { fn view(&self) -> V { vs(vec![("task_id", self.task_id.view())]) } }
impl Build for m::RelatedTaskMetadata { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("RelatedTaskMetadata", v)); } Ok(m::RelatedTaskMetadata { task_id: fld(v, "task_id")? }) } }
impl View for m::Request { fn view(&self) -> V { vs(vec![("method", self.method.view()), ("params", self.params.view())]) } }
impl Build for m::Request { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("Request", v)); } Ok(m::Request { method: fld(v, "method")?, params: fld(v, "params")? }) } }
impl View for m::RequestId { fn view(&self) -> V { match self { m::RequestId::String(x) => json!(["E", "String", x.view()]), m::RequestId::Integer(x) => json!(["E", "Integer", x.view()]) } } }
impl Build for m::RequestId { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("RequestId", v)); } Ok(match v[1].as_str().unwrap_or("") { "String" => m::RequestId::String(Build::build(&v[2])?), "Integer" => m::RequestId::Integer(Build::build(&v[2])?), _ => return Err(bad("RequestId", v)) }) } }
impl View for m::RequestParams { fn view(&self) -> V { vs(vec![("meta", self.meta.view())]) } }
impl Build for m::RequestParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("RequestParams", v)); } Ok(m::RequestParams { meta: fld(v, "meta")? }) } }
impl View for m::RequestParamsMeta { fn view(&self) -> V { vs(vec![("progress_token", self.progress_token.view()), ("extra", self.extra.view())]) } }
impl Build for m::RequestParamsMeta { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("RequestParamsMeta", v)); } Ok(m::RequestParamsMeta { progress_token: fld(v, "progress_token")?, extra: fld(v, "extra")? }) } }
impl View for m::Resource { fn view(&self) -> V { vs(vec![("annotations", self.annotations.view()), ("description", self.description.view()), ("icons", self.icons.view()), ("meta", self.meta.view()), ("mime_type", self.mime_type.view()), ("name", self.name.view()), ("size", self.size.view()), ("title", self.title.view()), ("uri", self.uri.view())]) } }
impl Build for m::Resource { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("Resource", v)); } Ok(m::Resource { annotations: fld(v, "annotations")?, description: fld(v, "description")?, icons: fld(v, "icons")?, meta: fld(v, "meta")?, mime_type: fld(v, "mime_type")?, name: fld(v, "name")?, size: fld(v, "size")?, title: fld(v, "title")?, uri: fld(v, "uri")? }) } }
impl View for m::ResourceContents { fn view(&self) -> V { vs(vec![("meta", self.meta.view()), ("mime_type", self.mime_type.view()), ("uri", self.uri.view())]) } }
impl Build for m::ResourceContents { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ResourceContents", v)); } Ok(m::ResourceContents { meta: fld(v, "meta")?, mime_type: fld(v, "mime_type")?, uri: fld(v, "uri")? }) } }
impl View for m::ResourceLink { fn view(&self) -> V { vs(vec![("annotations", self.annotations.view()), ("description", self.description.view()), ("icons", self.icons.view()), ("meta", self.meta.view()), ("mime_type", self.mime_type.view()), ("name", self.name.view()), ("size", self.size.view()), ("title", self.title.view()), ("type_", self.type_().view()), ("uri", self.uri.view())]) } }
impl Build for m::ResourceLink { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ResourceLink", v)) } }
impl View for m::ResourceListChangedNotification { fn view(&self) -> V { vs(vec![("jsonrpc", self.jsonrpc().view()), ("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::ResourceListChangedNotification { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ResourceListChangedNotification", v)) } }
impl View for m::ResourceMeta { fn view(&self) -> V { vs(vec![("progress_token", self.progress_token.view()), ("extra", self.extra.view())]) } }
impl Build for m::ResourceMeta { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ResourceMeta", v)); } Ok(m::ResourceMeta { progress_token: fld(v, "progress_token")?, extra: fld(v, "extra")? }) } }
impl View for m::ResourceRequestParams { fn view(&self) -> V { vs(vec![("meta", self.meta.view()), ("uri", self.uri.view())]) } }
impl Build for m::ResourceRequestParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ResourceRequestParams", v)); } Ok(m::ResourceRequestParams { meta: fld(v, "meta")?, uri: fld(v, "uri")? }) } }
impl View for m::ResourceTemplate { fn view(&self) -> V { vs(vec![("annotations", self.annotations.view()), ("description", self.description.view()), ("icons", self.icons.view()), ("meta", self.meta.view()), ("mime_type", self.mime_type.view()), ("name", self.name.view()), ("title", self.title.view()), ("uri_template", self.uri_template.view())]) } }
impl Build for m::ResourceTemplate { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ResourceTemplate", v)); } Ok(m::ResourceTemplate { annotations: fld(v, "annotations")?, description: fld(v, "description")?, icons: fld(v, "icons")?, meta: fld(v, "meta")?, mime_type: fld(v, "mime_type")?, name: fld(v, "name")?, title: fld(v, "title")?, uri_template: fld(v, "uri_template")? }) } }
impl View for m::ResourceTemplateReference { fn view(&self) -> V { vs(vec![("type_", self.type_().view()), ("uri", self.uri.view())]) } }
impl Build for m::ResourceTemplateReference { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ResourceTemplateReference", v)) } }
impl View for m::ResourceUpdatedNotification { fn view(&self) -> V { vs(vec![("jsonrpc", self.jsonrpc().view()), ("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::ResourceUpdatedNotification { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ResourceUpdatedNotification", v)) } }
impl View for m::ResourceUpdatedNotificationParams { fn view(&self) -> V { vs(vec![("meta", self.meta.view()), ("uri", self.uri.view())]) } }
impl Build for m::ResourceUpdatedNotificationParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ResourceUpdatedNotificationParams", v)); } Ok(m::ResourceUpdatedNotificationParams { meta: fld(v, "meta")?, uri: fld(v, "uri")? }) } }
impl View for m::Result { fn view(&self) -> V { vs(vec![("meta", self.meta.view()), ("extra", self.extra.view())]) } }
impl Build for m::Result { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("Result", v)); } Ok(m::Result { meta: fld(v, "meta")?, extra: fld(v, "extra")? }) } }
impl View for m::Role { fn view(&self) -> V { json!(["U", match self { m::Role::Assistant => "Assistant", m::Role::User => "User" }]) } }
impl Build for m::Role { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Ok(match v[1].as_str().unwrap_or("") { "Assistant" => m::Role::Assistant, "User" => m::Role::User, _ => return Err(bad("Role", v)) }) } }
impl View for m::Root { fn view(&self) -> V { vs(vec![("meta", self.meta.view()), ("name", self.name.view()), ("uri", self.uri.view())]) } }
impl Build for m::Root { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("Root", v)); } Ok(m::Root { meta: fld(v, "meta")?, name: fld(v, "name")?, uri: fld(v, "uri")? }) } }
impl View for m::RootsListChangedNotification { fn view(&self) -> V { vs(vec![("jsonrpc", self.jsonrpc().view()), ("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::RootsListChangedNotification { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("RootsListChangedNotification", v)) } }
impl View for m::RpcError { fn view(&self) -> V { vs(vec![("code", self.code.view()), ("data", self.data.view()), ("message", self.message.view())]) } }
impl Build for m::RpcError { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("RpcError", v)); } Ok(m::RpcError { code: fld(v, "code")?, data: fld(v, "data")?, message: fld(v, "message")? }) } }
impl View for m::SamplingMessage { fn view(&self) -> V { vs(vec![("content", self.content.view()), ("meta", self.meta.view()), ("role", self.role.view())]) } }
impl Build for m::SamplingMessage { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("SamplingMessage", v)); } Ok(m::SamplingMessage { content: fld(v, "content")?, meta: fld(v, "meta")?, role: fld(v, "role")? }) } }
impl View for m::SamplingMessageContent { fn view(&self) -> V { match self { m::SamplingMessageContent::TextContent(x) => json!(["E", "TextContent", x.view()]), m::SamplingMessageContent::ImageContent(x) => json!(["E", "ImageContent", x.view()]), m::SamplingMessageContent::AudioContent(x) => json!(["E", "AudioContent", x.view()]), m::SamplingMessageContent::ToolUseContent(x) => json!(["E", "ToolUseContent", x.view()]), m::SamplingMessageContent::ToolResultContent(x) => json!(["E", "ToolResultContent", x.view()]), m::SamplingMessageContent::SamplingMessageContentBlock(x) => json!(["E", "SamplingMessageContentBlock", x.view()]) } } }
impl Build for m::SamplingMessageContent { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("SamplingMessageContent", v)); } Ok(match v[1].as_str().unwrap_or("") { "TextContent" => m::SamplingMessageContent::TextContent(Build::build(&v[2])?), "ImageContent" => m::SamplingMessageContent::ImageContent(Build::build(&v[2])?), "AudioContent" => m::SamplingMessageContent::AudioContent(Build::build(&v[2])?), "ToolUseContent" => m::SamplingMessageContent::ToolUseContent(Build::build(&v[2])?), "ToolResultContent" => m::SamplingMessageContent::ToolResultContent(Build::build(&v[2])?), "SamplingMessageContentBlock" => m::SamplingMessageContent::SamplingMessageContentBlock(Build::build(&v[2])?), _ => return Err(bad("SamplingMessageContent", v)) }) } }
impl View for m::SamplingMessageContentBlock { fn view(&self) -> V { match self { m::SamplingMessageContentBlock::TextContent(x) => json!(["E", "TextContent", x.view()]), m::SamplingMessageContentBlock::ImageContent(x) => json!(["E", "ImageContent", x.view()]), m::SamplingMessageContentBlock::AudioContent(x) => json!(["E", "AudioContent", x.view()]), m::SamplingMessageContentBlock::ToolUseContent(x) => json!(["E", "ToolUseContent", x.view()]), m::SamplingMessageContentBlock::ToolResultContent(x) => json!(["E", "ToolResultContent", x.view()]) } } }
impl Build for m::SamplingMessageContentBlock { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("SamplingMessageContentBlock", v)); } Ok(match v[1].as_str().unwrap_or("") { "TextContent" => m::SamplingMessageContentBlock::TextContent(Build::build(&v[2])?), "ImageContent" => m::SamplingMessageContentBlock::ImageContent(Build::build(&v[2])?), "AudioContent" => m::SamplingMessageContentBlock::AudioContent(Build::build(&v[2])?), "ToolUseContent" => m::SamplingMessageContentBlock::ToolUseContent(Build::build(&v[2])?), "ToolResultContent" => m::SamplingMessageContentBlock::ToolResultContent(Build::build(&v[2])?), _ => return Err(bad("SamplingMessageContentBlock", v)) }) } }
impl View for m::ServerCapabilities { fn view(&self) -> V { vs(vec![("completions", self.completions.view()), ("experimental", self.experimental.view()), ("logging", self.logging.view()), ("prompts", self.prompts.view()), ("resources", self.resources.view()), ("tasks", self.tasks.view()), ("tools", self.tools.view())]) } }
impl Build for m::ServerCapabilities { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ServerCapabilities", v)); } Ok(m::ServerCapabilities { completions: fld(v, "completions")?, experimental: fld(v, "experimental")?, logging: fld(v, "logging")?, prompts: fld(v, "prompts")?, resources: fld(v, "resources")?, tasks: fld(v, "tasks")?, tools: fld(v, "tools")? }) } }
impl View for m::ServerCapabilitiesPrompts { fn view(&self) -> V { vs(vec![("list_changed", self.list_changed.view())]) } }
impl Build for m::ServerCapabilitiesPrompts { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ServerCapabilitiesPrompts", v)); } Ok(m::ServerCapabilitiesPrompts { list_changed: fld(v, "list_changed")? }) } }
impl View for m::ServerCapabilitiesResources { fn view(&self) -> V { vs(vec![("list_changed", self.list_changed.view()), ("subscribe", self.subscribe.view())]) } }
impl Build for m::ServerCapabilitiesResources { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ServerCapabilitiesResources", v)); } Ok(m::ServerCapabilitiesResources { list_changed: fld(v, "list_changed")?, subscribe: fld(v, "subscribe")? }) } }
impl View for m::ServerCapabilitiesTools { fn view(&self) -> V { vs(vec![("list_changed", self.list_changed.view())]) } }
impl Build for m::ServerCapabilitiesTools { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ServerCapabilitiesTools", v)); } Ok(m::ServerCapabilitiesTools { list_changed: fld(v, "list_changed")? }) } }
impl View for m::ServerNotification { fn view(&self) -> V { match self { m::ServerNotification::CancelledNotification(x) => json!(["E", "CancelledNotification", x.view()]), m::ServerNotification::ProgressNotification(x) => json!(["E", "ProgressNotification", x.view()]), m::ServerNotification::ResourceListChangedNotification(x) => json!(["E", "ResourceListChangedNotification", x.view()]), m::ServerNotification::ResourceUpdatedNotification(x) => json!(["E", "ResourceUpdatedNotification", x.view()]), m::ServerNotification::PromptListChangedNotification(x) => json!(["E", "PromptListChangedNotification", x.view()]), m::ServerNotification::ToolListChangedNotification(x) => json!(["E", "ToolListChangedNotification", x.view()]), m::ServerNotification::TaskStatusNotification(x) => json!(["E", "TaskStatusNotification", x.view()]), m::ServerNotification::LoggingMessageNotification(x) => json!(["E", "LoggingMessageNotification", x.view()]), m::ServerNotification::ElicitationCompleteNotification(x) => json!(["E", "ElicitationCompleteNotification", x.view()]) } } }
impl Build for m::ServerNotification { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("ServerNotification", v)); } Ok(match v[1].as_str().unwrap_or("") { "CancelledNotification" => m::ServerNotification::CancelledNotification(Build::build(&v[2])?), "ProgressNotification" => m::ServerNotification::ProgressNotification(Build::build(&v[2])?), "ResourceListChangedNotification" => m::ServerNotification::ResourceListChangedNotification(Build::build(&v[2])?), "ResourceUpdatedNotification" => m::ServerNotification::ResourceUpdatedNotification(Build::build(&v[2])?), "PromptListChangedNotification" => m::ServerNotification::PromptListChangedNotification(Build::build(&v[2])?), "ToolListChangedNotification" => m::ServerNotification::ToolListChangedNotification(Build::build(&v[2])?), "TaskStatusNotification" => m::ServerNotification::TaskStatusNotification(Build::build(&v[2])?), "LoggingMessageNotification" => m::ServerNotification::LoggingMessageNotification(Build::build(&v[2])?), "ElicitationCompleteNotification" => m::ServerNotification::ElicitationCompleteNotification(Build::build(&v[2])?), _ => return Err(bad("ServerNotification", v)) }) } }
impl View for m::ServerRequest { fn view(&self) -> V { match self { m::ServerRequest::PingRequest(x) => json!(["E", "PingRequest", x.view()]), m::ServerRequest::GetTaskRequest(x) => json!(["E", "GetTaskRequest", x.view()]), m::ServerRequest::GetTaskPayloadRequest(x) => json!(["E", "GetTaskPayloadRequest", x.view()]), m::ServerRequest::CancelTaskRequest(x) => json!(["E", "CancelTaskRequest", x.view()]), m::ServerRequest::ListTasksRequest(x) => json!(["E", "ListTasksRequest", x.view()]), m::ServerRequest::CreateMessageRequest(x) => json!(["E", "CreateMessageRequest", x.view()]), m::ServerRequest::ListRootsRequest(x) => json!(["E", "ListRootsRequest", x.view()]), m::ServerRequest::ElicitRequest(x) => json!(["E", "ElicitRequest", x.view()]) } } }
impl Build for m::ServerRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("ServerRequest", v)); } Ok(match v[1].as_str().unwrap_or("") { "PingRequest" => m::ServerRequest::PingRequest(Build::build(&v[2])?), "GetTaskRequest" => m::ServerRequest::GetTaskRequest(Build::build(&v[2])?), "GetTaskPayloadRequest" => m::ServerRequest::GetTaskPayloadRequest(Build::build(&v[2])?), "CancelTaskRequest" => m::ServerRequest::CancelTaskRequest(Build::build(&v[2])?), "ListTasksRequest" => m::ServerRequest::ListTasksRequest(Build::build(&v[2])?), "CreateMessageRequest" => m::ServerRequest::CreateMessageRequest(Build::build(&v[2])?), "ListRootsRequest" => m::ServerRequest::ListRootsRequest(Build::build(&v[2])?), "ElicitRequest" => m::ServerRequest::ElicitRequest(Build::build(&v[2])?), _ => return Err(bad("ServerRequest", v)) }) } }
impl View for m::ServerResult { fn view(&self) -> V { match self { m::ServerResult::InitializeResult(x) => json!(["E", "InitializeResult", x.view()]), m::ServerResult::ListResourcesResult(x) => json!(["E", "ListResourcesResult", x.view()]), m::ServerResult::ListResourceTemplatesResult(x) => json!(["E", "ListResourceTemplatesResult", x.view()]), m::ServerResult::ReadResourceResult(x) => json!(["E", "ReadResourceResult", x.view()]), m::ServerResult::ListPromptsResult(x) => json!(["E", "ListPromptsResult", x.view()]), m::ServerResult::GetPromptResult(x) => json!(["E", "GetPromptResult", x.view()]), m::ServerResult::ListToolsResult(x) => json!(["E", "ListToolsResult", x.view()]), m::ServerResult::CallToolResult(x) => json!(["E", "CallToolResult", x.view()]), m::ServerResult::GetTaskResult(x) => json!(["E", "GetTaskResult", x.view()]), m::ServerResult::CancelTaskResult(x) => json!(["E", "CancelTaskResult", x.view()]), m::ServerResult::ListTasksResult(x) => json!(["E", "ListTasksResult", x.view()]), m::ServerResult::CompleteResult(x) => json!(["E", "CompleteResult", x.view()]), m::ServerResult::Result(x) => json!(["E", "Result", x.view()]), m::ServerResult::GetTaskPayloadResult(x) => json!(["E", "GetTaskPayloadResult", x.view()]) } } }
impl Build for m::ServerResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("ServerResult", v)); } Ok(match v[1].as_str().unwrap_or("") { "InitializeResult" => m::ServerResult::InitializeResult(Build::build(&v[2])?), "ListResourcesResult" => m::ServerResult::ListResourcesResult(Build::build(&v[2])?), "ListResourceTemplatesResult" => m::ServerResult::ListResourceTemplatesResult(Build::build(&v[2])?), "ReadResourceResult" => m::ServerResult::ReadResourceResult(Build::build(&v[2])?), "ListPromptsResult" => m::ServerResult::ListPromptsResult(Build::build(&v[2])?), "GetPromptResult" => m::ServerResult::GetPromptResult(Build::build(&v[2])?), "ListToolsResult" => m::ServerResult::ListToolsResult(Build::build(&v[2])?), "CallToolResult" => m::ServerResult::CallToolResult(Build::build(&v[2])?), "GetTaskResult" => m::ServerResult::GetTaskResult(Build::build(&v[2])?), "CancelTaskResult" => m::ServerResult::CancelTaskResult(Build::build(&v[2])?), "ListTasksResult" => m::ServerResult::ListTasksResult(Build::build(&v[2])?), "CompleteResult" => m::ServerResult::CompleteResult(Build::build(&v[2])?), "Result" => m::ServerResult::Result(Build::build(&v[2])?), "GetTaskPayloadResult" => m::ServerResult::GetTaskPayloadResult(Build::build(&v[2])?), _ => return Err(bad("ServerResult", v)) }) } }
impl View for m::ServerTaskRequest { fn view(&self) -> V { vs(vec![("tools", self.tools.view())]) } }
impl Build for m::ServerTaskRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ServerTaskRequest", v)); } Ok(m::ServerTaskRequest { tools: fld(v, "tools")? }) } }
impl View for m::ServerTaskTools { fn view(&self) -> V { vs(vec![("call", self.call.view())]) } }
impl Build for m::ServerTaskTools { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ServerTaskTools", v)); } Ok(m::ServerTaskTools { call: fld(v, "call")? }) } }
impl View for m::ServerTasks { fn view(&self) -> V { vs(vec![("cancel", self.cancel.view()), ("list", self.list.view()), ("requests", self.requests.view())]) } }
impl Build for m::ServerTasks { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ServerTasks", v)); } Ok(m::ServerTasks { cancel: fld(v, "cancel")?, list: fld(v, "list")?, requests: fld(v, "requests")? }) } }
impl View for m::SetLevelMeta { fn view(&self) -> V { vs(vec![("progress_token", self.progress_token.view()), ("extra", self.extra.view())]) } }
impl Build for m::SetLevelMeta { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("SetLevelMeta", v)); } Ok(m::SetLevelMeta { progress_token: fld(v, "progress_token")?, extra: fld(v, "extra")? }) } }
impl View for m::SetLevelRequest { fn view(&self) -> V { vs(vec![("id", self.id.view()), ("jsonrpc", self.jsonrpc().view()), ("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::SetLevelRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("SetLevelRequest", v)) } }
impl View for m::SetLevelRequestParams { fn view(&self) -> V { vs(vec![("level", self.level.view()), ("meta", self.meta.view())]) } }
impl Build for m::SetLevelRequestParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("SetLevelRequestParams", v)); } Ok(m::SetLevelRequestParams { level: fld(v, "level")?, meta: fld(v, "meta")? }) } }
impl View for m::SingleSelectEnumSchema { fn view(&self) -> V { match self { m::SingleSelectEnumSchema::UntitledSingleSelectEnumSchema(x) => json!(["E", "UntitledSingleSelectEnumSchema", x.view()]), m::SingleSelectEnumSchema::TitledSingleSelectEnumSchema(x) => json!(["E", "TitledSingleSelectEnumSchema", x.view()]) } } }
impl Build for m::SingleSelectEnumSchema { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("SingleSelectEnumSchema", v)); } Ok(match v[1].as_str().unwrap_or("") { "UntitledSingleSelectEnumSchema" => m::SingleSelectEnumSchema::UntitledSingleSelectEnumSchema(Build::build(&v[2])?), "TitledSingleSelectEnumSchema" => m::SingleSelectEnumSchema::TitledSingleSelectEnumSchema(Build::build(&v[2])?), _ => return Err(bad("SingleSelectEnumSchema", v)) }) } }
impl View for m::StringSchema { fn view(&self) -> V { vs(vec![("default", self.default.view()), ("description", self.description.view()), ("format", self.format.view()), ("max_length", self.max_length.view()), ("min_length", self.min_length.view()), ("title", self.title.view()), ("type_", self.type_().view())]) } }
impl Build for m::StringSchema { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("StringSchema", v)) } }
impl View for m::StringSchemaFormat { fn view(&self) -> V { json!(["U", match self { m::StringSchemaFormat::Date => "Date", m::StringSchemaFormat::DateTime => "DateTime", m::StringSchemaFormat::Email => "Email", m::StringSchemaFormat::Uri => "Uri" }]) } }
impl Build for m::StringSchemaFormat { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Ok(match v[1].as_str().unwrap_or("") { "Date" => m::StringSchemaFormat::Date, "DateTime" => m::StringSchemaFormat::DateTime, "Email" => m::StringSchemaFormat::Email, "Uri" => m::StringSchemaFormat::Uri, _ => return Err(bad("StringSchemaFormat", v)) }) } }
impl View for m::SubscribeMeta { fn view(&self) -> V { vs(vec![("progress_token", self.progress_token.view()), ("extra", self.extra.view())]) } }
impl Build for m::SubscribeMeta { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("SubscribeMeta", v)); } Ok(m::SubscribeMeta { progress_token: fld(v, "progress_token")?, extra: fld(v, "extra")? }) } }
impl View for m::SubscribeRequest { fn view(&self) -> V { vs(vec![("id", self.id.view()), ("jsonrpc", self.jsonrpc().view()), ("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::SubscribeRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("SubscribeRequest", v)) } }
impl View for m::SubscribeRequestParams { fn view(&self) -> V { vs(vec![("meta", self.meta.view()), ("uri", self.uri.view())]) } }
impl Build for m::SubscribeRequestParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("SubscribeRequestParams", v)); } Ok(m::SubscribeRequestParams { meta: fld(v, "meta")?, uri: fld(v, "uri")? }) } }
impl View for m::Task { fn view(&self) -> V { vs(vec![("created_at", self.created_at.view()), ("last_updated_at", self.last_updated_at.view()), ("poll_interval", self.poll_interval.view()), ("status", self.status.view()), ("status_message", self.status_message.view()), ("task_id", self.task_id.view()), ("ttl", self.ttl.view())]) } }
impl Build for m::Task { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("Task", v)); } Ok(m::Task { created_at: fld(v, "created_at")?, last_updated_at: fld(v, "last_updated_at")?, poll_interval: fld(v, "poll_interval")?, status: fld(v, "status")?, status_message: fld(v, "status_message")?, task_id: fld(v, "task_id")?, ttl: fld(v, "ttl")? }) } }
impl View for m::TaskAugmentedMeta { fn view(&self) -> V { vs(vec![("progress_token", self.progress_token.view()), ("extra", self.extra.view())]) } }
impl Build for m::TaskAugmentedMeta { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("TaskAugmentedMeta", v)); } Ok(m::TaskAugmentedMeta { progress_token: fld(v, "progress_token")?, extra: fld(v, "extra")? }) } }
impl View for m::TaskAugmentedRequestParams { fn view(&self) -> V { vs(vec![("meta", self.meta.view()), ("task", self.task.view())]) } }
impl Build for m::TaskAugmentedRequestParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("TaskAugmentedRequestParams", v)); } Ok(m::TaskAugmentedRequestParams { meta: fld(v, "meta")?, task: fld(v, "task")? }) } }
impl View for m::TaskMetadata { fn view(&self) -> V { vs(vec![("ttl", self.ttl.view())]) } }
impl Build for m::TaskMetadata { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("TaskMetadata", v)); } Ok(m::TaskMetadata { ttl: fld(v, "ttl")? }) } }
impl View for m::TaskStatus { fn view(&self) -> V { json!(["U", match self { m::TaskStatus::Cancelled => "Cancelled", m::TaskStatus::Completed => "Completed", m::TaskStatus::Failed => "Failed", m::TaskStatus::InputRequired => "InputRequired", m::TaskStatus::Working => "Working" }]) } }
impl Build for m::TaskStatus { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Ok(match v[1].as_str().unwrap_or("") { "Cancelled" => m::TaskStatus::Cancelled, "Completed" => m::TaskStatus::Completed, "Failed" => m::TaskStatus::Failed, "InputRequired" => m::TaskStatus::InputRequired, "Working" => m::TaskStatus::Working, _ => return Err(bad("TaskStatus", v)) }) } }
impl View for m::TaskStatusNotification { fn view(&self) -> V { vs(vec![("jsonrpc", self.jsonrpc().view()), ("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::TaskStatusNotification { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("TaskStatusNotification", v)) } }
impl View for m::TaskStatusNotificationParams { fn view(&self) -> V { vs(vec![("created_at", self.created_at.view()), ("last_updated_at", self.last_updated_at.view()), ("meta", self.meta.view()), ("poll_interval", self.poll_interval.view()), ("status", self.status.view()), ("status_message", self.status_message.view()), ("task_id", self.task_id.view()), ("ttl", self.ttl.view())]) } }
impl Build for m::TaskStatusNotificationParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("TaskStatusNotificationParams", v)); } Ok(m::TaskStatusNotificationParams { created_at: fld(v, "created_at")?, last_updated_at: fld(v, "last_updated_at")?, meta: fld(v, "meta")?, poll_interval: fld(v, "poll_interval")?, status: fld(v, "status")?, status_message: fld(v, "status_message")?, task_id: fld(v, "task_id")?, ttl: fld(v, "ttl")? }) } }
impl View for m::TextContent { fn view(&self) -> V { vs(vec![("annotations", self.annotations.view()), ("meta", self.meta.view()), ("text", self.text.view()), ("type_", self.type_().view())]) } }
impl Build for m::TextContent { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("TextContent", v)) } }
impl View for m::TextResourceContents { fn view(&self) -> V { vs(vec![("meta", self.meta.view()), ("mime_type", self.mime_type.view()), ("text", self.text.view()), ("uri", self.uri.view())]) } }
impl Build for m::TextResourceContents { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("TextResourceContents", v)); } Ok(m::TextResourceContents { meta: fld(v, "meta")?, mime_type: fld(v, "mime_type")?, text: fld(v, "text")?, uri: fld(v, "uri")? }) } }
impl View for m::TitledMultiSelectEnumSchema { fn view(&self) -> V { vs(vec![("default", self.default.view()), ("description", self.description.view()), ("items", self.items.view()), ("max_items", self.max_items.view()), ("min_items", self.min_items.view()), ("title", self.title.view()), ("type_", self.type_().view())]) } }
impl Build for m::TitledMultiSelectEnumSchema { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("TitledMultiSelectEnumSchema", v)) } }
impl View for m::TitledMultiSelectEnumSchemaItems { fn view(&self) -> V { vs(vec![("any_of", self.any_of.view())]) } }
impl Build for m::TitledMultiSelectEnumSchemaItems { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("TitledMultiSelectEnumSchemaItems", v)); } Ok(m::TitledMultiSelectEnumSchemaItems { any_of: fld(v, "any_of")? }) } }
impl View for m::TitledMultiSelectEnumSchemaItemsAnyOfItem { fn view(&self) -> V { vs(vec![("const_", self.const_.view()), ("title", self.title.view())]) } }
impl Build for m::TitledMultiSelectEnumSchemaItemsAnyOfItem { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("TitledMultiSelectEnumSchemaItemsAnyOfItem", v)); } Ok(m::TitledMultiSelectEnumSchemaItemsAnyOfItem { const_: fld(v, "const_")?, title: fld(v, "title")? }) } }
impl View for m::TitledSingleSelectEnumSchema { fn view(&self) -> V { vs(vec![("default", self.default.view()), ("description", self.description.view()), ("one_of", self.one_of.view()), ("title", self.title.view()), ("type_", self.type_().view())]) } }
impl Build for m::TitledSingleSelectEnumSchema { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("TitledSingleSelectEnumSchema", v)) } }
impl View for m::TitledSingleSelectEnumSchemaOneOfItem { fn view(&self) -> V { vs(vec![("const_", self.const_.view()), ("title", self.title.view())]) } }
impl Build for m::TitledSingleSelectEnumSchemaOneOfItem { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("TitledSingleSelectEnumSchemaOneOfItem", v)); } Ok(m::TitledSingleSelectEnumSchemaOneOfItem { const_: fld(v, "const_")?, title: fld(v, "title")? }) } }
impl View for m::Tool { fn view(&self) -> V { vs(vec![("annotations", self.annotations.view()), ("description", self.description.view()), ("execution", self.execution.view()), ("icons", self.icons.view()), ("input_schema", self.input_schema.view()), ("meta", self.meta.view()), ("name", self.name.view()), ("output_schema", self.output_schema.view()), ("title", self.title.view())]) } }
impl Build for m::Tool { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("Tool", v)); } Ok(m::Tool { annotations: fld(v, "annotations")?, description: fld(v, "description")?, execution: fld(v, "execution")?, icons: fld(v, "icons")?, input_schema: fld(v, "input_schema")?, meta: fld(v, "meta")?, name: fld(v, "name")?, output_schema: fld(v, "output_schema")?, title: fld(v, "title")? }) } }
impl View for m::ToolAnnotations { fn view(&self) -> V { vs(vec![("destructive_hint", self.destructive_hint.view()), ("idempotent_hint", self.idempotent_hint.view()), ("open_world_hint", self.open_world_hint.view()), ("read_only_hint", self.read_only_hint.view()), ("title", self.title.view())]) } }
impl Build for m::ToolAnnotations { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ToolAnnotations", v)); } Ok(m::ToolAnnotations { destructive_hint: fld(v, "destructive_hint")?, idempotent_hint: fld(v, "idempotent_hint")?, open_world_hint: fld(v, "open_world_hint")?, read_only_hint: fld(v, "read_only_hint")?, title: fld(v, "title")? }) } }
impl View for m::ToolChoice { fn view(&self) -> V { vs(vec![("mode", self.mode.view())]) } }
impl Build for m::ToolChoice { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ToolChoice", v)); } Ok(m::ToolChoice { mode: fld(v, "mode")? }) } }
impl View for m::ToolChoiceMode { fn view(&self) -> V { json!(["U", match self { m::ToolChoiceMode::Auto => "Auto", m::ToolChoiceMode::None => "None", m::ToolChoiceMode::Required => "Required" }]) } }
impl Build for m::ToolChoiceMode { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Ok(match v[1].as_str().unwrap_or("") { "Auto" => m::ToolChoiceMode::Auto, "None" => m::ToolChoiceMode::None, "Required" => m::ToolChoiceMode::Required, _ => return Err(bad("ToolChoiceMode", v)) }) } }
impl View for m::ToolExecution { fn view(&self) -> V { vs(vec![("task_support", self.task_support.view())]) } }
impl Build for m::ToolExecution { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("ToolExecution", v)); } Ok(m::ToolExecution { task_support: fld(v, "task_support")? }) } }
impl View for m::ToolExecutionTaskSupport { fn view(&self) -> V { json!(["U", match self { m::ToolExecutionTaskSupport::Forbidden => "Forbidden", m::ToolExecutionTaskSupport::Optional => "Optional", m::ToolExecutionTaskSupport::Required => "Required" }]) } }
impl Build for m::ToolExecutionTaskSupport { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Ok(match v[1].as_str().unwrap_or("") { "Forbidden" => m::ToolExecutionTaskSupport::Forbidden, "Optional" => m::ToolExecutionTaskSupport::Optional, "Required" => m::ToolExecutionTaskSupport::Required, _ => return Err(bad("ToolExecutionTaskSupport", v)) }) } }
impl View for m::ToolInputSchema { fn view(&self) -> V { vs(vec![("properties", self.properties.view()), ("required", self.required.view()), ("schema", self.schema.view()), ("type_", self.type_().view())]) } }
impl Build for m::ToolInputSchema { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ToolInputSchema", v)) } }
impl View for m::ToolListChangedNotification { fn view(&self) -> V { vs(vec![("jsonrpc", self.jsonrpc().view()), ("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::ToolListChangedNotification { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ToolListChangedNotification", v)) } }
impl View for m::ToolOutputSchema { fn view(&self) -> V { vs(vec![("properties", self.properties.view()), ("required", self.required.view()), ("schema", self.schema.view()), ("type_", self.type_().view())]) } }
impl Build for m::ToolOutputSchema { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ToolOutputSchema", v)) } }
impl View for m::ToolResultContent { fn view(&self) -> V { vs(vec![("content", self.content.view()), ("is_error", self.is_error.view()), ("meta", self.meta.view()), ("structured_content", self.structured_content.view()), ("tool_use_id", self.tool_use_id.view()), ("type_", self.type_().view())]) } }
impl Build for m::ToolResultContent { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ToolResultContent", v)) } }
impl View for m::ToolUseContent { fn view(&self) -> V { vs(vec![("id", self.id.view()), ("input", self.input.view()), ("meta", self.meta.view()), ("name", self.name.view()), ("type_", self.type_().view())]) } }
impl Build for m::ToolUseContent { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ToolUseContent", v)) } }
impl View for m::UnsubscribeMeta { fn view(&self) -> V { vs(vec![("progress_token", self.progress_token.view()), ("extra", self.extra.view())]) } }
impl Build for m::UnsubscribeMeta { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("UnsubscribeMeta", v)); } Ok(m::UnsubscribeMeta { progress_token: fld(v, "progress_token")?, extra: fld(v, "extra")? }) } }
impl View for m::UnsubscribeRequest { fn view(&self) -> V { vs(vec![("id", self.id.view()), ("jsonrpc", self.jsonrpc().view()), ("method", self.method().view()), ("params", self.params.view())]) } }
impl Build for m::UnsubscribeRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("UnsubscribeRequest", v)) } }
impl View for m::UnsubscribeRequestParams { fn view(&self) -> V { vs(vec![("meta", self.meta.view()), ("uri", self.uri.view())]) } }
impl Build for m::UnsubscribeRequestParams { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("UnsubscribeRequestParams", v)); } Ok(m::UnsubscribeRequestParams { meta: fld(v, "meta")?, uri: fld(v, "uri")? }) } }
impl View for m::UntitledMultiSelectEnumSchema { fn view(&self) -> V { vs(vec![("default", self.default.view()), ("description", self.description.view()), ("items", self.items.view()), ("max_items", self.max_items.view()), ("min_items", self.min_items.view()), ("title", self.title.view()), ("type_", self.type_().view())]) } }
impl Build for m::UntitledMultiSelectEnumSchema { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("UntitledMultiSelectEnumSchema", v)) } }
impl View for m::UntitledMultiSelectEnumSchemaItems { fn view(&self) -> V { vs(vec![("enum_", self.enum_.view()), ("type_", self.type_().view())]) } }
impl Build for m::UntitledMultiSelectEnumSchemaItems { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("UntitledMultiSelectEnumSchemaItems", v)) } }
impl View for m::UntitledSingleSelectEnumSchema { fn view(&self) -> V { vs(vec![("default", self.default.view()), ("description", self.description.view()), ("enum_", self.enum_.view()), ("title", self.title.view()), ("type_", self.type_().view())]) } }
impl Build for m::UntitledSingleSelectEnumSchema { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("UntitledSingleSelectEnumSchema", v)) } }
impl View for m::UrlElicitError { fn view(&self) -> V { vs(vec![("code", self.code().view()), ("data", self.data.view()), ("message", self.message.view())]) } }
impl Build for m::UrlElicitError { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("UrlElicitError", v)) } }
impl View for m::UrlElicitErrorData { fn view(&self) -> V { vs(vec![("elicitations", self.elicitations.view()), ("extra", self.extra.view())]) } }
impl Build for m::UrlElicitErrorData { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("UrlElicitErrorData", v)); } Ok(m::UrlElicitErrorData { elicitations: fld(v, "elicitations")?, extra: fld(v, "extra")? }) } }
impl View for m::UrlElicitationRequiredError { fn view(&self) -> V { vs(vec![("error", self.error.view()), ("id", self.id.view()), ("jsonrpc", self.jsonrpc().view())]) } }
impl Build for m::UrlElicitationRequiredError { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("UrlElicitationRequiredError", v)) } }
impl View for u::MessageTypes { fn view(&self) -> V { json!(["U", match self { u::MessageTypes::Request => "Request", u::MessageTypes::Response => "Response", u::MessageTypes::Notification => "Notification", u::MessageTypes::Error => "Error" }]) } }
impl Build for u::MessageTypes { fn build(v: &V) -> R<Self> {  Ok(match v[1].as_str().unwrap_or("") { "Request" => u::MessageTypes::Request, "Response" => u::MessageTypes::Response, "Notification" => u::MessageTypes::Notification, "Error" => u::MessageTypes::Error, _ => return Err(bad("MessageTypes", v)) }) } }
impl View for u::ClientMessage { fn view(&self) -> V { match self { u::ClientMessage::Request(x) => json!(["E", "Request", x.view()]), u::ClientMessage::Notification(x) => json!(["E", "Notification", x.view()]), u::ClientMessage::Response(x) => json!(["E", "Response", x.view()]), u::ClientMessage::Error(x) => json!(["E", "Error", x.view()]) } } }
impl Build for u::ClientMessage { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("ClientMessage", v)); } Ok(match v[1].as_str().unwrap_or("") { "Request" => u::ClientMessage::Request(Build::build(&v[2])?), "Notification" => u::ClientMessage::Notification(Build::build(&v[2])?), "Response" => u::ClientMessage::Response(Build::build(&v[2])?), "Error" => u::ClientMessage::Error(Build::build(&v[2])?), _ => return Err(bad("ClientMessage", v)) }) } }
impl View for u::ClientJsonrpcRequest { fn view(&self) -> V { match self { u::ClientJsonrpcRequest::InitializeRequest(x) => json!(["E", "InitializeRequest", x.view()]), u::ClientJsonrpcRequest::PingRequest(x) => json!(["E", "PingRequest", x.view()]), u::ClientJsonrpcRequest::ListResourcesRequest(x) => json!(["E", "ListResourcesRequest", x.view()]), u::ClientJsonrpcRequest::ListResourceTemplatesRequest(x) => json!(["E", "ListResourceTemplatesRequest", x.view()]), u::ClientJsonrpcRequest::ReadResourceRequest(x) => json!(["E", "ReadResourceRequest", x.view()]), u::ClientJsonrpcRequest::SubscribeRequest(x) => json!(["E", "SubscribeRequest", x.view()]), u::ClientJsonrpcRequest::UnsubscribeRequest(x) => json!(["E", "UnsubscribeRequest", x.view()]), u::ClientJsonrpcRequest::ListPromptsRequest(x) => json!(["E", "ListPromptsRequest", x.view()]), u::ClientJsonrpcRequest::GetPromptRequest(x) => json!(["E", "GetPromptRequest", x.view()]), u::ClientJsonrpcRequest::ListToolsRequest(x) => json!(["E", "ListToolsRequest", x.view()]), u::ClientJsonrpcRequest::CallToolRequest(x) => json!(["E", "CallToolRequest", x.view()]), u::ClientJsonrpcRequest::GetTaskRequest(x) => json!(["E", "GetTaskRequest", x.view()]), u::ClientJsonrpcRequest::GetTaskPayloadRequest(x) => json!(["E", "GetTaskPayloadRequest", x.view()]), u::ClientJsonrpcRequest::CancelTaskRequest(x) => json!(["E", "CancelTaskRequest", x.view()]), u::ClientJsonrpcRequest::ListTasksRequest(x) => json!(["E", "ListTasksRequest", x.view()]), u::ClientJsonrpcRequest::SetLevelRequest(x) => json!(["E", "SetLevelRequest", x.view()]), u::ClientJsonrpcRequest::CompleteRequest(x) => json!(["E", "CompleteRequest", x.view()]), u::ClientJsonrpcRequest::CustomRequest(x) => json!(["E", "CustomRequest", x.view()]) } } }
impl Build for u::ClientJsonrpcRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("ClientJsonrpcRequest", v)); } Ok(match v[1].as_str().unwrap_or("") { "InitializeRequest" => u::ClientJsonrpcRequest::InitializeRequest(Build::build(&v[2])?), "PingRequest" => u::ClientJsonrpcRequest::PingRequest(Build::build(&v[2])?), "ListResourcesRequest" => u::ClientJsonrpcRequest::ListResourcesRequest(Build::build(&v[2])?), "ListResourceTemplatesRequest" => u::ClientJsonrpcRequest::ListResourceTemplatesRequest(Build::build(&v[2])?), "ReadResourceRequest" => u::ClientJsonrpcRequest::ReadResourceRequest(Build::build(&v[2])?), "SubscribeRequest" => u::ClientJsonrpcRequest::SubscribeRequest(Build::build(&v[2])?), "UnsubscribeRequest" => u::ClientJsonrpcRequest::UnsubscribeRequest(Build::build(&v[2])?), "ListPromptsRequest" => u::ClientJsonrpcRequest::ListPromptsRequest(Build::build(&v[2])?), "GetPromptRequest" => u::ClientJsonrpcRequest::GetPromptRequest(Build::build(&v[2])?), "ListToolsRequest" => u::ClientJsonrpcRequest::ListToolsRequest(Build::build(&v[2])?), "CallToolRequest" => u::ClientJsonrpcRequest::CallToolRequest(Build::build(&v[2])?), "GetTaskRequest" => u::ClientJsonrpcRequest::GetTaskRequest(Build::build(&v[2])?), "GetTaskPayloadRequest" => u::ClientJsonrpcRequest::GetTaskPayloadRequest(Build::build(&v[2])?), "CancelTaskRequest" => u::ClientJsonrpcRequest::CancelTaskRequest(Build::build(&v[2])?), "ListTasksRequest" => u::ClientJsonrpcRequest::ListTasksRequest(Build::build(&v[2])?), "SetLevelRequest" => u::ClientJsonrpcRequest::SetLevelRequest(Build::build(&v[2])?), "CompleteRequest" => u::ClientJsonrpcRequest::CompleteRequest(Build::build(&v[2])?), "CustomRequest" => u::ClientJsonrpcRequest::CustomRequest(Build::build(&v[2])?), _ => return Err(bad("ClientJsonrpcRequest", v)) }) } }
impl View for u::RequestFromClient { fn view(&self) -> V { match self { u::RequestFromClient::InitializeRequest(x) => json!(["E", "InitializeRequest", x.view()]), u::RequestFromClient::PingRequest(x) => json!(["E", "PingRequest", x.view()]), u::RequestFromClient::ListResourcesRequest(x) => json!(["E", "ListResourcesRequest", x.view()]), u::RequestFromClient::ListResourceTemplatesRequest(x) => json!(["E", "ListResourceTemplatesRequest", x.view()]), u::RequestFromClient::ReadResourceRequest(x) => json!(["E", "ReadResourceRequest", x.view()]), u::RequestFromClient::SubscribeRequest(x) => json!(["E", "SubscribeRequest", x.view()]), u::RequestFromClient::UnsubscribeRequest(x) => json!(["E", "UnsubscribeRequest", x.view()]), u::RequestFromClient::ListPromptsRequest(x) => json!(["E", "ListPromptsRequest", x.view()]), u::RequestFromClient::GetPromptRequest(x) => json!(["E", "GetPromptRequest", x.view()]), u::RequestFromClient::ListToolsRequest(x) => json!(["E", "ListToolsRequest", x.view()]), u::RequestFromClient::CallToolRequest(x) => json!(["E", "CallToolRequest", x.view()]), u::RequestFromClient::GetTaskRequest(x) => json!(["E", "GetTaskRequest", x.view()]), u::RequestFromClient::GetTaskPayloadRequest(x) => json!(["E", "GetTaskPayloadRequest", x.view()]), u::RequestFromClient::CancelTaskRequest(x) => json!(["E", "CancelTaskRequest", x.view()]), u::RequestFromClient::ListTasksRequest(x) => json!(["E", "ListTasksRequest", x.view()]), u::RequestFromClient::SetLevelRequest(x) => json!(["E", "SetLevelRequest", x.view()]), u::RequestFromClient::CompleteRequest(x) => json!(["E", "CompleteRequest", x.view()]), u::RequestFromClient::CustomRequest(x) => json!(["E", "CustomRequest", x.view()]) } } }
impl Build for u::RequestFromClient { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("RequestFromClient", v)); } Ok(match v[1].as_str().unwrap_or("") { "InitializeRequest" => u::RequestFromClient::InitializeRequest(Build::build(&v[2])?), "PingRequest" => u::RequestFromClient::PingRequest(Build::build(&v[2])?), "ListResourcesRequest" => u::RequestFromClient::ListResourcesRequest(Build::build(&v[2])?), "ListResourceTemplatesRequest" => u::RequestFromClient::ListResourceTemplatesRequest(Build::build(&v[2])?), "ReadResourceRequest" => u::RequestFromClient::ReadResourceRequest(Build::build(&v[2])?), "SubscribeRequest" => u::RequestFromClient::SubscribeRequest(Build::build(&v[2])?), "UnsubscribeRequest" => u::RequestFromClient::UnsubscribeRequest(Build::build(&v[2])?), "ListPromptsRequest" => u::RequestFromClient::ListPromptsRequest(Build::build(&v[2])?), "GetPromptRequest" => u::RequestFromClient::GetPromptRequest(Build::build(&v[2])?), "ListToolsRequest" => u::RequestFromClient::ListToolsRequest(Build::build(&v[2])?), "CallToolRequest" => u::RequestFromClient::CallToolRequest(Build::build(&v[2])?), "GetTaskRequest" => u::RequestFromClient::GetTaskRequest(Build::build(&v[2])?), "GetTaskPayloadRequest" => u::RequestFromClient::GetTaskPayloadRequest(Build::build(&v[2])?), "CancelTaskRequest" => u::RequestFromClient::CancelTaskRequest(Build::build(&v[2])?), "ListTasksRequest" => u::RequestFromClient::ListTasksRequest(Build::build(&v[2])?), "SetLevelRequest" => u::RequestFromClient::SetLevelRequest(Build::build(&v[2])?), "CompleteRequest" => u::RequestFromClient::CompleteRequest(Build::build(&v[2])?), "CustomRequest" => u::RequestFromClient::CustomRequest(Build::build(&v[2])?), _ => return Err(bad("RequestFromClient", v)) }) } }
impl View for u::ClientJsonrpcNotification { fn view(&self) -> V { match self { u::ClientJsonrpcNotification::CancelledNotification(x) => json!(["E", "CancelledNotification", x.view()]), u::ClientJsonrpcNotification::InitializedNotification(x) => json!(["E", "InitializedNotification", x.view()]), u::ClientJsonrpcNotification::ProgressNotification(x) => json!(["E", "ProgressNotification", x.view()]), u::ClientJsonrpcNotification::TaskStatusNotification(x) => json!(["E", "TaskStatusNotification", x.view()]), u::ClientJsonrpcNotification::RootsListChangedNotification(x) => json!(["E", "RootsListChangedNotification", x.view()]), u::ClientJsonrpcNotification::CustomNotification(x) => json!(["E", "CustomNotification", x.view()]) } } }
impl Build for u::ClientJsonrpcNotification { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("ClientJsonrpcNotification", v)); } Ok(match v[1].as_str().unwrap_or("") { "CancelledNotification" => u::ClientJsonrpcNotification::CancelledNotification(Build::build(&v[2])?), "InitializedNotification" => u::ClientJsonrpcNotification::InitializedNotification(Build::build(&v[2])?), "ProgressNotification" => u::ClientJsonrpcNotification::ProgressNotification(Build::build(&v[2])?), "TaskStatusNotification" => u::ClientJsonrpcNotification::TaskStatusNotification(Build::build(&v[2])?), "RootsListChangedNotification" => u::ClientJsonrpcNotification::RootsListChangedNotification(Build::build(&v[2])?), "CustomNotification" => u::ClientJsonrpcNotification::CustomNotification(Build::build(&v[2])?), _ => return Err(bad("ClientJsonrpcNotification", v)) }) } }
impl View for u::NotificationFromClient { fn view(&self) -> V { match self { u::NotificationFromClient::CancelledNotification(x) => json!(["E", "CancelledNotification", x.view()]), u::NotificationFromClient::InitializedNotification(x) => json!(["E", "InitializedNotification", x.view()]), u::NotificationFromClient::ProgressNotification(x) => json!(["E", "ProgressNotification", x.view()]), u::NotificationFromClient::TaskStatusNotification(x) => json!(["E", "TaskStatusNotification", x.view()]), u::NotificationFromClient::RootsListChangedNotification(x) => json!(["E", "RootsListChangedNotification", x.view()]), u::NotificationFromClient::CustomNotification(x) => json!(["E", "CustomNotification", x.view()]) } } }
impl Build for u::NotificationFromClient { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("NotificationFromClient", v)); } Ok(match v[1].as_str().unwrap_or("") { "CancelledNotification" => u::NotificationFromClient::CancelledNotification(Build::build(&v[2])?), "InitializedNotification" => u::NotificationFromClient::InitializedNotification(Build::build(&v[2])?), "ProgressNotification" => u::NotificationFromClient::ProgressNotification(Build::build(&v[2])?), "TaskStatusNotification" => u::NotificationFromClient::TaskStatusNotification(Build::build(&v[2])?), "RootsListChangedNotification" => u::NotificationFromClient::RootsListChangedNotification(Build::build(&v[2])?), "CustomNotification" => u::NotificationFromClient::CustomNotification(Build::build(&v[2])?), _ => return Err(bad("NotificationFromClient", v)) }) } }
impl View for u::ClientJsonrpcResponse { fn view(&self) -> V { vs(vec![("id", self.id.view()), ("jsonrpc", self.jsonrpc().view()), ("result", self.result.view())]) } }
impl Build for u::ClientJsonrpcResponse { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ClientJsonrpcResponse", v)) } }
impl View for u::ResultFromClient { fn view(&self) -> V { match self { u::ResultFromClient::GetTaskResult(x) => json!(["E", "GetTaskResult", x.view()]), u::ResultFromClient::CancelTaskResult(x) => json!(["E", "CancelTaskResult", x.view()]), u::ResultFromClient::ListTasksResult(x) => json!(["E", "ListTasksResult", x.view()]), u::ResultFromClient::CreateMessageResult(x) => json!(["E", "CreateMessageResult", x.view()]), u::ResultFromClient::ListRootsResult(x) => json!(["E", "ListRootsResult", x.view()]), u::ResultFromClient::ElicitResult(x) => json!(["E", "ElicitResult", x.view()]), u::ResultFromClient::CreateTaskResult(x) => json!(["E", "CreateTaskResult", x.view()]), u::ResultFromClient::Result(x) => json!(["E", "Result", x.view()]), u::ResultFromClient::GetTaskPayloadResult(x) => json!(["E", "GetTaskPayloadResult", x.view()]) } } }
impl Build for u::ResultFromClient { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("ResultFromClient", v)); } Ok(match v[1].as_str().unwrap_or("") { "GetTaskResult" => u::ResultFromClient::GetTaskResult(Build::build(&v[2])?), "CancelTaskResult" => u::ResultFromClient::CancelTaskResult(Build::build(&v[2])?), "ListTasksResult" => u::ResultFromClient::ListTasksResult(Build::build(&v[2])?), "CreateMessageResult" => u::ResultFromClient::CreateMessageResult(Build::build(&v[2])?), "ListRootsResult" => u::ResultFromClient::ListRootsResult(Build::build(&v[2])?), "ElicitResult" => u::ResultFromClient::ElicitResult(Build::build(&v[2])?), "CreateTaskResult" => u::ResultFromClient::CreateTaskResult(Build::build(&v[2])?), "Result" => u::ResultFromClient::Result(Build::build(&v[2])?), "GetTaskPayloadResult" => u::ResultFromClient::GetTaskPayloadResult(Build::build(&v[2])?), _ => return Err(bad("ResultFromClient", v)) }) } }
impl View for u::ClientTaskResult { fn view(&self) -> V { match self { u::ClientTaskResult::ElicitResult(x) => json!(["E", "ElicitResult", x.view()]), u::ClientTaskResult::CreateMessageResult(x) => json!(["E", "CreateMessageResult", x.view()]) } } }
impl Build for u::ClientTaskResult { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("ClientTaskResult", v)); } Ok(match v[1].as_str().unwrap_or("") { "ElicitResult" => u::ClientTaskResult::ElicitResult(Build::build(&v[2])?), "CreateMessageResult" => u::ClientTaskResult::CreateMessageResult(Build::build(&v[2])?), _ => return Err(bad("ClientTaskResult", v)) }) } }
impl View for u::ServerMessage { fn view(&self) -> V { match self { u::ServerMessage::Request(x) => json!(["E", "Request", x.view()]), u::ServerMessage::Notification(x) => json!(["E", "Notification", x.view()]), u::ServerMessage::Response(x) => json!(["E", "Response", x.view()]), u::ServerMessage::Error(x) => json!(["E", "Error", x.view()]) } } }
impl Build for u::ServerMessage { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("ServerMessage", v)); } Ok(match v[1].as_str().unwrap_or("") { "Request" => u::ServerMessage::Request(Build::build(&v[2])?), "Notification" => u::ServerMessage::Notification(Build::build(&v[2])?), "Response" => u::ServerMessage::Response(Build::build(&v[2])?), "Error" => u::ServerMessage::Error(Build::build(&v[2])?), _ => return Err(bad("ServerMessage", v)) }) } }
impl View for u::ServerJsonrpcRequest { fn view(&self) -> V { match self { u::ServerJsonrpcRequest::PingRequest(x) => json!(["E", "PingRequest", x.view()]), u::ServerJsonrpcRequest::GetTaskRequest(x) => json!(["E", "GetTaskRequest", x.view()]), u::ServerJsonrpcRequest::GetTaskPayloadRequest(x) => json!(["E", "GetTaskPayloadRequest", x.view()]), u::ServerJsonrpcRequest::CancelTaskRequest(x) => json!(["E", "CancelTaskRequest", x.view()]), u::ServerJsonrpcRequest::ListTasksRequest(x) => json!(["E", "ListTasksRequest", x.view()]), u::ServerJsonrpcRequest::CreateMessageRequest(x) => json!(["E", "CreateMessageRequest", x.view()]), u::ServerJsonrpcRequest::ListRootsRequest(x) => json!(["E", "ListRootsRequest", x.view()]), u::ServerJsonrpcRequest::ElicitRequest(x) => json!(["E", "ElicitRequest", x.view()]), u::ServerJsonrpcRequest::CustomRequest(x) => json!(["E", "CustomRequest", x.view()]) } } }
impl Build for u::ServerJsonrpcRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("ServerJsonrpcRequest", v)); } Ok(match v[1].as_str().unwrap_or("") { "PingRequest" => u::ServerJsonrpcRequest::PingRequest(Build::build(&v[2])?), "GetTaskRequest" => u::ServerJsonrpcRequest::GetTaskRequest(Build::build(&v[2])?), "GetTaskPayloadRequest" => u::ServerJsonrpcRequest::GetTaskPayloadRequest(Build::build(&v[2])?), "CancelTaskRequest" => u::ServerJsonrpcRequest::CancelTaskRequest(Build::build(&v[2])?), "ListTasksRequest" => u::ServerJsonrpcRequest::ListTasksRequest(Build::build(&v[2])?), "CreateMessageRequest" => u::ServerJsonrpcRequest::CreateMessageRequest(Build::build(&v[2])?), "ListRootsRequest" => u::ServerJsonrpcRequest::ListRootsRequest(Build::build(&v[2])?), "ElicitRequest" => u::ServerJsonrpcRequest::ElicitRequest(Build::build(&v[2])?), "CustomRequest" => u::ServerJsonrpcRequest::CustomRequest(Build::build(&v[2])?), _ => return Err(bad("ServerJsonrpcRequest", v)) }) } }
impl View for u::CustomRequest { fn view(&self) -> V { vs(vec![("method", self.method.view()), ("params", self.params.view())]) } }
impl Build for u::CustomRequest { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("CustomRequest", v)); } Ok(u::CustomRequest { method: fld(v, "method")?, params: fld(v, "params")? }) } }
impl View for u::RequestFromServer { fn view(&self) -> V { match self { u::RequestFromServer::PingRequest(x) => json!(["E", "PingRequest", x.view()]), u::RequestFromServer::GetTaskRequest(x) => json!(["E", "GetTaskRequest", x.view()]), u::RequestFromServer::GetTaskPayloadRequest(x) => json!(["E", "GetTaskPayloadRequest", x.view()]), u::RequestFromServer::CancelTaskRequest(x) => json!(["E", "CancelTaskRequest", x.view()]), u::RequestFromServer::ListTasksRequest(x) => json!(["E", "ListTasksRequest", x.view()]), u::RequestFromServer::CreateMessageRequest(x) => json!(["E", "CreateMessageRequest", x.view()]), u::RequestFromServer::ListRootsRequest(x) => json!(["E", "ListRootsRequest", x.view()]), u::RequestFromServer::ElicitRequest(x) => json!(["E", "ElicitRequest", x.view()]), u::RequestFromServer::CustomRequest(x) => json!(["E", "CustomRequest", x.view()]) } } }
impl Build for u::RequestFromServer { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("RequestFromServer", v)); } Ok(match v[1].as_str().unwrap_or("") { "PingRequest" => u::RequestFromServer::PingRequest(Build::build(&v[2])?), "GetTaskRequest" => u::RequestFromServer::GetTaskRequest(Build::build(&v[2])?), "GetTaskPayloadRequest" => u::RequestFromServer::GetTaskPayloadRequest(Build::build(&v[2])?), "CancelTaskRequest" => u::RequestFromServer::CancelTaskRequest(Build::build(&v[2])?), "ListTasksRequest" => u::RequestFromServer::ListTasksRequest(Build::build(&v[2])?), "CreateMessageRequest" => u::RequestFromServer::CreateMessageRequest(Build::build(&v[2])?), "ListRootsRequest" => u::RequestFromServer::ListRootsRequest(Build::build(&v[2])?), "ElicitRequest" => u::RequestFromServer::ElicitRequest(Build::build(&v[2])?), "CustomRequest" => u::RequestFromServer::CustomRequest(Build::build(&v[2])?), _ => return Err(bad("RequestFromServer", v)) }) } }
impl View for u::ServerJsonrpcNotification { fn view(&self) -> V { match self { u::ServerJsonrpcNotification::CancelledNotification(x) => json!(["E", "CancelledNotification", x.view()]), u::ServerJsonrpcNotification::ProgressNotification(x) => json!(["E", "ProgressNotification", x.view()]), u::ServerJsonrpcNotification::ResourceListChangedNotification(x) => json!(["E", "ResourceListChangedNotification", x.view()]), u::ServerJsonrpcNotification::ResourceUpdatedNotification(x) => json!(["E", "ResourceUpdatedNotification", x.view()]), u::ServerJsonrpcNotification::PromptListChangedNotification(x) => json!(["E", "PromptListChangedNotification", x.view()]), u::ServerJsonrpcNotification::ToolListChangedNotification(x) => json!(["E", "ToolListChangedNotification", x.view()]), u::ServerJsonrpcNotification::TaskStatusNotification(x) => json!(["E", "TaskStatusNotification", x.view()]), u::ServerJsonrpcNotification::LoggingMessageNotification(x) => json!(["E", "LoggingMessageNotification", x.view()]), u::ServerJsonrpcNotification::ElicitationCompleteNotification(x) => json!(["E", "ElicitationCompleteNotification", x.view()]), u::ServerJsonrpcNotification::CustomNotification(x) => json!(["E", "CustomNotification", x.view()]) } } }
impl Build for u::ServerJsonrpcNotification { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("ServerJsonrpcNotification", v)); } Ok(match v[1].as_str().unwrap_or("") { "CancelledNotification" => u::ServerJsonrpcNotification::CancelledNotification(Build::build(&v[2])?), "ProgressNotification" => u::ServerJsonrpcNotification::ProgressNotification(Build::build(&v[2])?), "ResourceListChangedNotification" => u::ServerJsonrpcNotification::ResourceListChangedNotification(Build::build(&v[2])?), "ResourceUpdatedNotification" => u::ServerJsonrpcNotification::ResourceUpdatedNotification(Build::build(&v[2])?), "PromptListChangedNotification" => u::ServerJsonrpcNotification::PromptListChangedNotification(Build::build(&v[2])?), "ToolListChangedNotification" => u::ServerJsonrpcNotification::ToolListChangedNotification(Build::build(&v[2])?), "TaskStatusNotification" => u::ServerJsonrpcNotification::TaskStatusNotification(Build::build(&v[2])?), "LoggingMessageNotification" => u::ServerJsonrpcNotification::LoggingMessageNotification(Build::build(&v[2])?), "ElicitationCompleteNotification" => u::ServerJsonrpcNotification::ElicitationCompleteNotification(Build::build(&v[2])?), "CustomNotification" => u::ServerJsonrpcNotification::CustomNotification(Build::build(&v[2])?), _ => return Err(bad("ServerJsonrpcNotification", v)) }) } }
impl View for u::NotificationFromServer { fn view(&self) -> V { match self { u::NotificationFromServer::CancelledNotification(x) => json!(["E", "CancelledNotification", x.view()]), u::NotificationFromServer::ProgressNotification(x) => json!(["E", "ProgressNotification", x.view()]), u::NotificationFromServer::ResourceListChangedNotification(x) => json!(["E", "ResourceListChangedNotification", x.view()]), u::NotificationFromServer::ResourceUpdatedNotification(x) => json!(["E", "ResourceUpdatedNotification", x.view()]), u::NotificationFromServer::PromptListChangedNotification(x) => json!(["E", "PromptListChangedNotification", x.view()]), u::NotificationFromServer::ToolListChangedNotification(x) => json!(["E", "ToolListChangedNotification", x.view()]), u::NotificationFromServer::TaskStatusNotification(x) => json!(["E", "TaskStatusNotification", x.view()]), u::NotificationFromServer::LoggingMessageNotification(x) => json!(["E", "LoggingMessageNotification", x.view()]), u::NotificationFromServer::ElicitationCompleteNotification(x) => json!(["E", "ElicitationCompleteNotification", x.view()]), u::NotificationFromServer::CustomNotification(x) => json!(["E", "CustomNotification", x.view()]) } } }
impl Build for u::NotificationFromServer { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("NotificationFromServer", v)); } Ok(match v[1].as_str().unwrap_or("") { "CancelledNotification" => u::NotificationFromServer::CancelledNotification(Build::build(&v[2])?), "ProgressNotification" => u::NotificationFromServer::ProgressNotification(Build::build(&v[2])?), "ResourceListChangedNotification" => u::NotificationFromServer::ResourceListChangedNotification(Build::build(&v[2])?), "ResourceUpdatedNotification" => u::NotificationFromServer::ResourceUpdatedNotification(Build::build(&v[2])?), "PromptListChangedNotification" => u::NotificationFromServer::PromptListChangedNotification(Build::build(&v[2])?), "ToolListChangedNotification" => u::NotificationFromServer::ToolListChangedNotification(Build::build(&v[2])?), "TaskStatusNotification" => u::NotificationFromServer::TaskStatusNotification(Build::build(&v[2])?), "LoggingMessageNotification" => u::NotificationFromServer::LoggingMessageNotification(Build::build(&v[2])?), "ElicitationCompleteNotification" => u::NotificationFromServer::ElicitationCompleteNotification(Build::build(&v[2])?), "CustomNotification" => u::NotificationFromServer::CustomNotification(Build::build(&v[2])?), _ => return Err(bad("NotificationFromServer", v)) }) } }
impl View for u::ServerJsonrpcResponse { fn view(&self) -> V { vs(vec![("id", self.id.view()), ("jsonrpc", self.jsonrpc().view()), ("result", self.result.view())]) } }
impl Build for u::ServerJsonrpcResponse { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } Err(bad("ServerJsonrpcResponse", v)) } }
impl View for u::ResultFromServer { fn view(&self) -> V { match self { u::ResultFromServer::InitializeResult(x) => json!(["E", "InitializeResult", x.view()]), u::ResultFromServer::ListResourcesResult(x) => json!(["E", "ListResourcesResult", x.view()]), u::ResultFromServer::ListResourceTemplatesResult(x) => json!(["E", "ListResourceTemplatesResult", x.view()]), u::ResultFromServer::ReadResourceResult(x) => json!(["E", "ReadResourceResult", x.view()]), u::ResultFromServer::ListPromptsResult(x) => json!(["E", "ListPromptsResult", x.view()]), u::ResultFromServer::GetPromptResult(x) => json!(["E", "GetPromptResult", x.view()]), u::ResultFromServer::ListToolsResult(x) => json!(["E", "ListToolsResult", x.view()]), u::ResultFromServer::CallToolResult(x) => json!(["E", "CallToolResult", x.view()]), u::ResultFromServer::GetTaskResult(x) => json!(["E", "GetTaskResult", x.view()]), u::ResultFromServer::CancelTaskResult(x) => json!(["E", "CancelTaskResult", x.view()]), u::ResultFromServer::ListTasksResult(x) => json!(["E", "ListTasksResult", x.view()]), u::ResultFromServer::CompleteResult(x) => json!(["E", "CompleteResult", x.view()]), u::ResultFromServer::CreateTaskResult(x) => json!(["E", "CreateTaskResult", x.view()]), u::ResultFromServer::Result(x) => json!(["E", "Result", x.view()]), u::ResultFromServer::GetTaskPayloadResult(x) => json!(["E", "GetTaskPayloadResult", x.view()]) } } }
impl Build for u::ResultFromServer { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("ResultFromServer", v)); } Ok(match v[1].as_str().unwrap_or("") { "InitializeResult" => u::ResultFromServer::InitializeResult(Build::build(&v[2])?), "ListResourcesResult" => u::ResultFromServer::ListResourcesResult(Build::build(&v[2])?), "ListResourceTemplatesResult" => u::ResultFromServer::ListResourceTemplatesResult(Build::build(&v[2])?), "ReadResourceResult" => u::ResultFromServer::ReadResourceResult(Build::build(&v[2])?), "ListPromptsResult" => u::ResultFromServer::ListPromptsResult(Build::build(&v[2])?), "GetPromptResult" => u::ResultFromServer::GetPromptResult(Build::build(&v[2])?), "ListToolsResult" => u::ResultFromServer::ListToolsResult(Build::build(&v[2])?), "CallToolResult" => u::ResultFromServer::CallToolResult(Build::build(&v[2])?), "GetTaskResult" => u::ResultFromServer::GetTaskResult(Build::build(&v[2])?), "CancelTaskResult" => u::ResultFromServer::CancelTaskResult(Build::build(&v[2])?), "ListTasksResult" => u::ResultFromServer::ListTasksResult(Build::build(&v[2])?), "CompleteResult" => u::ResultFromServer::CompleteResult(Build::build(&v[2])?), "CreateTaskResult" => u::ResultFromServer::CreateTaskResult(Build::build(&v[2])?), "Result" => u::ResultFromServer::Result(Build::build(&v[2])?), "GetTaskPayloadResult" => u::ResultFromServer::GetTaskPayloadResult(Build::build(&v[2])?), _ => return Err(bad("ResultFromServer", v)) }) } }
impl View for u::MessageFromServer { fn view(&self) -> V { match self { u::MessageFromServer::RequestFromServer(x) => json!(["E", "RequestFromServer", x.view()]), u::MessageFromServer::ResultFromServer(x) => json!(["E", "ResultFromServer", x.view()]), u::MessageFromServer::NotificationFromServer(x) => json!(["E", "NotificationFromServer", x.view()]), u::MessageFromServer::Error(x) => json!(["E", "Error", x.view()]) } } }
impl Build for u::MessageFromServer { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("MessageFromServer", v)); } Ok(match v[1].as_str().unwrap_or("") { "RequestFromServer" => u::MessageFromServer::RequestFromServer(Build::build(&v[2])?), "ResultFromServer" => u::MessageFromServer::ResultFromServer(Build::build(&v[2])?), "NotificationFromServer" => u::MessageFromServer::NotificationFromServer(Build::build(&v[2])?), "Error" => u::MessageFromServer::Error(Build::build(&v[2])?), _ => return Err(bad("MessageFromServer", v)) }) } }
impl View for u::MessageFromClient { fn view(&self) -> V { match self { u::MessageFromClient::RequestFromClient(x) => json!(["E", "RequestFromClient", x.view()]), u::MessageFromClient::ResultFromClient(x) => json!(["E", "ResultFromClient", x.view()]), u::MessageFromClient::NotificationFromClient(x) => json!(["E", "NotificationFromClient", x.view()]), u::MessageFromClient::Error(x) => json!(["E", "Error", x.view()]) } } }
impl Build for u::MessageFromClient { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("MessageFromClient", v)); } Ok(match v[1].as_str().unwrap_or("") { "RequestFromClient" => u::MessageFromClient::RequestFromClient(Build::build(&v[2])?), "ResultFromClient" => u::MessageFromClient::ResultFromClient(Build::build(&v[2])?), "NotificationFromClient" => u::MessageFromClient::NotificationFromClient(Build::build(&v[2])?), "Error" => u::MessageFromClient::Error(Build::build(&v[2])?), _ => return Err(bad("MessageFromClient", v)) }) } }
impl View for u::UnknownTool { fn view(&self) -> V { self.0.view() } }
impl View for u::CallToolError { fn view(&self) -> V { json!(["X", "CallToolError", self.0.to_string()]) } }
impl View for u::ClientMessages { fn view(&self) -> V { match self { u::ClientMessages::Single(x) => json!(["E", "Single", x.view()]), u::ClientMessages::Batch(x) => json!(["E", "Batch", x.view()]) } } }
impl Build for u::ClientMessages { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("ClientMessages", v)); } Ok(match v[1].as_str().unwrap_or("") { "Single" => u::ClientMessages::Single(Build::build(&v[2])?), "Batch" => u::ClientMessages::Batch(Build::build(&v[2])?), _ => return Err(bad("ClientMessages", v)) }) } }
impl View for u::ServerMessages { fn view(&self) -> V { match self { u::ServerMessages::Single(x) => json!(["E", "Single", x.view()]), u::ServerMessages::Batch(x) => json!(["E", "Batch", x.view()]) } } }
impl Build for u::ServerMessages { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("ServerMessages", v)); } Ok(match v[1].as_str().unwrap_or("") { "Single" => u::ServerMessages::Single(Build::build(&v[2])?), "Batch" => u::ServerMessages::Batch(Build::build(&v[2])?), _ => return Err(bad("ServerMessages", v)) }) } }
impl View for u::MessagesFromServer { fn view(&self) -> V { match self { u::MessagesFromServer::Single(x) => json!(["E", "Single", x.view()]), u::MessagesFromServer::Batch(x) => json!(["E", "Batch", x.view()]) } } }
impl Build for u::MessagesFromServer { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("MessagesFromServer", v)); } Ok(match v[1].as_str().unwrap_or("") { "Single" => u::MessagesFromServer::Single(Build::build(&v[2])?), "Batch" => u::MessagesFromServer::Batch(Build::build(&v[2])?), _ => return Err(bad("MessagesFromServer", v)) }) } }
impl View for u::MessagesFromClient { fn view(&self) -> V { match self { u::MessagesFromClient::Single(x) => json!(["E", "Single", x.view()]), u::MessagesFromClient::Batch(x) => json!(["E", "Batch", x.view()]) } } }
impl Build for u::MessagesFromClient { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "E" { return Err(bad("MessagesFromClient", v)); } Ok(match v[1].as_str().unwrap_or("") { "Single" => u::MessagesFromClient::Single(Build::build(&v[2])?), "Batch" => u::MessagesFromClient::Batch(Build::build(&v[2])?), _ => return Err(bad("MessagesFromClient", v)) }) } }
impl View for u::StringSchemaFormatError { fn view(&self) -> V { json!(["X", "StringSchemaFormatError"]) } }
impl View for u::SdkErrorCodes { fn view(&self) -> V { json!(["U", match self { u::SdkErrorCodes::CONNECTION_CLOSED => "CONNECTION_CLOSED", u::SdkErrorCodes::REQUEST_TIMEOUT => "REQUEST_TIMEOUT", u::SdkErrorCodes::RESOURCE_NOT_FOUND => "RESOURCE_NOT_FOUND", u::SdkErrorCodes::BAD_REQUEST => "BAD_REQUEST", u::SdkErrorCodes::SESSION_NOT_FOUND => "SESSION_NOT_FOUND", u::SdkErrorCodes::INVALID_REQUEST => "INVALID_REQUEST", u::SdkErrorCodes::METHOD_NOT_FOUND => "METHOD_NOT_FOUND", u::SdkErrorCodes::INVALID_PARAMS => "INVALID_PARAMS", u::SdkErrorCodes::INTERNAL_ERROR => "INTERNAL_ERROR", u::SdkErrorCodes::PARSE_ERROR => "PARSE_ERROR", u::SdkErrorCodes::URL_ELICITATION_REQUIRED => "URL_ELICITATION_REQUIRED" }]) } }
impl Build for u::SdkErrorCodes { fn build(v: &V) -> R<Self> {  Ok(match v[1].as_str().unwrap_or("") { "CONNECTION_CLOSED" => u::SdkErrorCodes::CONNECTION_CLOSED, "REQUEST_TIMEOUT" => u::SdkErrorCodes::REQUEST_TIMEOUT, "RESOURCE_NOT_FOUND" => u::SdkErrorCodes::RESOURCE_NOT_FOUND, "BAD_REQUEST" => u::SdkErrorCodes::BAD_REQUEST, "SESSION_NOT_FOUND" => u::SdkErrorCodes::SESSION_NOT_FOUND, "INVALID_REQUEST" => u::SdkErrorCodes::INVALID_REQUEST, "METHOD_NOT_FOUND" => u::SdkErrorCodes::METHOD_NOT_FOUND, "INVALID_PARAMS" => u::SdkErrorCodes::INVALID_PARAMS, "INTERNAL_ERROR" => u::SdkErrorCodes::INTERNAL_ERROR, "PARSE_ERROR" => u::SdkErrorCodes::PARSE_ERROR, "URL_ELICITATION_REQUIRED" => u::SdkErrorCodes::URL_ELICITATION_REQUIRED, _ => return Err(bad("SdkErrorCodes", v)) }) } }
impl View for u::SdkError { fn view(&self) -> V { vs(vec![("code", self.code.view()), ("data", self.data.view()), ("message", self.message.view())]) } }
impl Build for u::SdkError { fn build(v: &V) -> R<Self> { if v[0] == "j" { return dec(&v[1]); } if v[0] != "S" { return Err(bad("SdkError", v)); } Ok(u::SdkError { code: fld(v, "code")?, data: fld(v, "data")?, message: fld(v, "message")? }) } }
impl View for u::RpcErrorCodes { fn view(&self) -> V { json!(["U", match self { u::RpcErrorCodes::PARSE_ERROR => "PARSE_ERROR", u::RpcErrorCodes::INVALID_REQUEST => "INVALID_REQUEST", u::RpcErrorCodes::METHOD_NOT_FOUND => "METHOD_NOT_FOUND", u::RpcErrorCodes::INVALID_PARAMS => "INVALID_PARAMS", u::RpcErrorCodes::INTERNAL_ERROR => "INTERNAL_ERROR", u::RpcErrorCodes::URL_ELICITATION_REQUIRED => "URL_ELICITATION_REQUIRED" }]) } }
impl Build for u::RpcErrorCodes { fn build(v: &V) -> R<Self> {  Ok(match v[1].as_str().unwrap_or("") { "PARSE_ERROR" => u::RpcErrorCodes::PARSE_ERROR, "INVALID_REQUEST" => u::RpcErrorCodes::INVALID_REQUEST, "METHOD_NOT_FOUND" => u::RpcErrorCodes::METHOD_NOT_FOUND, "INVALID_PARAMS" => u::RpcErrorCodes::INVALID_PARAMS, "INTERNAL_ERROR" => u::RpcErrorCodes::INTERNAL_ERROR, "URL_ELICITATION_REQUIRED" => u::RpcErrorCodes::URL_ELICITATION_REQUIRED, _ => return Err(bad("RpcErrorCodes", v)) }) } }
impl Build for u::CallToolError { fn build(v: &V) -> R<Self> { let s: String = Build::build(v)?; Ok(u::CallToolError::from_message(s)) } }
impl Build for u::UnknownTool { fn build(v: &V) -> R<Self> { let s: String = Build::build(v)?; Ok(u::UnknownTool(s)) } }

pub fn run_codec(t: &str, d: &V) -> R<V> {
    Ok(match t {
        "Annotations" => codec::<m::Annotations>(d),
        "AudioContent" => codec::<m::AudioContent>(d),
        "BaseMetadata" => codec::<m::BaseMetadata>(d),
        "BlobResourceContents" => codec::<m::BlobResourceContents>(d),
        "BooleanSchema" => codec::<m::BooleanSchema>(d),
        "CallToolMeta" => codec::<m::CallToolMeta>(d),
        "CallToolRequest" => codec::<m::CallToolRequest>(d),
        "CallToolRequestParams" => codec::<m::CallToolRequestParams>(d),
        "CallToolResult" => codec::<m::CallToolResult>(d),
        "CancelTaskParams" => codec::<m::CancelTaskParams>(d),
        "CancelTaskRequest" => codec::<m::CancelTaskRequest>(d),
        "CancelTaskResult" => codec::<m::CancelTaskResult>(d),
        "CancelledNotification" => codec::<m::CancelledNotification>(d),
        "CancelledNotificationParams" => codec::<m::CancelledNotificationParams>(d),
        "ClientCapabilities" => codec::<m::ClientCapabilities>(d),
        "ClientElicitation" => codec::<m::ClientElicitation>(d),
        "ClientNotification" => codec::<m::ClientNotification>(d),
        "ClientRequest" => codec::<m::ClientRequest>(d),
        "ClientResult" => codec::<m::ClientResult>(d),
        "ClientRoots" => codec::<m::ClientRoots>(d),
        "ClientSampling" => codec::<m::ClientSampling>(d),
        "ClientTaskElicitation" => codec::<m::ClientTaskElicitation>(d),
        "ClientTaskRequest" => codec::<m::ClientTaskRequest>(d),
        "ClientTaskSampling" => codec::<m::ClientTaskSampling>(d),
        "ClientTasks" => codec::<m::ClientTasks>(d),
        "CompleteRequest" => codec::<m::CompleteRequest>(d),
        "CompleteRequestArgument" => codec::<m::CompleteRequestArgument>(d),
        "CompleteRequestContext" => codec::<m::CompleteRequestContext>(d),
        "CompleteRequestMeta" => codec::<m::CompleteRequestMeta>(d),
        "CompleteRequestParams" => codec::<m::CompleteRequestParams>(d),
        "CompleteRequestRef" => codec::<m::CompleteRequestRef>(d),
        "CompleteResult" => codec::<m::CompleteResult>(d),
        "CompleteResultCompletion" => codec::<m::CompleteResultCompletion>(d),
        "ContentBlock" => codec::<m::ContentBlock>(d),
        "CreateMessageContent" => codec::<m::CreateMessageContent>(d),
        "CreateMessageRequest" => codec::<m::CreateMessageRequest>(d),
        "CreateMessageRequestParams" => codec::<m::CreateMessageRequestParams>(d),
        "CreateMessageResult" => codec::<m::CreateMessageResult>(d),
        "CreateTaskResult" => codec::<m::CreateTaskResult>(d),
        "Cursor" => codec::<m::Cursor>(d),
        "ElicitCompleteParams" => codec::<m::ElicitCompleteParams>(d),
        "ElicitFormMeta" => codec::<m::ElicitFormMeta>(d),
        "ElicitFormSchema" => codec::<m::ElicitFormSchema>(d),
        "ElicitRequest" => codec::<m::ElicitRequest>(d),
        "ElicitRequestFormParams" => codec::<m::ElicitRequestFormParams>(d),
        "ElicitRequestParams" => codec::<m::ElicitRequestParams>(d),
        "ElicitRequestUrlParams" => codec::<m::ElicitRequestUrlParams>(d),
        "ElicitResult" => codec::<m::ElicitResult>(d),
        "ElicitResultAction" => codec::<m::ElicitResultAction>(d),
        "ElicitResultContent" => codec::<m::ElicitResultContent>(d),
        "ElicitResultContentPrimitive" => codec::<m::ElicitResultContentPrimitive>(d),
        "ElicitUrlMeta" => codec::<m::ElicitUrlMeta>(d),
        "ElicitationCompleteNotification" => codec::<m::ElicitationCompleteNotification>(d),
        "EmbeddedResource" => codec::<m::EmbeddedResource>(d),
        "EmbeddedResourceResource" => codec::<m::EmbeddedResourceResource>(d),
        "EmptyResult" => codec::<m::EmptyResult>(d),
        "EnumSchema" => codec::<m::EnumSchema>(d),
        "GetPromptMeta" => codec::<m::GetPromptMeta>(d),
        "GetPromptRequest" => codec::<m::GetPromptRequest>(d),
        "GetPromptRequestParams" => codec::<m::GetPromptRequestParams>(d),
        "GetPromptResult" => codec::<m::GetPromptResult>(d),
        "GetTaskParams" => codec::<m::GetTaskParams>(d),
        "GetTaskPayloadParams" => codec::<m::GetTaskPayloadParams>(d),
        "GetTaskPayloadRequest" => codec::<m::GetTaskPayloadRequest>(d),
        "GetTaskPayloadResult" => codec::<m::GetTaskPayloadResult>(d),
        "GetTaskRequest" => codec::<m::GetTaskRequest>(d),
        "GetTaskResult" => codec::<m::GetTaskResult>(d),
        "Icon" => codec::<m::Icon>(d),
        "IconTheme" => codec::<m::IconTheme>(d),
        "Icons" => codec::<m::Icons>(d),
        "ImageContent" => codec::<m::ImageContent>(d),
        "Implementation" => codec::<m::Implementation>(d),
        "IncludeContext" => codec::<m::IncludeContext>(d),
        "InitializeMeta" => codec::<m::InitializeMeta>(d),
        "InitializeRequest" => codec::<m::InitializeRequest>(d),
        "InitializeRequestParams" => codec::<m::InitializeRequestParams>(d),
        "InitializeResult" => codec::<m::InitializeResult>(d),
        "InitializedNotification" => codec::<m::InitializedNotification>(d),
        "JsonrpcErrorResponse" => codec::<m::JsonrpcErrorResponse>(d),
        "JsonrpcMessage" => codec::<m::JsonrpcMessage>(d),
        "JsonrpcNotification" => codec::<m::JsonrpcNotification>(d),
        "JsonrpcRequest" => codec::<m::JsonrpcRequest>(d),
        "JsonrpcResponse" => codec::<m::JsonrpcResponse>(d),
        "JsonrpcResultResponse" => codec::<m::JsonrpcResultResponse>(d),
        "LegacyTitledEnumSchema" => codec::<m::LegacyTitledEnumSchema>(d),
        "ListPromptsRequest" => codec::<m::ListPromptsRequest>(d),
        "ListPromptsResult" => codec::<m::ListPromptsResult>(d),
        "ListResourceTemplatesRequest" => codec::<m::ListResourceTemplatesRequest>(d),
        "ListResourceTemplatesResult" => codec::<m::ListResourceTemplatesResult>(d),
        "ListResourcesRequest" => codec::<m::ListResourcesRequest>(d),
        "ListResourcesResult" => codec::<m::ListResourcesResult>(d),
        "ListRootsRequest" => codec::<m::ListRootsRequest>(d),
        "ListRootsResult" => codec::<m::ListRootsResult>(d),
        "ListTasksRequest" => codec::<m::ListTasksRequest>(d),
        "ListTasksResult" => codec::<m::ListTasksResult>(d),
        "ListToolsRequest" => codec::<m::ListToolsRequest>(d),
        "ListToolsResult" => codec::<m::ListToolsResult>(d),
        "LoggingLevel" => codec::<m::LoggingLevel>(d),
        "LoggingMessageNotification" => codec::<m::LoggingMessageNotification>(d),
        "LoggingMessageNotificationParams" => codec::<m::LoggingMessageNotificationParams>(d),
        "MessageMeta" => codec::<m::MessageMeta>(d),
        "ModelHint" => codec::<m::ModelHint>(d),
        "ModelPreferences" => codec::<m::ModelPreferences>(d),
        "MultiSelectEnumSchema" => codec::<m::MultiSelectEnumSchema>(d),
        "Notification" => codec::<m::Notification>(d),
        "NotificationParams" => codec::<m::NotificationParams>(d),
        "NumberSchema" => codec::<m::NumberSchema>(d),
        "NumberSchemaType" => codec::<m::NumberSchemaType>(d),
        "PaginatedMeta" => codec::<m::PaginatedMeta>(d),
        "PaginatedRequest" => codec::<m::PaginatedRequest>(d),
        "PaginatedRequestParams" => codec::<m::PaginatedRequestParams>(d),
        "PaginatedResult" => codec::<m::PaginatedResult>(d),
        "PingRequest" => codec::<m::PingRequest>(d),
        "PrimitiveSchemaDefinition" => codec::<m::PrimitiveSchemaDefinition>(d),
        "ProgressNotification" => codec::<m::ProgressNotification>(d),
        "ProgressNotificationParams" => codec::<m::ProgressNotificationParams>(d),
        "ProgressToken" => codec::<m::ProgressToken>(d),
        "Prompt" => codec::<m::Prompt>(d),
        "PromptArgument" => codec::<m::PromptArgument>(d),
        "PromptListChangedNotification" => codec::<m::PromptListChangedNotification>(d),
        "PromptMessage" => codec::<m::PromptMessage>(d),
        "PromptReference" => codec::<m::PromptReference>(d),
        "ReadResourceContent" => codec::<m::ReadResourceContent>(d),
        "ReadResourceMeta" => codec::<m::ReadResourceMeta>(d),
        "ReadResourceRequest" => codec::<m::ReadResourceRequest>(d),
        "ReadResourceRequestParams" => codec::<m::ReadResourceRequestParams>(d),
        "ReadResourceResult" => codec::<m::ReadResourceResult>(d),
        "RelatedTaskMetadata" => codec::<m::RelatedTaskMetadata>(d),
        "Request" => codec::<m::Request>(d),
        "RequestId" => codec::<m::RequestId>(d),
        "RequestParams" => codec::<m::RequestParams>(d),
        "RequestParamsMeta" => codec::<m::RequestParamsMeta>(d),
        "Resource" => codec::<m::Resource>(d),
        "ResourceContents" => codec::<m::ResourceContents>(d),
        "ResourceLink" => codec::<m::ResourceLink>(d),
        "ResourceListChangedNotification" => codec::<m::ResourceListChangedNotification>(d),
        "ResourceMeta" => codec::<m::ResourceMeta>(d),
        "ResourceRequestParams" => codec::<m::ResourceRequestParams>(d),
        "ResourceTemplate" => codec::<m::ResourceTemplate>(d),
        "ResourceTemplateReference" => codec::<m::ResourceTemplateReference>(d),
        "ResourceUpdatedNotification" => codec::<m::ResourceUpdatedNotification>(d),
        "ResourceUpdatedNotificationParams" => codec::<m::ResourceUpdatedNotificationParams>(d),
        "Result" => codec::<m::Result>(d),
        "Role" => codec::<m::Role>(d),
        "Root" => codec::<m::Root>(d),
        "RootsListChangedNotification" => codec::<m::RootsListChangedNotification>(d),
        "RpcError" => codec::<m::RpcError>(d),
        "SamplingMessage" => codec::<m::SamplingMessage>(d),
        "SamplingMessageContent" => codec::<m::SamplingMessageContent>(d),
        "SamplingMessageContentBlock" => codec::<m::SamplingMessageContentBlock>(d),
        "ServerCapabilities" => codec::<m::ServerCapabilities>(d),
        "ServerCapabilitiesPrompts" => codec::<m::ServerCapabilitiesPrompts>(d),
        "ServerCapabilitiesResources" => codec::<m::ServerCapabilitiesResources>(d),
        "ServerCapabilitiesTools" => codec::<m::ServerCapabilitiesTools>(d),
        "ServerNotification" => codec::<m::ServerNotification>(d),
        "ServerRequest" => codec::<m::ServerRequest>(d),
        "ServerResult" => codec::<m::ServerResult>(d),
        "ServerTaskRequest" => codec::<m::ServerTaskRequest>(d),
        "ServerTaskTools" => codec::<m::ServerTaskTools>(d),
        "ServerTasks" => codec::<m::ServerTasks>(d),
        "SetLevelMeta" => codec::<m::SetLevelMeta>(d),
        "SetLevelRequest" => codec::<m::SetLevelRequest>(d),
        "SetLevelRequestParams" => codec::<m::SetLevelRequestParams>(d),
        "SingleSelectEnumSchema" => codec::<m::SingleSelectEnumSchema>(d),
        "StringSchema" => codec::<m::StringSchema>(d),
        "StringSchemaFormat" => codec::<m::StringSchemaFormat>(d),
        "SubscribeMeta" => codec::<m::SubscribeMeta>(d),
        "SubscribeRequest" => codec::<m::SubscribeRequest>(d),
        "SubscribeRequestParams" => codec::<m::SubscribeRequestParams>(d),
        "Task" => codec::<m::Task>(d),
        "TaskAugmentedMeta" => codec::<m::TaskAugmentedMeta>(d),
        "TaskAugmentedRequestParams" => codec::<m::TaskAugmentedRequestParams>(d),
        "TaskMetadata" => codec::<m::TaskMetadata>(d),
        "TaskStatus" => codec::<m::TaskStatus>(d),
        "TaskStatusNotification" => codec::<m::TaskStatusNotification>(d),
        "TaskStatusNotificationParams" => codec::<m::TaskStatusNotificationParams>(d),
        "TextContent" => codec::<m::TextContent>(d),
        "TextResourceContents" => codec::<m::TextResourceContents>(d),
        "TitledMultiSelectEnumSchema" => codec::<m::TitledMultiSelectEnumSchema>(d),
        "TitledMultiSelectEnumSchemaItems" => codec::<m::TitledMultiSelectEnumSchemaItems>(d),
        "TitledMultiSelectEnumSchemaItemsAnyOfItem" => codec::<m::TitledMultiSelectEnumSchemaItemsAnyOfItem>(d),
        "TitledSingleSelectEnumSchema" => codec::<m::TitledSingleSelectEnumSchema>(d),
        "TitledSingleSelectEnumSchemaOneOfItem" => codec::<m::TitledSingleSelectEnumSchemaOneOfItem>(d),
        "Tool" => codec::<m::Tool>(d),
        "ToolAnnotations" => codec::<m::ToolAnnotations>(d),
        "ToolChoice" => codec::<m::ToolChoice>(d),
        "ToolChoiceMode" => codec::<m::ToolChoiceMode>(d),
        "ToolExecution" => codec::<m::ToolExecution>(d),
        "ToolExecutionTaskSupport" => codec::<m::ToolExecutionTaskSupport>(d),
        "ToolInputSchema" => codec::<m::ToolInputSchema>(d),
        "ToolListChangedNotification" => codec::<m::ToolListChangedNotification>(d),
        "ToolOutputSchema" => codec::<m::ToolOutputSchema>(d),
        "ToolResultContent" => codec::<m::ToolResultContent>(d),
        "ToolUseContent" => codec::<m::ToolUseContent>(d),
        "UnsubscribeMeta" => codec::<m::UnsubscribeMeta>(d),
        "UnsubscribeRequest" => codec::<m::UnsubscribeRequest>(d),
        "UnsubscribeRequestParams" => codec::<m::UnsubscribeRequestParams>(d),
        "UntitledMultiSelectEnumSchema" => codec::<m::UntitledMultiSelectEnumSchema>(d),
        "UntitledMultiSelectEnumSchemaItems" => codec::<m::UntitledMultiSelectEnumSchemaItems>(d),
        "UntitledSingleSelectEnumSchema" => codec::<m::UntitledSingleSelectEnumSchema>(d),
        "UrlElicitError" => codec::<m::UrlElicitError>(d),
        "UrlElicitErrorData" => codec::<m::UrlElicitErrorData>(d),
        "UrlElicitationRequiredError" => codec::<m::UrlElicitationRequiredError>(d),
        "ClientMessage" => codec::<u::ClientMessage>(d),
        "ClientJsonrpcRequest" => codec::<u::ClientJsonrpcRequest>(d),
        "RequestFromClient" => codec::<u::RequestFromClient>(d),
        "ClientJsonrpcNotification" => codec::<u::ClientJsonrpcNotification>(d),
        "NotificationFromClient" => codec::<u::NotificationFromClient>(d),
        "ClientJsonrpcResponse" => codec::<u::ClientJsonrpcResponse>(d),
        "ResultFromClient" => codec::<u::ResultFromClient>(d),
        "ClientTaskResult" => codec::<u::ClientTaskResult>(d),
        "ServerMessage" => codec::<u::ServerMessage>(d),
        "ServerJsonrpcRequest" => codec::<u::ServerJsonrpcRequest>(d),
        "CustomRequest" => codec::<u::CustomRequest>(d),
        "RequestFromServer" => codec::<u::RequestFromServer>(d),
        "ServerJsonrpcNotification" => codec::<u::ServerJsonrpcNotification>(d),
        "NotificationFromServer" => codec::<u::NotificationFromServer>(d),
        "ServerJsonrpcResponse" => codec::<u::ServerJsonrpcResponse>(d),
        "ResultFromServer" => codec::<u::ResultFromServer>(d),
        "MessageFromServer" => codec::<u::MessageFromServer>(d),
        "MessageFromClient" => codec::<u::MessageFromClient>(d),
        "ClientMessages" => codec::<u::ClientMessages>(d),
        "ServerMessages" => codec::<u::ServerMessages>(d),
        "MessagesFromServer" => codec::<u::MessagesFromServer>(d),
        "MessagesFromClient" => codec::<u::MessagesFromClient>(d),
        "SdkError" => codec::<u::SdkError>(d),
        _ => return Err(bad("type", d)),
    })
}
pub fn run_call(f: &str, s: &V, a: &V) -> R<V> {
    match f {
        "AudioContent.new" => { let a0: ::std::string::String = arg(a, 0)?; let a1: ::std::string::String = arg(a, 1)?; let a2: ::std::option::Option<m::Annotations> = arg(a, 2)?; let a3: ::std::option::Option<::serde_json::Map<::std::string::String,::serde_json::Value>> = arg(a, 3)?; let r = m::AudioContent::new(a0, a1, a2, a3); Ok(out!(r)) }
        "AudioContent.type_" => { let s: m::AudioContent = arg(s, 0)?;  let r = m::AudioContent::type_(&s); Ok(out!(r)) }
        "AudioContent.type_value" => {  let r = m::AudioContent::type_value(); Ok(out!(r)) }
        "AudioContent.type_name" => {  let r = m::AudioContent::type_name(); Ok(out!(r)) }
        "BooleanSchema.new" => { let a0: ::std::option::Option<bool> = arg(a, 0)?; let a1: ::std::option::Option<::std::string::String> = arg(a, 1)?; let a2: ::std::option::Option<::std::string::String> = arg(a, 2)?; let r = m::BooleanSchema::new(a0, a1, a2); Ok(out!(r)) }
        "BooleanSchema.type_" => { let s: m::BooleanSchema = arg(s, 0)?;  let r = m::BooleanSchema::type_(&s); Ok(out!(r)) }
        "BooleanSchema.type_value" => {  let r = m::BooleanSchema::type_value(); Ok(out!(r)) }
        "BooleanSchema.type_name" => {  let r = m::BooleanSchema::type_name(); Ok(out!(r)) }
        "CallToolRequest.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: m::CallToolRequestParams = arg(a, 1)?; let r = m::CallToolRequest::new(a0, a1); Ok(out!(r)) }
        "CallToolRequest.jsonrpc" => { let s: m::CallToolRequest = arg(s, 0)?;  let r = m::CallToolRequest::jsonrpc(&s); Ok(out!(r)) }
        "CallToolRequest.method" => { let s: m::CallToolRequest = arg(s, 0)?;  let r = m::CallToolRequest::method(&s); Ok(out!(r)) }
        "CallToolRequest.method_value" => {  let r = m::CallToolRequest::method_value(); Ok(out!(r)) }
        "CallToolRequest.method_name" => {  let r = m::CallToolRequest::method_name(); Ok(out!(r)) }
        "CancelTaskRequest.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: m::CancelTaskParams = arg(a, 1)?; let r = m::CancelTaskRequest::new(a0, a1); Ok(out!(r)) }
        "CancelTaskRequest.jsonrpc" => { let s: m::CancelTaskRequest = arg(s, 0)?;  let r = m::CancelTaskRequest::jsonrpc(&s); Ok(out!(r)) }
        "CancelTaskRequest.method" => { let s: m::CancelTaskRequest = arg(s, 0)?;  let r = m::CancelTaskRequest::method(&s); Ok(out!(r)) }
        "CancelTaskRequest.method_value" => {  let r = m::CancelTaskRequest::method_value(); Ok(out!(r)) }
        "CancelTaskRequest.method_name" => {  let r = m::CancelTaskRequest::method_name(); Ok(out!(r)) }
        "CancelledNotification.new" => { let a0: m::CancelledNotificationParams = arg(a, 0)?; let r = m::CancelledNotification::new(a0); Ok(out!(r)) }
        "CancelledNotification.jsonrpc" => { let s: m::CancelledNotification = arg(s, 0)?;  let r = m::CancelledNotification::jsonrpc(&s); Ok(out!(r)) }
        "CancelledNotification.method" => { let s: m::CancelledNotification = arg(s, 0)?;  let r = m::CancelledNotification::method(&s); Ok(out!(r)) }
        "CancelledNotification.method_value" => {  let r = m::CancelledNotification::method_value(); Ok(out!(r)) }
        "CancelledNotification.method_name" => {  let r = m::CancelledNotification::method_name(); Ok(out!(r)) }
        "ClientNotification.From<CancelledNotification>" => { let a0: m::CancelledNotification = arg(a, 0)?; let r: m::ClientNotification = From::from(a0); Ok(out!(r)) }
        "ClientNotification.From<InitializedNotification>" => { let a0: m::InitializedNotification = arg(a, 0)?; let r: m::ClientNotification = From::from(a0); Ok(out!(r)) }
        "ClientNotification.From<ProgressNotification>" => { let a0: m::ProgressNotification = arg(a, 0)?; let r: m::ClientNotification = From::from(a0); Ok(out!(r)) }
        "ClientNotification.From<TaskStatusNotification>" => { let a0: m::TaskStatusNotification = arg(a, 0)?; let r: m::ClientNotification = From::from(a0); Ok(out!(r)) }
        "ClientNotification.From<RootsListChangedNotification>" => { let a0: m::RootsListChangedNotification = arg(a, 0)?; let r: m::ClientNotification = From::from(a0); Ok(out!(r)) }
        "ClientRequest.From<InitializeRequest>" => { let a0: m::InitializeRequest = arg(a, 0)?; let r: m::ClientRequest = From::from(a0); Ok(out!(r)) }
        "ClientRequest.From<PingRequest>" => { let a0: m::PingRequest = arg(a, 0)?; let r: m::ClientRequest = From::from(a0); Ok(out!(r)) }
        "ClientRequest.From<ListResourcesRequest>" => { let a0: m::ListResourcesRequest = arg(a, 0)?; let r: m::ClientRequest = From::from(a0); Ok(out!(r)) }
        "ClientRequest.From<ListResourceTemplatesRequest>" => { let a0: m::ListResourceTemplatesRequest = arg(a, 0)?; let r: m::ClientRequest = From::from(a0); Ok(out!(r)) }
        "ClientRequest.From<ReadResourceRequest>" => { let a0: m::ReadResourceRequest = arg(a, 0)?; let r: m::ClientRequest = From::from(a0); Ok(out!(r)) }
        "ClientRequest.From<SubscribeRequest>" => { let a0: m::SubscribeRequest = arg(a, 0)?; let r: m::ClientRequest = From::from(a0); Ok(out!(r)) }
        "ClientRequest.From<UnsubscribeRequest>" => { let a0: m::UnsubscribeRequest = arg(a, 0)?; let r: m::ClientRequest = From::from(a0); Ok(out!(r)) }
        "ClientRequest.From<ListPromptsRequest>" => { let a0: m::ListPromptsRequest = arg(a, 0)?; let r: m::ClientRequest = From::from(a0); Ok(out!(r)) }
        "ClientRequest.From<GetPromptRequest>" => { let a0: m::GetPromptRequest = arg(a, 0)?; let r: m::ClientRequest = From::from(a0); Ok(out!(r)) }
        "ClientRequest.From<ListToolsRequest>" => { let a0: m::ListToolsRequest = arg(a, 0)?; let r: m::ClientRequest = From::from(a0); Ok(out!(r)) }
        "ClientRequest.From<CallToolRequest>" => { let a0: m::CallToolRequest = arg(a, 0)?; let r: m::ClientRequest = From::from(a0); Ok(out!(r)) }
        "ClientRequest.From<GetTaskRequest>" => { let a0: m::GetTaskRequest = arg(a, 0)?; let r: m::ClientRequest = From::from(a0); Ok(out!(r)) }
        "ClientRequest.From<GetTaskPayloadRequest>" => { let a0: m::GetTaskPayloadRequest = arg(a, 0)?; let r: m::ClientRequest = From::from(a0); Ok(out!(r)) }
        "ClientRequest.From<CancelTaskRequest>" => { let a0: m::CancelTaskRequest = arg(a, 0)?; let r: m::ClientRequest = From::from(a0); Ok(out!(r)) }
        "ClientRequest.From<ListTasksRequest>" => { let a0: m::ListTasksRequest = arg(a, 0)?; let r: m::ClientRequest = From::from(a0); Ok(out!(r)) }
        "ClientRequest.From<SetLevelRequest>" => { let a0: m::SetLevelRequest = arg(a, 0)?; let r: m::ClientRequest = From::from(a0); Ok(out!(r)) }
        "ClientRequest.From<CompleteRequest>" => { let a0: m::CompleteRequest = arg(a, 0)?; let r: m::ClientRequest = From::from(a0); Ok(out!(r)) }
        "ClientResult.From<GetTaskResult>" => { let a0: m::GetTaskResult = arg(a, 0)?; let r: m::ClientResult = From::from(a0); Ok(out!(r)) }
        "ClientResult.From<CancelTaskResult>" => { let a0: m::CancelTaskResult = arg(a, 0)?; let r: m::ClientResult = From::from(a0); Ok(out!(r)) }
        "ClientResult.From<ListTasksResult>" => { let a0: m::ListTasksResult = arg(a, 0)?; let r: m::ClientResult = From::from(a0); Ok(out!(r)) }
        "ClientResult.From<CreateMessageResult>" => { let a0: m::CreateMessageResult = arg(a, 0)?; let r: m::ClientResult = From::from(a0); Ok(out!(r)) }
        "ClientResult.From<ListRootsResult>" => { let a0: m::ListRootsResult = arg(a, 0)?; let r: m::ClientResult = From::from(a0); Ok(out!(r)) }
        "ClientResult.From<ElicitResult>" => { let a0: m::ElicitResult = arg(a, 0)?; let r: m::ClientResult = From::from(a0); Ok(out!(r)) }
        "ClientResult.From<Result>" => { let a0: m::Result = arg(a, 0)?; let r: m::ClientResult = From::from(a0); Ok(out!(r)) }
        "ClientResult.From<GetTaskPayloadResult>" => { let a0: m::GetTaskPayloadResult = arg(a, 0)?; let r: m::ClientResult = From::from(a0); Ok(out!(r)) }
        "CompleteRequest.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: m::CompleteRequestParams = arg(a, 1)?; let r = m::CompleteRequest::new(a0, a1); Ok(out!(r)) }
        "CompleteRequest.jsonrpc" => { let s: m::CompleteRequest = arg(s, 0)?;  let r = m::CompleteRequest::jsonrpc(&s); Ok(out!(r)) }
        "CompleteRequest.method" => { let s: m::CompleteRequest = arg(s, 0)?;  let r = m::CompleteRequest::method(&s); Ok(out!(r)) }
        "CompleteRequest.method_value" => {  let r = m::CompleteRequest::method_value(); Ok(out!(r)) }
        "CompleteRequest.method_name" => {  let r = m::CompleteRequest::method_name(); Ok(out!(r)) }
        "CompleteRequestRef.From<PromptReference>" => { let a0: m::PromptReference = arg(a, 0)?; let r: m::CompleteRequestRef = From::from(a0); Ok(out!(r)) }
        "CompleteRequestRef.From<ResourceTemplateReference>" => { let a0: m::ResourceTemplateReference = arg(a, 0)?; let r: m::CompleteRequestRef = From::from(a0); Ok(out!(r)) }
        "ContentBlock.From<TextContent>" => { let a0: m::TextContent = arg(a, 0)?; let r: m::ContentBlock = From::from(a0); Ok(out!(r)) }
        "ContentBlock.From<ImageContent>" => { let a0: m::ImageContent = arg(a, 0)?; let r: m::ContentBlock = From::from(a0); Ok(out!(r)) }
        "ContentBlock.From<AudioContent>" => { let a0: m::AudioContent = arg(a, 0)?; let r: m::ContentBlock = From::from(a0); Ok(out!(r)) }
        "ContentBlock.From<ResourceLink>" => { let a0: m::ResourceLink = arg(a, 0)?; let r: m::ContentBlock = From::from(a0); Ok(out!(r)) }
        "ContentBlock.From<EmbeddedResource>" => { let a0: m::EmbeddedResource = arg(a, 0)?; let r: m::ContentBlock = From::from(a0); Ok(out!(r)) }
        "CreateMessageContent.From<TextContent>" => { let a0: m::TextContent = arg(a, 0)?; let r: m::CreateMessageContent = From::from(a0); Ok(out!(r)) }
        "CreateMessageContent.From<ImageContent>" => { let a0: m::ImageContent = arg(a, 0)?; let r: m::CreateMessageContent = From::from(a0); Ok(out!(r)) }
        "CreateMessageContent.From<AudioContent>" => { let a0: m::AudioContent = arg(a, 0)?; let r: m::CreateMessageContent = From::from(a0); Ok(out!(r)) }
        "CreateMessageContent.From<ToolUseContent>" => { let a0: m::ToolUseContent = arg(a, 0)?; let r: m::CreateMessageContent = From::from(a0); Ok(out!(r)) }
        "CreateMessageContent.From<ToolResultContent>" => { let a0: m::ToolResultContent = arg(a, 0)?; let r: m::CreateMessageContent = From::from(a0); Ok(out!(r)) }
        "CreateMessageContent.From<Vec<SamplingMessageContentBlock>>" => { let a0: ::std::vec::Vec<m::SamplingMessageContentBlock> = arg(a, 0)?; let r: m::CreateMessageContent = From::from(a0); Ok(out!(r)) }
        "CreateMessageRequest.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: m::CreateMessageRequestParams = arg(a, 1)?; let r = m::CreateMessageRequest::new(a0, a1); Ok(out!(r)) }
        "CreateMessageRequest.jsonrpc" => { let s: m::CreateMessageRequest = arg(s, 0)?;  let r = m::CreateMessageRequest::jsonrpc(&s); Ok(out!(r)) }
        "CreateMessageRequest.method" => { let s: m::CreateMessageRequest = arg(s, 0)?;  let r = m::CreateMessageRequest::method(&s); Ok(out!(r)) }
        "CreateMessageRequest.method_value" => {  let r = m::CreateMessageRequest::method_value(); Ok(out!(r)) }
        "CreateMessageRequest.method_name" => {  let r = m::CreateMessageRequest::method_name(); Ok(out!(r)) }
        "ElicitFormSchema.new" => { let a0: std::collections::BTreeMap<::std::string::String,m::PrimitiveSchemaDefinition> = arg(a, 0)?; let a1: ::std::vec::Vec<::std::string::String> = arg(a, 1)?; let a2: ::std::option::Option<::std::string::String> = arg(a, 2)?; let r = m::ElicitFormSchema::new(a0, a1, a2); Ok(out!(r)) }
        "ElicitFormSchema.type_" => { let s: m::ElicitFormSchema = arg(s, 0)?;  let r = m::ElicitFormSchema::type_(&s); Ok(out!(r)) }
        "ElicitFormSchema.type_value" => {  let r = m::ElicitFormSchema::type_value(); Ok(out!(r)) }
        "ElicitFormSchema.type_name" => {  let r = m::ElicitFormSchema::type_name(); Ok(out!(r)) }
        "ElicitRequest.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: m::ElicitRequestParams = arg(a, 1)?; let r = m::ElicitRequest::new(a0, a1); Ok(out!(r)) }
        "ElicitRequest.jsonrpc" => { let s: m::ElicitRequest = arg(s, 0)?;  let r = m::ElicitRequest::jsonrpc(&s); Ok(out!(r)) }
        "ElicitRequest.method" => { let s: m::ElicitRequest = arg(s, 0)?;  let r = m::ElicitRequest::method(&s); Ok(out!(r)) }
        "ElicitRequest.method_value" => {  let r = m::ElicitRequest::method_value(); Ok(out!(r)) }
        "ElicitRequest.method_name" => {  let r = m::ElicitRequest::method_name(); Ok(out!(r)) }
        "ElicitRequestFormParams.new" => { let a0: ::std::string::String = arg(a, 0)?; let a1: m::ElicitFormSchema = arg(a, 1)?; let a2: ::std::option::Option<m::ElicitFormMeta> = arg(a, 2)?; let a3: ::std::option::Option<m::TaskMetadata> = arg(a, 3)?; let r = m::ElicitRequestFormParams::new(a0, a1, a2, a3); Ok(out!(r)) }
        "ElicitRequestFormParams.mode" => { let s: m::ElicitRequestFormParams = arg(s, 0)?;  let r = m::ElicitRequestFormParams::mode(&s); Ok(out!(r)) }
        "ElicitRequestFormParams.mode_value" => {  let r = m::ElicitRequestFormParams::mode_value(); Ok(out!(r)) }
        "ElicitRequestFormParams.mode_name" => {  let r = m::ElicitRequestFormParams::mode_name(); Ok(out!(r)) }
        "ElicitRequestParams.From<ElicitRequestUrlParams>" => { let a0: m::ElicitRequestUrlParams = arg(a, 0)?; let r: m::ElicitRequestParams = From::from(a0); Ok(out!(r)) }
        "ElicitRequestParams.From<ElicitRequestFormParams>" => { let a0: m::ElicitRequestFormParams = arg(a, 0)?; let r: m::ElicitRequestParams = From::from(a0); Ok(out!(r)) }
        "ElicitRequestUrlParams.new" => { let a0: ::std::string::String = arg(a, 0)?; let a1: ::std::string::String = arg(a, 1)?; let a2: ::std::string::String = arg(a, 2)?; let a3: ::std::option::Option<m::ElicitUrlMeta> = arg(a, 3)?; let a4: ::std::option::Option<m::TaskMetadata> = arg(a, 4)?; let r = m::ElicitRequestUrlParams::new(a0, a1, a2, a3, a4); Ok(out!(r)) }
        "ElicitRequestUrlParams.mode" => { let s: m::ElicitRequestUrlParams = arg(s, 0)?;  let r = m::ElicitRequestUrlParams::mode(&s); Ok(out!(r)) }
        "ElicitRequestUrlParams.mode_value" => {  let r = m::ElicitRequestUrlParams::mode_value(); Ok(out!(r)) }
        "ElicitRequestUrlParams.mode_name" => {  let r = m::ElicitRequestUrlParams::mode_name(); Ok(out!(r)) }
        "ElicitResultAction.Display" => { let s: m::ElicitResultAction = arg(s, 0)?; Ok(s.to_string().view()) }
        "ElicitResultContent.From<Vec<String>>" => { let a0: ::std::vec::Vec<::std::string::String> = arg(a, 0)?; let r: m::ElicitResultContent = From::from(a0); Ok(out!(r)) }
        "ElicitResultContent.From<ElicitResultContentPrimitive>" => { let a0: m::ElicitResultContentPrimitive = arg(a, 0)?; let r: m::ElicitResultContent = From::from(a0); Ok(out!(r)) }
        "ElicitResultContentPrimitive.From<bool>" => { let a0: bool = arg(a, 0)?; let r: m::ElicitResultContentPrimitive = From::from(a0); Ok(out!(r)) }
        "ElicitResultContentPrimitive.From<i64>" => { let a0: i64 = arg(a, 0)?; let r: m::ElicitResultContentPrimitive = From::from(a0); Ok(out!(r)) }
        "ElicitationCompleteNotification.new" => { let a0: m::ElicitCompleteParams = arg(a, 0)?; let r = m::ElicitationCompleteNotification::new(a0); Ok(out!(r)) }
        "ElicitationCompleteNotification.jsonrpc" => { let s: m::ElicitationCompleteNotification = arg(s, 0)?;  let r = m::ElicitationCompleteNotification::jsonrpc(&s); Ok(out!(r)) }
        "ElicitationCompleteNotification.method" => { let s: m::ElicitationCompleteNotification = arg(s, 0)?;  let r = m::ElicitationCompleteNotification::method(&s); Ok(out!(r)) }
        "ElicitationCompleteNotification.method_value" => {  let r = m::ElicitationCompleteNotification::method_value(); Ok(out!(r)) }
        "ElicitationCompleteNotification.method_name" => {  let r = m::ElicitationCompleteNotification::method_name(); Ok(out!(r)) }
        "EmbeddedResource.new" => { let a0: m::EmbeddedResourceResource = arg(a, 0)?; let a1: ::std::option::Option<m::Annotations> = arg(a, 1)?; let a2: ::std::option::Option<::serde_json::Map<::std::string::String,::serde_json::Value>> = arg(a, 2)?; let r = m::EmbeddedResource::new(a0, a1, a2); Ok(out!(r)) }
        "EmbeddedResource.type_" => { let s: m::EmbeddedResource = arg(s, 0)?;  let r = m::EmbeddedResource::type_(&s); Ok(out!(r)) }
        "EmbeddedResource.type_value" => {  let r = m::EmbeddedResource::type_value(); Ok(out!(r)) }
        "EmbeddedResource.type_name" => {  let r = m::EmbeddedResource::type_name(); Ok(out!(r)) }
        "EmbeddedResourceResource.From<TextResourceContents>" => { let a0: m::TextResourceContents = arg(a, 0)?; let r: m::EmbeddedResourceResource = From::from(a0); Ok(out!(r)) }
        "EmbeddedResourceResource.From<BlobResourceContents>" => { let a0: m::BlobResourceContents = arg(a, 0)?; let r: m::EmbeddedResourceResource = From::from(a0); Ok(out!(r)) }
        "EnumSchema.From<UntitledSingleSelectEnumSchema>" => { let a0: m::UntitledSingleSelectEnumSchema = arg(a, 0)?; let r: m::EnumSchema = From::from(a0); Ok(out!(r)) }
        "EnumSchema.From<TitledSingleSelectEnumSchema>" => { let a0: m::TitledSingleSelectEnumSchema = arg(a, 0)?; let r: m::EnumSchema = From::from(a0); Ok(out!(r)) }
        "EnumSchema.From<UntitledMultiSelectEnumSchema>" => { let a0: m::UntitledMultiSelectEnumSchema = arg(a, 0)?; let r: m::EnumSchema = From::from(a0); Ok(out!(r)) }
        "EnumSchema.From<TitledMultiSelectEnumSchema>" => { let a0: m::TitledMultiSelectEnumSchema = arg(a, 0)?; let r: m::EnumSchema = From::from(a0); Ok(out!(r)) }
        "EnumSchema.From<LegacyTitledEnumSchema>" => { let a0: m::LegacyTitledEnumSchema = arg(a, 0)?; let r: m::EnumSchema = From::from(a0); Ok(out!(r)) }
        "GetPromptRequest.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: m::GetPromptRequestParams = arg(a, 1)?; let r = m::GetPromptRequest::new(a0, a1); Ok(out!(r)) }
        "GetPromptRequest.jsonrpc" => { let s: m::GetPromptRequest = arg(s, 0)?;  let r = m::GetPromptRequest::jsonrpc(&s); Ok(out!(r)) }
        "GetPromptRequest.method" => { let s: m::GetPromptRequest = arg(s, 0)?;  let r = m::GetPromptRequest::method(&s); Ok(out!(r)) }
        "GetPromptRequest.method_value" => {  let r = m::GetPromptRequest::method_value(); Ok(out!(r)) }
        "GetPromptRequest.method_name" => {  let r = m::GetPromptRequest::method_name(); Ok(out!(r)) }
        "GetTaskPayloadRequest.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: m::GetTaskPayloadParams = arg(a, 1)?; let r = m::GetTaskPayloadRequest::new(a0, a1); Ok(out!(r)) }
        "GetTaskPayloadRequest.jsonrpc" => { let s: m::GetTaskPayloadRequest = arg(s, 0)?;  let r = m::GetTaskPayloadRequest::jsonrpc(&s); Ok(out!(r)) }
        "GetTaskPayloadRequest.method" => { let s: m::GetTaskPayloadRequest = arg(s, 0)?;  let r = m::GetTaskPayloadRequest::method(&s); Ok(out!(r)) }
        "GetTaskPayloadRequest.method_value" => {  let r = m::GetTaskPayloadRequest::method_value(); Ok(out!(r)) }
        "GetTaskPayloadRequest.method_name" => {  let r = m::GetTaskPayloadRequest::method_name(); Ok(out!(r)) }
        "GetTaskRequest.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: m::GetTaskParams = arg(a, 1)?; let r = m::GetTaskRequest::new(a0, a1); Ok(out!(r)) }
        "GetTaskRequest.jsonrpc" => { let s: m::GetTaskRequest = arg(s, 0)?;  let r = m::GetTaskRequest::jsonrpc(&s); Ok(out!(r)) }
        "GetTaskRequest.method" => { let s: m::GetTaskRequest = arg(s, 0)?;  let r = m::GetTaskRequest::method(&s); Ok(out!(r)) }
        "GetTaskRequest.method_value" => {  let r = m::GetTaskRequest::method_value(); Ok(out!(r)) }
        "GetTaskRequest.method_name" => {  let r = m::GetTaskRequest::method_name(); Ok(out!(r)) }
        "IconTheme.Display" => { let s: m::IconTheme = arg(s, 0)?; Ok(s.to_string().view()) }
        "ImageContent.new" => { let a0: ::std::string::String = arg(a, 0)?; let a1: ::std::string::String = arg(a, 1)?; let a2: ::std::option::Option<m::Annotations> = arg(a, 2)?; let a3: ::std::option::Option<::serde_json::Map<::std::string::String,::serde_json::Value>> = arg(a, 3)?; let r = m::ImageContent::new(a0, a1, a2, a3); Ok(out!(r)) }
        "ImageContent.type_" => { let s: m::ImageContent = arg(s, 0)?;  let r = m::ImageContent::type_(&s); Ok(out!(r)) }
        "ImageContent.type_value" => {  let r = m::ImageContent::type_value(); Ok(out!(r)) }
        "ImageContent.type_name" => {  let r = m::ImageContent::type_name(); Ok(out!(r)) }
        "IncludeContext.Display" => { let s: m::IncludeContext = arg(s, 0)?; Ok(s.to_string().view()) }
        "InitializeRequest.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: m::InitializeRequestParams = arg(a, 1)?; let r = m::InitializeRequest::new(a0, a1); Ok(out!(r)) }
        "InitializeRequest.jsonrpc" => { let s: m::InitializeRequest = arg(s, 0)?;  let r = m::InitializeRequest::jsonrpc(&s); Ok(out!(r)) }
        "InitializeRequest.method" => { let s: m::InitializeRequest = arg(s, 0)?;  let r = m::InitializeRequest::method(&s); Ok(out!(r)) }
        "InitializeRequest.method_value" => {  let r = m::InitializeRequest::method_value(); Ok(out!(r)) }
        "InitializeRequest.method_name" => {  let r = m::InitializeRequest::method_name(); Ok(out!(r)) }
        "InitializedNotification.new" => { let a0: ::std::option::Option<m::NotificationParams> = arg(a, 0)?; let r = m::InitializedNotification::new(a0); Ok(out!(r)) }
        "InitializedNotification.jsonrpc" => { let s: m::InitializedNotification = arg(s, 0)?;  let r = m::InitializedNotification::jsonrpc(&s); Ok(out!(r)) }
        "InitializedNotification.method" => { let s: m::InitializedNotification = arg(s, 0)?;  let r = m::InitializedNotification::method(&s); Ok(out!(r)) }
        "InitializedNotification.method_value" => {  let r = m::InitializedNotification::method_value(); Ok(out!(r)) }
        "InitializedNotification.method_name" => {  let r = m::InitializedNotification::method_name(); Ok(out!(r)) }
        "JsonrpcErrorResponse.new" => { let a0: m::RpcError = arg(a, 0)?; let a1: ::std::option::Option<m::RequestId> = arg(a, 1)?; let r = m::JsonrpcErrorResponse::new(a0, a1); Ok(out!(r)) }
        "JsonrpcErrorResponse.jsonrpc" => { let s: m::JsonrpcErrorResponse = arg(s, 0)?;  let r = m::JsonrpcErrorResponse::jsonrpc(&s); Ok(out!(r)) }
        "JsonrpcMessage.From<JsonrpcRequest>" => { let a0: m::JsonrpcRequest = arg(a, 0)?; let r: m::JsonrpcMessage = From::from(a0); Ok(out!(r)) }
        "JsonrpcMessage.From<JsonrpcNotification>" => { let a0: m::JsonrpcNotification = arg(a, 0)?; let r: m::JsonrpcMessage = From::from(a0); Ok(out!(r)) }
        "JsonrpcMessage.From<JsonrpcResultResponse>" => { let a0: m::JsonrpcResultResponse = arg(a, 0)?; let r: m::JsonrpcMessage = From::from(a0); Ok(out!(r)) }
        "JsonrpcMessage.From<JsonrpcErrorResponse>" => { let a0: m::JsonrpcErrorResponse = arg(a, 0)?; let r: m::JsonrpcMessage = From::from(a0); Ok(out!(r)) }
        "JsonrpcNotification.new" => { let a0: ::std::string::String = arg(a, 0)?; let a1: ::std::option::Option<::serde_json::Map<::std::string::String,::serde_json::Value>> = arg(a, 1)?; let r = m::JsonrpcNotification::new(a0, a1); Ok(out!(r)) }
        "JsonrpcNotification.jsonrpc" => { let s: m::JsonrpcNotification = arg(s, 0)?;  let r = m::JsonrpcNotification::jsonrpc(&s); Ok(out!(r)) }
        "JsonrpcRequest.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: ::std::string::String = arg(a, 1)?; let a2: ::std::option::Option<::serde_json::Map<::std::string::String,::serde_json::Value>> = arg(a, 2)?; let r = m::JsonrpcRequest::new(a0, a1, a2); Ok(out!(r)) }
        "JsonrpcRequest.jsonrpc" => { let s: m::JsonrpcRequest = arg(s, 0)?;  let r = m::JsonrpcRequest::jsonrpc(&s); Ok(out!(r)) }
        "JsonrpcResponse.From<JsonrpcResultResponse>" => { let a0: m::JsonrpcResultResponse = arg(a, 0)?; let r: m::JsonrpcResponse = From::from(a0); Ok(out!(r)) }
        "JsonrpcResponse.From<JsonrpcErrorResponse>" => { let a0: m::JsonrpcErrorResponse = arg(a, 0)?; let r: m::JsonrpcResponse = From::from(a0); Ok(out!(r)) }
        "JsonrpcResultResponse.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: m::Result = arg(a, 1)?; let r = m::JsonrpcResultResponse::new(a0, a1); Ok(out!(r)) }
        "JsonrpcResultResponse.jsonrpc" => { let s: m::JsonrpcResultResponse = arg(s, 0)?;  let r = m::JsonrpcResultResponse::jsonrpc(&s); Ok(out!(r)) }
        "LegacyTitledEnumSchema.new" => { let a0: ::std::vec::Vec<::std::string::String> = arg(a, 0)?; let a1: ::std::vec::Vec<::std::string::String> = arg(a, 1)?; let a2: ::std::option::Option<::std::string::String> = arg(a, 2)?; let a3: ::std::option::Option<::std::string::String> = arg(a, 3)?; let a4: ::std::option::Option<::std::string::String> = arg(a, 4)?; let r = m::LegacyTitledEnumSchema::new(a0, a1, a2, a3, a4); Ok(out!(r)) }
        "LegacyTitledEnumSchema.type_" => { let s: m::LegacyTitledEnumSchema = arg(s, 0)?;  let r = m::LegacyTitledEnumSchema::type_(&s); Ok(out!(r)) }
        "LegacyTitledEnumSchema.type_value" => {  let r = m::LegacyTitledEnumSchema::type_value(); Ok(out!(r)) }
        "LegacyTitledEnumSchema.type_name" => {  let r = m::LegacyTitledEnumSchema::type_name(); Ok(out!(r)) }
        "ListPromptsRequest.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: ::std::option::Option<m::PaginatedRequestParams> = arg(a, 1)?; let r = m::ListPromptsRequest::new(a0, a1); Ok(out!(r)) }
        "ListPromptsRequest.jsonrpc" => { let s: m::ListPromptsRequest = arg(s, 0)?;  let r = m::ListPromptsRequest::jsonrpc(&s); Ok(out!(r)) }
        "ListPromptsRequest.method" => { let s: m::ListPromptsRequest = arg(s, 0)?;  let r = m::ListPromptsRequest::method(&s); Ok(out!(r)) }
        "ListPromptsRequest.method_value" => {  let r = m::ListPromptsRequest::method_value(); Ok(out!(r)) }
        "ListPromptsRequest.method_name" => {  let r = m::ListPromptsRequest::method_name(); Ok(out!(r)) }
        "ListResourceTemplatesRequest.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: ::std::option::Option<m::PaginatedRequestParams> = arg(a, 1)?; let r = m::ListResourceTemplatesRequest::new(a0, a1); Ok(out!(r)) }
        "ListResourceTemplatesRequest.jsonrpc" => { let s: m::ListResourceTemplatesRequest = arg(s, 0)?;  let r = m::ListResourceTemplatesRequest::jsonrpc(&s); Ok(out!(r)) }
        "ListResourceTemplatesRequest.method" => { let s: m::ListResourceTemplatesRequest = arg(s, 0)?;  let r = m::ListResourceTemplatesRequest::method(&s); Ok(out!(r)) }
        "ListResourceTemplatesRequest.method_value" => {  let r = m::ListResourceTemplatesRequest::method_value(); Ok(out!(r)) }
        "ListResourceTemplatesRequest.method_name" => {  let r = m::ListResourceTemplatesRequest::method_name(); Ok(out!(r)) }
        "ListResourcesRequest.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: ::std::option::Option<m::PaginatedRequestParams> = arg(a, 1)?; let r = m::ListResourcesRequest::new(a0, a1); Ok(out!(r)) }
        "ListResourcesRequest.jsonrpc" => { let s: m::ListResourcesRequest = arg(s, 0)?;  let r = m::ListResourcesRequest::jsonrpc(&s); Ok(out!(r)) }
        "ListResourcesRequest.method" => { let s: m::ListResourcesRequest = arg(s, 0)?;  let r = m::ListResourcesRequest::method(&s); Ok(out!(r)) }
        "ListResourcesRequest.method_value" => {  let r = m::ListResourcesRequest::method_value(); Ok(out!(r)) }
        "ListResourcesRequest.method_name" => {  let r = m::ListResourcesRequest::method_name(); Ok(out!(r)) }
        "ListRootsRequest.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: ::std::option::Option<m::RequestParams> = arg(a, 1)?; let r = m::ListRootsRequest::new(a0, a1); Ok(out!(r)) }
        "ListRootsRequest.jsonrpc" => { let s: m::ListRootsRequest = arg(s, 0)?;  let r = m::ListRootsRequest::jsonrpc(&s); Ok(out!(r)) }
        "ListRootsRequest.method" => { let s: m::ListRootsRequest = arg(s, 0)?;  let r = m::ListRootsRequest::method(&s); Ok(out!(r)) }
        "ListRootsRequest.method_value" => {  let r = m::ListRootsRequest::method_value(); Ok(out!(r)) }
        "ListRootsRequest.method_name" => {  let r = m::ListRootsRequest::method_name(); Ok(out!(r)) }
        "ListTasksRequest.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: ::std::option::Option<m::PaginatedRequestParams> = arg(a, 1)?; let r = m::ListTasksRequest::new(a0, a1); Ok(out!(r)) }
        "ListTasksRequest.jsonrpc" => { let s: m::ListTasksRequest = arg(s, 0)?;  let r = m::ListTasksRequest::jsonrpc(&s); Ok(out!(r)) }
        "ListTasksRequest.method" => { let s: m::ListTasksRequest = arg(s, 0)?;  let r = m::ListTasksRequest::method(&s); Ok(out!(r)) }
        "ListTasksRequest.method_value" => {  let r = m::ListTasksRequest::method_value(); Ok(out!(r)) }
        "ListTasksRequest.method_name" => {  let r = m::ListTasksRequest::method_name(); Ok(out!(r)) }
        "ListToolsRequest.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: ::std::option::Option<m::PaginatedRequestParams> = arg(a, 1)?; let r = m::ListToolsRequest::new(a0, a1); Ok(out!(r)) }
        "ListToolsRequest.jsonrpc" => { let s: m::ListToolsRequest = arg(s, 0)?;  let r = m::ListToolsRequest::jsonrpc(&s); Ok(out!(r)) }
        "ListToolsRequest.method" => { let s: m::ListToolsRequest = arg(s, 0)?;  let r = m::ListToolsRequest::method(&s); Ok(out!(r)) }
        "ListToolsRequest.method_value" => {  let r = m::ListToolsRequest::method_value(); Ok(out!(r)) }
        "ListToolsRequest.method_name" => {  let r = m::ListToolsRequest::method_name(); Ok(out!(r)) }
        "LoggingLevel.Display" => { let s: m::LoggingLevel = arg(s, 0)?; Ok(s.to_string().view()) }
        "LoggingMessageNotification.new" => { let a0: m::LoggingMessageNotificationParams = arg(a, 0)?; let r = m::LoggingMessageNotification::new(a0); Ok(out!(r)) }
        "LoggingMessageNotification.jsonrpc" => { let s: m::LoggingMessageNotification = arg(s, 0)?;  let r = m::LoggingMessageNotification::jsonrpc(&s); Ok(out!(r)) }
        "LoggingMessageNotification.method" => { let s: m::LoggingMessageNotification = arg(s, 0)?;  let r = m::LoggingMessageNotification::method(&s); Ok(out!(r)) }
        "LoggingMessageNotification.method_value" => {  let r = m::LoggingMessageNotification::method_value(); Ok(out!(r)) }
        "LoggingMessageNotification.method_name" => {  let r = m::LoggingMessageNotification::method_name(); Ok(out!(r)) }
        "MultiSelectEnumSchema.From<UntitledMultiSelectEnumSchema>" => { let a0: m::UntitledMultiSelectEnumSchema = arg(a, 0)?; let r: m::MultiSelectEnumSchema = From::from(a0); Ok(out!(r)) }
        "MultiSelectEnumSchema.From<TitledMultiSelectEnumSchema>" => { let a0: m::TitledMultiSelectEnumSchema = arg(a, 0)?; let r: m::MultiSelectEnumSchema = From::from(a0); Ok(out!(r)) }
        "NumberSchemaType.Display" => { let s: m::NumberSchemaType = arg(s, 0)?; Ok(s.to_string().view()) }
        "PaginatedRequest.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: ::std::string::String = arg(a, 1)?; let a2: ::std::option::Option<m::PaginatedRequestParams> = arg(a, 2)?; let r = m::PaginatedRequest::new(a0, a1, a2); Ok(out!(r)) }
        "PaginatedRequest.jsonrpc" => { let s: m::PaginatedRequest = arg(s, 0)?;  let r = m::PaginatedRequest::jsonrpc(&s); Ok(out!(r)) }
        "PingRequest.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: ::std::option::Option<m::RequestParams> = arg(a, 1)?; let r = m::PingRequest::new(a0, a1); Ok(out!(r)) }
        "PingRequest.jsonrpc" => { let s: m::PingRequest = arg(s, 0)?;  let r = m::PingRequest::jsonrpc(&s); Ok(out!(r)) }
        "PingRequest.method" => { let s: m::PingRequest = arg(s, 0)?;  let r = m::PingRequest::method(&s); Ok(out!(r)) }
        "PingRequest.method_value" => {  let r = m::PingRequest::method_value(); Ok(out!(r)) }
        "PingRequest.method_name" => {  let r = m::PingRequest::method_name(); Ok(out!(r)) }
        "PrimitiveSchemaDefinition.From<StringSchema>" => { let a0: m::StringSchema = arg(a, 0)?; let r: m::PrimitiveSchemaDefinition = From::from(a0); Ok(out!(r)) }
        "PrimitiveSchemaDefinition.From<NumberSchema>" => { let a0: m::NumberSchema = arg(a, 0)?; let r: m::PrimitiveSchemaDefinition = From::from(a0); Ok(out!(r)) }
        "PrimitiveSchemaDefinition.From<BooleanSchema>" => { let a0: m::BooleanSchema = arg(a, 0)?; let r: m::PrimitiveSchemaDefinition = From::from(a0); Ok(out!(r)) }
        "PrimitiveSchemaDefinition.From<UntitledSingleSelectEnumSchema>" => { let a0: m::UntitledSingleSelectEnumSchema = arg(a, 0)?; let r: m::PrimitiveSchemaDefinition = From::from(a0); Ok(out!(r)) }
        "PrimitiveSchemaDefinition.From<TitledSingleSelectEnumSchema>" => { let a0: m::TitledSingleSelectEnumSchema = arg(a, 0)?; let r: m::PrimitiveSchemaDefinition = From::from(a0); Ok(out!(r)) }
        "PrimitiveSchemaDefinition.From<UntitledMultiSelectEnumSchema>" => { let a0: m::UntitledMultiSelectEnumSchema = arg(a, 0)?; let r: m::PrimitiveSchemaDefinition = From::from(a0); Ok(out!(r)) }
        "PrimitiveSchemaDefinition.From<TitledMultiSelectEnumSchema>" => { let a0: m::TitledMultiSelectEnumSchema = arg(a, 0)?; let r: m::PrimitiveSchemaDefinition = From::from(a0); Ok(out!(r)) }
        "PrimitiveSchemaDefinition.From<LegacyTitledEnumSchema>" => { let a0: m::LegacyTitledEnumSchema = arg(a, 0)?; let r: m::PrimitiveSchemaDefinition = From::from(a0); Ok(out!(r)) }
        "ProgressNotification.new" => { let a0: m::ProgressNotificationParams = arg(a, 0)?; let r = m::ProgressNotification::new(a0); Ok(out!(r)) }
        "ProgressNotification.jsonrpc" => { let s: m::ProgressNotification = arg(s, 0)?;  let r = m::ProgressNotification::jsonrpc(&s); Ok(out!(r)) }
        "ProgressNotification.method" => { let s: m::ProgressNotification = arg(s, 0)?;  let r = m::ProgressNotification::method(&s); Ok(out!(r)) }
        "ProgressNotification.method_value" => {  let r = m::ProgressNotification::method_value(); Ok(out!(r)) }
        "ProgressNotification.method_name" => {  let r = m::ProgressNotification::method_name(); Ok(out!(r)) }
        "ProgressToken.From<i64>" => { let a0: i64 = arg(a, 0)?; let r: m::ProgressToken = From::from(a0); Ok(out!(r)) }
        "PromptListChangedNotification.new" => { let a0: ::std::option::Option<m::NotificationParams> = arg(a, 0)?; let r = m::PromptListChangedNotification::new(a0); Ok(out!(r)) }
        "PromptListChangedNotification.jsonrpc" => { let s: m::PromptListChangedNotification = arg(s, 0)?;  let r = m::PromptListChangedNotification::jsonrpc(&s); Ok(out!(r)) }
        "PromptListChangedNotification.method" => { let s: m::PromptListChangedNotification = arg(s, 0)?;  let r = m::PromptListChangedNotification::method(&s); Ok(out!(r)) }
        "PromptListChangedNotification.method_value" => {  let r = m::PromptListChangedNotification::method_value(); Ok(out!(r)) }
        "PromptListChangedNotification.method_name" => {  let r = m::PromptListChangedNotification::method_name(); Ok(out!(r)) }
        "PromptReference.new" => { let a0: ::std::string::String = arg(a, 0)?; let a1: ::std::option::Option<::std::string::String> = arg(a, 1)?; let r = m::PromptReference::new(a0, a1); Ok(out!(r)) }
        "PromptReference.type_" => { let s: m::PromptReference = arg(s, 0)?;  let r = m::PromptReference::type_(&s); Ok(out!(r)) }
        "PromptReference.type_value" => {  let r = m::PromptReference::type_value(); Ok(out!(r)) }
        "PromptReference.type_name" => {  let r = m::PromptReference::type_name(); Ok(out!(r)) }
        "ReadResourceContent.From<TextResourceContents>" => { let a0: m::TextResourceContents = arg(a, 0)?; let r: m::ReadResourceContent = From::from(a0); Ok(out!(r)) }
        "ReadResourceContent.From<BlobResourceContents>" => { let a0: m::BlobResourceContents = arg(a, 0)?; let r: m::ReadResourceContent = From::from(a0); Ok(out!(r)) }
        "ReadResourceRequest.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: m::ReadResourceRequestParams = arg(a, 1)?; let r = m::ReadResourceRequest::new(a0, a1); Ok(out!(r)) }
        "ReadResourceRequest.jsonrpc" => { let s: m::ReadResourceRequest = arg(s, 0)?;  let r = m::ReadResourceRequest::jsonrpc(&s); Ok(out!(r)) }
        "ReadResourceRequest.method" => { let s: m::ReadResourceRequest = arg(s, 0)?;  let r = m::ReadResourceRequest::method(&s); Ok(out!(r)) }
        "ReadResourceRequest.method_value" => {  let r = m::ReadResourceRequest::method_value(); Ok(out!(r)) }
        "ReadResourceRequest.method_name" => {  let r = m::ReadResourceRequest::method_name(); Ok(out!(r)) }
        "RequestId.From<i64>" => { let a0: i64 = arg(a, 0)?; let r: m::RequestId = From::from(a0); Ok(out!(r)) }
        "ResourceLink.new" => { let a0: ::std::vec::Vec<m::Icon> = arg(a, 0)?; let a1: ::std::string::String = arg(a, 1)?; let a2: ::std::string::String = arg(a, 2)?; let a3: ::std::option::Option<m::Annotations> = arg(a, 3)?; let a4: ::std::option::Option<::std::string::String> = arg(a, 4)?; let a5: ::std::option::Option<::serde_json::Map<::std::string::String,::serde_json::Value>> = arg(a, 5)?; let a6: ::std::option::Option<::std::string::String> = arg(a, 6)?; let a7: ::std::option::Option<i64> = arg(a, 7)?; let a8: ::std::option::Option<::std::string::String> = arg(a, 8)?; let r = m::ResourceLink::new(a0, a1, a2, a3, a4, a5, a6, a7, a8); Ok(out!(r)) }
        "ResourceLink.type_" => { let s: m::ResourceLink = arg(s, 0)?;  let r = m::ResourceLink::type_(&s); Ok(out!(r)) }
        "ResourceLink.type_value" => {  let r = m::ResourceLink::type_value(); Ok(out!(r)) }
        "ResourceLink.type_name" => {  let r = m::ResourceLink::type_name(); Ok(out!(r)) }
        "ResourceListChangedNotification.new" => { let a0: ::std::option::Option<m::NotificationParams> = arg(a, 0)?; let r = m::ResourceListChangedNotification::new(a0); Ok(out!(r)) }
        "ResourceListChangedNotification.jsonrpc" => { let s: m::ResourceListChangedNotification = arg(s, 0)?;  let r = m::ResourceListChangedNotification::jsonrpc(&s); Ok(out!(r)) }
        "ResourceListChangedNotification.method" => { let s: m::ResourceListChangedNotification = arg(s, 0)?;  let r = m::ResourceListChangedNotification::method(&s); Ok(out!(r)) }
        "ResourceListChangedNotification.method_value" => {  let r = m::ResourceListChangedNotification::method_value(); Ok(out!(r)) }
        "ResourceListChangedNotification.method_name" => {  let r = m::ResourceListChangedNotification::method_name(); Ok(out!(r)) }
        "ResourceTemplateReference.new" => { let a0: ::std::string::String = arg(a, 0)?; let r = m::ResourceTemplateReference::new(a0); Ok(out!(r)) }
        "ResourceTemplateReference.type_" => { let s: m::ResourceTemplateReference = arg(s, 0)?;  let r = m::ResourceTemplateReference::type_(&s); Ok(out!(r)) }
        "ResourceTemplateReference.type_value" => {  let r = m::ResourceTemplateReference::type_value(); Ok(out!(r)) }
        "ResourceTemplateReference.type_name" => {  let r = m::ResourceTemplateReference::type_name(); Ok(out!(r)) }
        "ResourceUpdatedNotification.new" => { let a0: m::ResourceUpdatedNotificationParams = arg(a, 0)?; let r = m::ResourceUpdatedNotification::new(a0); Ok(out!(r)) }
        "ResourceUpdatedNotification.jsonrpc" => { let s: m::ResourceUpdatedNotification = arg(s, 0)?;  let r = m::ResourceUpdatedNotification::jsonrpc(&s); Ok(out!(r)) }
        "ResourceUpdatedNotification.method" => { let s: m::ResourceUpdatedNotification = arg(s, 0)?;  let r = m::ResourceUpdatedNotification::method(&s); Ok(out!(r)) }
        "ResourceUpdatedNotification.method_value" => {  let r = m::ResourceUpdatedNotification::method_value(); Ok(out!(r)) }
        "ResourceUpdatedNotification.method_name" => {  let r = m::ResourceUpdatedNotification::method_name(); Ok(out!(r)) }
        "Role.Display" => { let s: m::Role = arg(s, 0)?; Ok(s.to_string().view()) }
        "RootsListChangedNotification.new" => { let a0: ::std::option::Option<m::NotificationParams> = arg(a, 0)?; let r = m::RootsListChangedNotification::new(a0); Ok(out!(r)) }
        "RootsListChangedNotification.jsonrpc" => { let s: m::RootsListChangedNotification = arg(s, 0)?;  let r = m::RootsListChangedNotification::jsonrpc(&s); Ok(out!(r)) }
        "RootsListChangedNotification.method" => { let s: m::RootsListChangedNotification = arg(s, 0)?;  let r = m::RootsListChangedNotification::method(&s); Ok(out!(r)) }
        "RootsListChangedNotification.method_value" => {  let r = m::RootsListChangedNotification::method_value(); Ok(out!(r)) }
        "RootsListChangedNotification.method_name" => {  let r = m::RootsListChangedNotification::method_name(); Ok(out!(r)) }
        "SamplingMessageContent.From<TextContent>" => { let a0: m::TextContent = arg(a, 0)?; let r: m::SamplingMessageContent = From::from(a0); Ok(out!(r)) }
        "SamplingMessageContent.From<ImageContent>" => { let a0: m::ImageContent = arg(a, 0)?; let r: m::SamplingMessageContent = From::from(a0); Ok(out!(r)) }
        "SamplingMessageContent.From<AudioContent>" => { let a0: m::AudioContent = arg(a, 0)?; let r: m::SamplingMessageContent = From::from(a0); Ok(out!(r)) }
        "SamplingMessageContent.From<ToolUseContent>" => { let a0: m::ToolUseContent = arg(a, 0)?; let r: m::SamplingMessageContent = From::from(a0); Ok(out!(r)) }
        "SamplingMessageContent.From<ToolResultContent>" => { let a0: m::ToolResultContent = arg(a, 0)?; let r: m::SamplingMessageContent = From::from(a0); Ok(out!(r)) }
        "SamplingMessageContent.From<Vec<SamplingMessageContentBlock>>" => { let a0: ::std::vec::Vec<m::SamplingMessageContentBlock> = arg(a, 0)?; let r: m::SamplingMessageContent = From::from(a0); Ok(out!(r)) }
        "SamplingMessageContentBlock.From<TextContent>" => { let a0: m::TextContent = arg(a, 0)?; let r: m::SamplingMessageContentBlock = From::from(a0); Ok(out!(r)) }
        "SamplingMessageContentBlock.From<ImageContent>" => { let a0: m::ImageContent = arg(a, 0)?; let r: m::SamplingMessageContentBlock = From::from(a0); Ok(out!(r)) }
        "SamplingMessageContentBlock.From<AudioContent>" => { let a0: m::AudioContent = arg(a, 0)?; let r: m::SamplingMessageContentBlock = From::from(a0); Ok(out!(r)) }
        "SamplingMessageContentBlock.From<ToolUseContent>" => { let a0: m::ToolUseContent = arg(a, 0)?; let r: m::SamplingMessageContentBlock = From::from(a0); Ok(out!(r)) }
        "SamplingMessageContentBlock.From<ToolResultContent>" => { let a0: m::ToolResultContent = arg(a, 0)?; let r: m::SamplingMessageContentBlock = From::from(a0); Ok(out!(r)) }
        "ServerNotification.From<CancelledNotification>" => { let a0: m::CancelledNotification = arg(a, 0)?; let r: m::ServerNotification = From::from(a0); Ok(out!(r)) }
        "ServerNotification.From<ProgressNotification>" => { let a0: m::ProgressNotification = arg(a, 0)?; let r: m::ServerNotification = From::from(a0); Ok(out!(r)) }
        "ServerNotification.From<ResourceListChangedNotification>" => { let a0: m::ResourceListChangedNotification = arg(a, 0)?; let r: m::ServerNotification = From::from(a0); Ok(out!(r)) }
        "ServerNotification.From<ResourceUpdatedNotification>" => { let a0: m::ResourceUpdatedNotification = arg(a, 0)?; let r: m::ServerNotification = From::from(a0); Ok(out!(r)) }
        "ServerNotification.From<PromptListChangedNotification>" => { let a0: m::PromptListChangedNotification = arg(a, 0)?; let r: m::ServerNotification = From::from(a0); Ok(out!(r)) }
        "ServerNotification.From<ToolListChangedNotification>" => { let a0: m::ToolListChangedNotification = arg(a, 0)?; let r: m::ServerNotification = From::from(a0); Ok(out!(r)) }
        "ServerNotification.From<TaskStatusNotification>" => { let a0: m::TaskStatusNotification = arg(a, 0)?; let r: m::ServerNotification = From::from(a0); Ok(out!(r)) }
        "ServerNotification.From<LoggingMessageNotification>" => { let a0: m::LoggingMessageNotification = arg(a, 0)?; let r: m::ServerNotification = From::from(a0); Ok(out!(r)) }
        "ServerNotification.From<ElicitationCompleteNotification>" => { let a0: m::ElicitationCompleteNotification = arg(a, 0)?; let r: m::ServerNotification = From::from(a0); Ok(out!(r)) }
        "ServerRequest.From<PingRequest>" => { let a0: m::PingRequest = arg(a, 0)?; let r: m::ServerRequest = From::from(a0); Ok(out!(r)) }
        "ServerRequest.From<GetTaskRequest>" => { let a0: m::GetTaskRequest = arg(a, 0)?; let r: m::ServerRequest = From::from(a0); Ok(out!(r)) }
        "ServerRequest.From<GetTaskPayloadRequest>" => { let a0: m::GetTaskPayloadRequest = arg(a, 0)?; let r: m::ServerRequest = From::from(a0); Ok(out!(r)) }
        "ServerRequest.From<CancelTaskRequest>" => { let a0: m::CancelTaskRequest = arg(a, 0)?; let r: m::ServerRequest = From::from(a0); Ok(out!(r)) }
        "ServerRequest.From<ListTasksRequest>" => { let a0: m::ListTasksRequest = arg(a, 0)?; let r: m::ServerRequest = From::from(a0); Ok(out!(r)) }
        "ServerRequest.From<CreateMessageRequest>" => { let a0: m::CreateMessageRequest = arg(a, 0)?; let r: m::ServerRequest = From::from(a0); Ok(out!(r)) }
        "ServerRequest.From<ListRootsRequest>" => { let a0: m::ListRootsRequest = arg(a, 0)?; let r: m::ServerRequest = From::from(a0); Ok(out!(r)) }
        "ServerRequest.From<ElicitRequest>" => { let a0: m::ElicitRequest = arg(a, 0)?; let r: m::ServerRequest = From::from(a0); Ok(out!(r)) }
        "ServerResult.From<InitializeResult>" => { let a0: m::InitializeResult = arg(a, 0)?; let r: m::ServerResult = From::from(a0); Ok(out!(r)) }
        "ServerResult.From<ListResourcesResult>" => { let a0: m::ListResourcesResult = arg(a, 0)?; let r: m::ServerResult = From::from(a0); Ok(out!(r)) }
        "ServerResult.From<ListResourceTemplatesResult>" => { let a0: m::ListResourceTemplatesResult = arg(a, 0)?; let r: m::ServerResult = From::from(a0); Ok(out!(r)) }
        "ServerResult.From<ReadResourceResult>" => { let a0: m::ReadResourceResult = arg(a, 0)?; let r: m::ServerResult = From::from(a0); Ok(out!(r)) }
        "ServerResult.From<ListPromptsResult>" => { let a0: m::ListPromptsResult = arg(a, 0)?; let r: m::ServerResult = From::from(a0); Ok(out!(r)) }
        "ServerResult.From<GetPromptResult>" => { let a0: m::GetPromptResult = arg(a, 0)?; let r: m::ServerResult = From::from(a0); Ok(out!(r)) }
        "ServerResult.From<ListToolsResult>" => { let a0: m::ListToolsResult = arg(a, 0)?; let r: m::ServerResult = From::from(a0); Ok(out!(r)) }
        "ServerResult.From<CallToolResult>" => { let a0: m::CallToolResult = arg(a, 0)?; let r: m::ServerResult = From::from(a0); Ok(out!(r)) }
        "ServerResult.From<GetTaskResult>" => { let a0: m::GetTaskResult = arg(a, 0)?; let r: m::ServerResult = From::from(a0); Ok(out!(r)) }
        "ServerResult.From<CancelTaskResult>" => { let a0: m::CancelTaskResult = arg(a, 0)?; let r: m::ServerResult = From::from(a0); Ok(out!(r)) }
        "ServerResult.From<ListTasksResult>" => { let a0: m::ListTasksResult = arg(a, 0)?; let r: m::ServerResult = From::from(a0); Ok(out!(r)) }
        "ServerResult.From<CompleteResult>" => { let a0: m::CompleteResult = arg(a, 0)?; let r: m::ServerResult = From::from(a0); Ok(out!(r)) }
        "ServerResult.From<Result>" => { let a0: m::Result = arg(a, 0)?; let r: m::ServerResult = From::from(a0); Ok(out!(r)) }
        "ServerResult.From<GetTaskPayloadResult>" => { let a0: m::GetTaskPayloadResult = arg(a, 0)?; let r: m::ServerResult = From::from(a0); Ok(out!(r)) }
        "SetLevelRequest.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: m::SetLevelRequestParams = arg(a, 1)?; let r = m::SetLevelRequest::new(a0, a1); Ok(out!(r)) }
        "SetLevelRequest.jsonrpc" => { let s: m::SetLevelRequest = arg(s, 0)?;  let r = m::SetLevelRequest::jsonrpc(&s); Ok(out!(r)) }
        "SetLevelRequest.method" => { let s: m::SetLevelRequest = arg(s, 0)?;  let r = m::SetLevelRequest::method(&s); Ok(out!(r)) }
        "SetLevelRequest.method_value" => {  let r = m::SetLevelRequest::method_value(); Ok(out!(r)) }
        "SetLevelRequest.method_name" => {  let r = m::SetLevelRequest::method_name(); Ok(out!(r)) }
        "SingleSelectEnumSchema.From<UntitledSingleSelectEnumSchema>" => { let a0: m::UntitledSingleSelectEnumSchema = arg(a, 0)?; let r: m::SingleSelectEnumSchema = From::from(a0); Ok(out!(r)) }
        "SingleSelectEnumSchema.From<TitledSingleSelectEnumSchema>" => { let a0: m::TitledSingleSelectEnumSchema = arg(a, 0)?; let r: m::SingleSelectEnumSchema = From::from(a0); Ok(out!(r)) }
        "StringSchema.new" => { let a0: ::std::option::Option<::std::string::String> = arg(a, 0)?; let a1: ::std::option::Option<::std::string::String> = arg(a, 1)?; let a2: ::std::option::Option<m::StringSchemaFormat> = arg(a, 2)?; let a3: ::std::option::Option<i64> = arg(a, 3)?; let a4: ::std::option::Option<i64> = arg(a, 4)?; let a5: ::std::option::Option<::std::string::String> = arg(a, 5)?; let r = m::StringSchema::new(a0, a1, a2, a3, a4, a5); Ok(out!(r)) }
        "StringSchema.type_" => { let s: m::StringSchema = arg(s, 0)?;  let r = m::StringSchema::type_(&s); Ok(out!(r)) }
        "StringSchema.type_value" => {  let r = m::StringSchema::type_value(); Ok(out!(r)) }
        "StringSchema.type_name" => {  let r = m::StringSchema::type_name(); Ok(out!(r)) }
        "StringSchemaFormat.Display" => { let s: m::StringSchemaFormat = arg(s, 0)?; Ok(s.to_string().view()) }
        "SubscribeRequest.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: m::SubscribeRequestParams = arg(a, 1)?; let r = m::SubscribeRequest::new(a0, a1); Ok(out!(r)) }
        "SubscribeRequest.jsonrpc" => { let s: m::SubscribeRequest = arg(s, 0)?;  let r = m::SubscribeRequest::jsonrpc(&s); Ok(out!(r)) }
        "SubscribeRequest.method" => { let s: m::SubscribeRequest = arg(s, 0)?;  let r = m::SubscribeRequest::method(&s); Ok(out!(r)) }
        "SubscribeRequest.method_value" => {  let r = m::SubscribeRequest::method_value(); Ok(out!(r)) }
        "SubscribeRequest.method_name" => {  let r = m::SubscribeRequest::method_name(); Ok(out!(r)) }
        "TaskStatus.Display" => { let s: m::TaskStatus = arg(s, 0)?; Ok(s.to_string().view()) }
        "TaskStatusNotification.new" => { let a0: m::TaskStatusNotificationParams = arg(a, 0)?; let r = m::TaskStatusNotification::new(a0); Ok(out!(r)) }
        "TaskStatusNotification.jsonrpc" => { let s: m::TaskStatusNotification = arg(s, 0)?;  let r = m::TaskStatusNotification::jsonrpc(&s); Ok(out!(r)) }
        "TaskStatusNotification.method" => { let s: m::TaskStatusNotification = arg(s, 0)?;  let r = m::TaskStatusNotification::method(&s); Ok(out!(r)) }
        "TaskStatusNotification.method_value" => {  let r = m::TaskStatusNotification::method_value(); Ok(out!(r)) }
        "TaskStatusNotification.method_name" => {  let r = m::TaskStatusNotification::method_name(); Ok(out!(r)) }
        "TextContent.new" => { let a0: ::std::string::String = arg(a, 0)?; let a1: ::std::option::Option<m::Annotations> = arg(a, 1)?; let a2: ::std::option::Option<::serde_json::Map<::std::string::String,::serde_json::Value>> = arg(a, 2)?; let r = m::TextContent::new(a0, a1, a2); Ok(out!(r)) }
        "TextContent.type_" => { let s: m::TextContent = arg(s, 0)?;  let r = m::TextContent::type_(&s); Ok(out!(r)) }
        "TextContent.type_value" => {  let r = m::TextContent::type_value(); Ok(out!(r)) }
        "TextContent.type_name" => {  let r = m::TextContent::type_name(); Ok(out!(r)) }
        "TitledMultiSelectEnumSchema.new" => { let a0: ::std::vec::Vec<::std::string::String> = arg(a, 0)?; let a1: m::TitledMultiSelectEnumSchemaItems = arg(a, 1)?; let a2: ::std::option::Option<::std::string::String> = arg(a, 2)?; let a3: ::std::option::Option<i64> = arg(a, 3)?; let a4: ::std::option::Option<i64> = arg(a, 4)?; let a5: ::std::option::Option<::std::string::String> = arg(a, 5)?; let r = m::TitledMultiSelectEnumSchema::new(a0, a1, a2, a3, a4, a5); Ok(out!(r)) }
        "TitledMultiSelectEnumSchema.type_" => { let s: m::TitledMultiSelectEnumSchema = arg(s, 0)?;  let r = m::TitledMultiSelectEnumSchema::type_(&s); Ok(out!(r)) }
        "TitledMultiSelectEnumSchema.type_value" => {  let r = m::TitledMultiSelectEnumSchema::type_value(); Ok(out!(r)) }
        "TitledMultiSelectEnumSchema.type_name" => {  let r = m::TitledMultiSelectEnumSchema::type_name(); Ok(out!(r)) }
        "TitledSingleSelectEnumSchema.new" => { let a0: ::std::vec::Vec<m::TitledSingleSelectEnumSchemaOneOfItem> = arg(a, 0)?; let a1: ::std::option::Option<::std::string::String> = arg(a, 1)?; let a2: ::std::option::Option<::std::string::String> = arg(a, 2)?; let a3: ::std::option::Option<::std::string::String> = arg(a, 3)?; let r = m::TitledSingleSelectEnumSchema::new(a0, a1, a2, a3); Ok(out!(r)) }
        "TitledSingleSelectEnumSchema.type_" => { let s: m::TitledSingleSelectEnumSchema = arg(s, 0)?;  let r = m::TitledSingleSelectEnumSchema::type_(&s); Ok(out!(r)) }
        "TitledSingleSelectEnumSchema.type_value" => {  let r = m::TitledSingleSelectEnumSchema::type_value(); Ok(out!(r)) }
        "TitledSingleSelectEnumSchema.type_name" => {  let r = m::TitledSingleSelectEnumSchema::type_name(); Ok(out!(r)) }
        "ToolChoiceMode.Display" => { let s: m::ToolChoiceMode = arg(s, 0)?; Ok(s.to_string().view()) }
        "ToolExecutionTaskSupport.Display" => { let s: m::ToolExecutionTaskSupport = arg(s, 0)?; Ok(s.to_string().view()) }
        "ToolInputSchema.new" => { let a0: ::std::vec::Vec<::std::string::String> = arg(a, 0)?; let a1: ::std::option::Option<std::collections::BTreeMap<::std::string::String,::serde_json::Map<::std::string::String,::serde_json::Value>>,> = arg(a, 1)?; let a2: ::std::option::Option<::std::string::String> = arg(a, 2)?; let r = m::ToolInputSchema::new(a0, a1, a2); Ok(out!(r)) }
        "ToolInputSchema.type_" => { let s: m::ToolInputSchema = arg(s, 0)?;  let r = m::ToolInputSchema::type_(&s); Ok(out!(r)) }
        "ToolInputSchema.type_value" => {  let r = m::ToolInputSchema::type_value(); Ok(out!(r)) }
        "ToolInputSchema.type_name" => {  let r = m::ToolInputSchema::type_name(); Ok(out!(r)) }
        "ToolListChangedNotification.new" => { let a0: ::std::option::Option<m::NotificationParams> = arg(a, 0)?; let r = m::ToolListChangedNotification::new(a0); Ok(out!(r)) }
        "ToolListChangedNotification.jsonrpc" => { let s: m::ToolListChangedNotification = arg(s, 0)?;  let r = m::ToolListChangedNotification::jsonrpc(&s); Ok(out!(r)) }
        "ToolListChangedNotification.method" => { let s: m::ToolListChangedNotification = arg(s, 0)?;  let r = m::ToolListChangedNotification::method(&s); Ok(out!(r)) }
        "ToolListChangedNotification.method_value" => {  let r = m::ToolListChangedNotification::method_value(); Ok(out!(r)) }
        "ToolListChangedNotification.method_name" => {  let r = m::ToolListChangedNotification::method_name(); Ok(out!(r)) }
        "ToolOutputSchema.new" => { let a0: ::std::vec::Vec<::std::string::String> = arg(a, 0)?; let a1: ::std::option::Option<std::collections::BTreeMap<::std::string::String,::serde_json::Map<::std::string::String,::serde_json::Value>>,> = arg(a, 1)?; let a2: ::std::option::Option<::std::string::String> = arg(a, 2)?; let r = m::ToolOutputSchema::new(a0, a1, a2); Ok(out!(r)) }
        "ToolOutputSchema.type_" => { let s: m::ToolOutputSchema = arg(s, 0)?;  let r = m::ToolOutputSchema::type_(&s); Ok(out!(r)) }
        "ToolOutputSchema.type_value" => {  let r = m::ToolOutputSchema::type_value(); Ok(out!(r)) }
        "ToolOutputSchema.type_name" => {  let r = m::ToolOutputSchema::type_name(); Ok(out!(r)) }
        "ToolResultContent.new" => { let a0: ::std::vec::Vec<m::ContentBlock> = arg(a, 0)?; let a1: ::std::string::String = arg(a, 1)?; let a2: ::std::option::Option<bool> = arg(a, 2)?; let a3: ::std::option::Option<::serde_json::Map<::std::string::String,::serde_json::Value>> = arg(a, 3)?; let a4: ::std::option::Option<::serde_json::Map<::std::string::String,::serde_json::Value>> = arg(a, 4)?; let r = m::ToolResultContent::new(a0, a1, a2, a3, a4); Ok(out!(r)) }
        "ToolResultContent.type_" => { let s: m::ToolResultContent = arg(s, 0)?;  let r = m::ToolResultContent::type_(&s); Ok(out!(r)) }
        "ToolResultContent.type_value" => {  let r = m::ToolResultContent::type_value(); Ok(out!(r)) }
        "ToolResultContent.type_name" => {  let r = m::ToolResultContent::type_name(); Ok(out!(r)) }
        "ToolUseContent.new" => { let a0: ::std::string::String = arg(a, 0)?; let a1: ::serde_json::Map<::std::string::String,::serde_json::Value> = arg(a, 1)?; let a2: ::std::string::String = arg(a, 2)?; let a3: ::std::option::Option<::serde_json::Map<::std::string::String,::serde_json::Value>> = arg(a, 3)?; let r = m::ToolUseContent::new(a0, a1, a2, a3); Ok(out!(r)) }
        "ToolUseContent.type_" => { let s: m::ToolUseContent = arg(s, 0)?;  let r = m::ToolUseContent::type_(&s); Ok(out!(r)) }
        "ToolUseContent.type_value" => {  let r = m::ToolUseContent::type_value(); Ok(out!(r)) }
        "ToolUseContent.type_name" => {  let r = m::ToolUseContent::type_name(); Ok(out!(r)) }
        "UnsubscribeRequest.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: m::UnsubscribeRequestParams = arg(a, 1)?; let r = m::UnsubscribeRequest::new(a0, a1); Ok(out!(r)) }
        "UnsubscribeRequest.jsonrpc" => { let s: m::UnsubscribeRequest = arg(s, 0)?;  let r = m::UnsubscribeRequest::jsonrpc(&s); Ok(out!(r)) }
        "UnsubscribeRequest.method" => { let s: m::UnsubscribeRequest = arg(s, 0)?;  let r = m::UnsubscribeRequest::method(&s); Ok(out!(r)) }
        "UnsubscribeRequest.method_value" => {  let r = m::UnsubscribeRequest::method_value(); Ok(out!(r)) }
        "UnsubscribeRequest.method_name" => {  let r = m::UnsubscribeRequest::method_name(); Ok(out!(r)) }
        "UntitledMultiSelectEnumSchema.new" => { let a0: ::std::vec::Vec<::std::string::String> = arg(a, 0)?; let a1: m::UntitledMultiSelectEnumSchemaItems = arg(a, 1)?; let a2: ::std::option::Option<::std::string::String> = arg(a, 2)?; let a3: ::std::option::Option<i64> = arg(a, 3)?; let a4: ::std::option::Option<i64> = arg(a, 4)?; let a5: ::std::option::Option<::std::string::String> = arg(a, 5)?; let r = m::UntitledMultiSelectEnumSchema::new(a0, a1, a2, a3, a4, a5); Ok(out!(r)) }
        "UntitledMultiSelectEnumSchema.type_" => { let s: m::UntitledMultiSelectEnumSchema = arg(s, 0)?;  let r = m::UntitledMultiSelectEnumSchema::type_(&s); Ok(out!(r)) }
        "UntitledMultiSelectEnumSchema.type_value" => {  let r = m::UntitledMultiSelectEnumSchema::type_value(); Ok(out!(r)) }
        "UntitledMultiSelectEnumSchema.type_name" => {  let r = m::UntitledMultiSelectEnumSchema::type_name(); Ok(out!(r)) }
        "UntitledMultiSelectEnumSchemaItems.new" => { let a0: ::std::vec::Vec<::std::string::String> = arg(a, 0)?; let r = m::UntitledMultiSelectEnumSchemaItems::new(a0); Ok(out!(r)) }
        "UntitledMultiSelectEnumSchemaItems.type_" => { let s: m::UntitledMultiSelectEnumSchemaItems = arg(s, 0)?;  let r = m::UntitledMultiSelectEnumSchemaItems::type_(&s); Ok(out!(r)) }
        "UntitledMultiSelectEnumSchemaItems.type_value" => {  let r = m::UntitledMultiSelectEnumSchemaItems::type_value(); Ok(out!(r)) }
        "UntitledMultiSelectEnumSchemaItems.type_name" => {  let r = m::UntitledMultiSelectEnumSchemaItems::type_name(); Ok(out!(r)) }
        "UntitledSingleSelectEnumSchema.new" => { let a0: ::std::vec::Vec<::std::string::String> = arg(a, 0)?; let a1: ::std::option::Option<::std::string::String> = arg(a, 1)?; let a2: ::std::option::Option<::std::string::String> = arg(a, 2)?; let a3: ::std::option::Option<::std::string::String> = arg(a, 3)?; let r = m::UntitledSingleSelectEnumSchema::new(a0, a1, a2, a3); Ok(out!(r)) }
        "UntitledSingleSelectEnumSchema.type_" => { let s: m::UntitledSingleSelectEnumSchema = arg(s, 0)?;  let r = m::UntitledSingleSelectEnumSchema::type_(&s); Ok(out!(r)) }
        "UntitledSingleSelectEnumSchema.type_value" => {  let r = m::UntitledSingleSelectEnumSchema::type_value(); Ok(out!(r)) }
        "UntitledSingleSelectEnumSchema.type_name" => {  let r = m::UntitledSingleSelectEnumSchema::type_name(); Ok(out!(r)) }
        "UrlElicitError.new" => { let a0: m::UrlElicitErrorData = arg(a, 0)?; let a1: ::std::string::String = arg(a, 1)?; let r = m::UrlElicitError::new(a0, a1); Ok(out!(r)) }
        "UrlElicitError.code" => { let s: m::UrlElicitError = arg(s, 0)?;  let r = m::UrlElicitError::code(&s); Ok(out!(r)) }
        "UrlElicitError.code_value" => {  let r = m::UrlElicitError::code_value(); Ok(out!(r)) }
        "UrlElicitError.code_name" => {  let r = m::UrlElicitError::code_name(); Ok(out!(r)) }
        "UrlElicitationRequiredError.new" => { let a0: m::UrlElicitError = arg(a, 0)?; let a1: ::std::option::Option<m::RequestId> = arg(a, 1)?; let r = m::UrlElicitationRequiredError::new(a0, a1); Ok(out!(r)) }
        "UrlElicitationRequiredError.jsonrpc" => { let s: m::UrlElicitationRequiredError = arg(s, 0)?;  let r = m::UrlElicitationRequiredError::jsonrpc(&s); Ok(out!(r)) }
        "ClientRequest.method" => { let s: m::ClientRequest = arg(s, 0)?;  let r = m::ClientRequest::method(&s); Ok(out!(r)) }
        "ClientNotification.method" => { let s: m::ClientNotification = arg(s, 0)?;  let r = m::ClientNotification::method(&s); Ok(out!(r)) }
        "ServerRequest.method" => { let s: m::ServerRequest = arg(s, 0)?;  let r = m::ServerRequest::method(&s); Ok(out!(r)) }
        "ServerNotification.method" => { let s: m::ServerNotification = arg(s, 0)?;  let r = m::ServerNotification::method(&s); Ok(out!(r)) }
        "GenericResult.From<InitializeResult>" => { let a0: m::InitializeResult = arg(a, 0)?; let r: m::GenericResult = From::from(a0); Ok(out!(r)) }
        "GenericResult.From<ListResourcesResult>" => { let a0: m::ListResourcesResult = arg(a, 0)?; let r: m::GenericResult = From::from(a0); Ok(out!(r)) }
        "GenericResult.From<ListResourceTemplatesResult>" => { let a0: m::ListResourceTemplatesResult = arg(a, 0)?; let r: m::GenericResult = From::from(a0); Ok(out!(r)) }
        "GenericResult.From<ReadResourceResult>" => { let a0: m::ReadResourceResult = arg(a, 0)?; let r: m::GenericResult = From::from(a0); Ok(out!(r)) }
        "GenericResult.From<ListPromptsResult>" => { let a0: m::ListPromptsResult = arg(a, 0)?; let r: m::GenericResult = From::from(a0); Ok(out!(r)) }
        "GenericResult.From<GetPromptResult>" => { let a0: m::GetPromptResult = arg(a, 0)?; let r: m::GenericResult = From::from(a0); Ok(out!(r)) }
        "GenericResult.From<ListToolsResult>" => { let a0: m::ListToolsResult = arg(a, 0)?; let r: m::GenericResult = From::from(a0); Ok(out!(r)) }
        "GenericResult.From<CallToolResult>" => { let a0: m::CallToolResult = arg(a, 0)?; let r: m::GenericResult = From::from(a0); Ok(out!(r)) }
        "GenericResult.From<GetTaskResult>" => { let a0: m::GetTaskResult = arg(a, 0)?; let r: m::GenericResult = From::from(a0); Ok(out!(r)) }
        "GenericResult.From<GetTaskPayloadResult>" => { let a0: m::GetTaskPayloadResult = arg(a, 0)?; let r: m::GenericResult = From::from(a0); Ok(out!(r)) }
        "GenericResult.From<CancelTaskResult>" => { let a0: m::CancelTaskResult = arg(a, 0)?; let r: m::GenericResult = From::from(a0); Ok(out!(r)) }
        "GenericResult.From<ListTasksResult>" => { let a0: m::ListTasksResult = arg(a, 0)?; let r: m::GenericResult = From::from(a0); Ok(out!(r)) }
        "GenericResult.From<CompleteResult>" => { let a0: m::CompleteResult = arg(a, 0)?; let r: m::GenericResult = From::from(a0); Ok(out!(r)) }
        "MessageTypes.Display" => { let s: u::MessageTypes = arg(s, 0)?; Ok(s.to_string().view()) }
        "RequestId.Display" => { let s: m::RequestId = arg(s, 0)?; Ok(s.to_string().view()) }
        "ClientMessage.as_response" => { let s: u::ClientMessage = arg(s, 0)?;  let r = u::ClientMessage::as_response(s); Ok(out!(r)) }
        "ClientMessage.as_request" => { let s: u::ClientMessage = arg(s, 0)?;  let r = u::ClientMessage::as_request(s); Ok(out!(r)) }
        "ClientMessage.as_notification" => { let s: u::ClientMessage = arg(s, 0)?;  let r = u::ClientMessage::as_notification(s); Ok(out!(r)) }
        "ClientMessage.as_error" => { let s: u::ClientMessage = arg(s, 0)?;  let r = u::ClientMessage::as_error(s); Ok(out!(r)) }
        "ClientMessage.is_initialize_request" => { let s: u::ClientMessage = arg(s, 0)?;  let r = u::ClientMessage::is_initialize_request(&s); Ok(out!(r)) }
        "ClientMessage.is_initialized_notification" => { let s: u::ClientMessage = arg(s, 0)?;  let r = u::ClientMessage::is_initialized_notification(&s); Ok(out!(r)) }
        "ClientMessage.From<ClientJsonrpcNotification>" => { let a0: u::ClientJsonrpcNotification = arg(a, 0)?; let r: u::ClientMessage = From::from(a0); Ok(out!(r)) }
        "ClientMessage.From<ClientJsonrpcRequest>" => { let a0: u::ClientJsonrpcRequest = arg(a, 0)?; let r: u::ClientMessage = From::from(a0); Ok(out!(r)) }
        "ClientMessage.From<ClientJsonrpcResponse>" => { let a0: u::ClientJsonrpcResponse = arg(a, 0)?; let r: u::ClientMessage = From::from(a0); Ok(out!(r)) }
        "ClientMessage.request_id" => { let s: u::ClientMessage = arg(s, 0)?;  let r = <u::ClientMessage as u::RpcMessage>::request_id(&s); Ok(out!(r)) }
        "ClientMessage.jsonrpc" => { let s: u::ClientMessage = arg(s, 0)?;  let r = <u::ClientMessage as u::RpcMessage>::jsonrpc(&s); Ok(out!(r)) }
        "ClientMessage.method" => { let s: u::ClientMessage = arg(s, 0)?;  let r = <u::ClientMessage as u::RpcMessage>::method(&s); Ok(out!(r)) }
        "ClientMessage.is_response" => { let s: u::ClientMessage = arg(s, 0)?;  let r = <u::ClientMessage as u::McpMessage>::is_response(&s); Ok(out!(r)) }
        "ClientMessage.is_request" => { let s: u::ClientMessage = arg(s, 0)?;  let r = <u::ClientMessage as u::McpMessage>::is_request(&s); Ok(out!(r)) }
        "ClientMessage.is_notification" => { let s: u::ClientMessage = arg(s, 0)?;  let r = <u::ClientMessage as u::McpMessage>::is_notification(&s); Ok(out!(r)) }
        "ClientMessage.is_error" => { let s: u::ClientMessage = arg(s, 0)?;  let r = <u::ClientMessage as u::McpMessage>::is_error(&s); Ok(out!(r)) }
        "ClientMessage.message_type" => { let s: u::ClientMessage = arg(s, 0)?;  let r = <u::ClientMessage as u::McpMessage>::message_type(&s); Ok(out!(r)) }
        "ClientJsonrpcRequest.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: u::RequestFromClient = arg(a, 1)?; let r = u::ClientJsonrpcRequest::new(a0, a1); Ok(out!(r)) }
        "ClientJsonrpcRequest.jsonrpc" => { let s: u::ClientJsonrpcRequest = arg(s, 0)?;  let r = u::ClientJsonrpcRequest::jsonrpc(&s); Ok(out!(r)) }
        "ClientJsonrpcRequest.request_id" => { let s: u::ClientJsonrpcRequest = arg(s, 0)?;  let r = u::ClientJsonrpcRequest::request_id(&s); Ok(out!(r)) }
        "ClientJsonrpcRequest.is_task_augmented" => { let s: u::ClientJsonrpcRequest = arg(s, 0)?;  let r = u::ClientJsonrpcRequest::is_task_augmented(&s); Ok(out!(r)) }
        "ClientJsonrpcRequest.method" => { let s: u::ClientJsonrpcRequest = arg(s, 0)?;  let r = u::ClientJsonrpcRequest::method(&s); Ok(out!(r)) }
        "RequestFromClient.From<ClientJsonrpcRequest>" => { let a0: u::ClientJsonrpcRequest = arg(a, 0)?; let r: u::RequestFromClient = From::from(a0); Ok(out!(r)) }
        "ClientJsonrpcRequest.Display" => { let s: u::ClientJsonrpcRequest = arg(s, 0)?; Ok(s.to_string().view()) }
        "ClientJsonrpcRequest.FromStr" => { let a0: String = arg(a, 0)?; let r: Result<u::ClientJsonrpcRequest, _> = std::str::FromStr::from_str(&a0); let o = out!(r); Ok(readers(&a0, &r, o)) }
        "RequestFromClient.method" => { let s: u::RequestFromClient = arg(s, 0)?;  let r = u::RequestFromClient::method(&s); Ok(out!(r)) }
        "RequestFromClient.is_initialize_request" => { let s: u::RequestFromClient = arg(s, 0)?;  let r = u::RequestFromClient::is_initialize_request(&s); Ok(out!(r)) }
        "ClientJsonrpcNotification.new" => { let a0: u::NotificationFromClient = arg(a, 0)?; let r = u::ClientJsonrpcNotification::new(a0); Ok(out!(r)) }
        "ClientJsonrpcNotification.jsonrpc" => { let s: u::ClientJsonrpcNotification = arg(s, 0)?;  let r = u::ClientJsonrpcNotification::jsonrpc(&s); Ok(out!(r)) }
        "ClientJsonrpcNotification.is_initialized_notification" => { let s: u::ClientJsonrpcNotification = arg(s, 0)?;  let r = u::ClientJsonrpcNotification::is_initialized_notification(&s); Ok(out!(r)) }
        "ClientJsonrpcNotification.method" => { let s: u::ClientJsonrpcNotification = arg(s, 0)?;  let r = u::ClientJsonrpcNotification::method(&s); Ok(out!(r)) }
        "NotificationFromClient.From<ClientJsonrpcNotification>" => { let a0: u::ClientJsonrpcNotification = arg(a, 0)?; let r: u::NotificationFromClient = From::from(a0); Ok(out!(r)) }
        "ClientJsonrpcNotification.Display" => { let s: u::ClientJsonrpcNotification = arg(s, 0)?; Ok(s.to_string().view()) }
        "ClientJsonrpcNotification.FromStr" => { let a0: String = arg(a, 0)?; let r: Result<u::ClientJsonrpcNotification, _> = std::str::FromStr::from_str(&a0); let o = out!(r); Ok(readers(&a0, &r, o)) }
        "NotificationFromClient.is_initialized_notification" => { let s: u::NotificationFromClient = arg(s, 0)?;  let r = u::NotificationFromClient::is_initialized_notification(&s); Ok(out!(r)) }
        "NotificationFromClient.method" => { let s: u::NotificationFromClient = arg(s, 0)?;  let r = u::NotificationFromClient::method(&s); Ok(out!(r)) }
        "ClientJsonrpcResponse.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: u::ResultFromClient = arg(a, 1)?; let r = u::ClientJsonrpcResponse::new(a0, a1); Ok(out!(r)) }
        "ClientJsonrpcResponse.jsonrpc" => { let s: u::ClientJsonrpcResponse = arg(s, 0)?;  let r = u::ClientJsonrpcResponse::jsonrpc(&s); Ok(out!(r)) }
        "ClientJsonrpcResponse.Display" => { let s: u::ClientJsonrpcResponse = arg(s, 0)?; Ok(s.to_string().view()) }
        "ClientJsonrpcResponse.FromStr" => { let a0: String = arg(a, 0)?; let r: Result<u::ClientJsonrpcResponse, _> = std::str::FromStr::from_str(&a0); let o = out!(r); Ok(readers(&a0, &r, o)) }
        "ClientTaskResult.TryFrom<ResultFromClient>" => { let a0: u::ResultFromClient = arg(a, 0)?; let r: Result<u::ClientTaskResult, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "ResultFromClient.From<ClientTaskResult>" => { let a0: u::ClientTaskResult = arg(a, 0)?; let r: u::ResultFromClient = From::from(a0); Ok(out!(r)) }
        "ClientMessage.FromStr" => { let a0: String = arg(a, 0)?; let r: Result<u::ClientMessage, _> = std::str::FromStr::from_str(&a0); let o = out!(r); Ok(readers(&a0, &r, o)) }
        "ClientMessage.Display" => { let s: u::ClientMessage = arg(s, 0)?; Ok(s.to_string().view()) }
        "ServerMessage.as_response" => { let s: u::ServerMessage = arg(s, 0)?;  let r = u::ServerMessage::as_response(s); Ok(out!(r)) }
        "ServerMessage.as_request" => { let s: u::ServerMessage = arg(s, 0)?;  let r = u::ServerMessage::as_request(s); Ok(out!(r)) }
        "ServerMessage.as_notification" => { let s: u::ServerMessage = arg(s, 0)?;  let r = u::ServerMessage::as_notification(s); Ok(out!(r)) }
        "ServerMessage.as_error" => { let s: u::ServerMessage = arg(s, 0)?;  let r = u::ServerMessage::as_error(s); Ok(out!(r)) }
        "ServerMessage.From<ServerJsonrpcNotification>" => { let a0: u::ServerJsonrpcNotification = arg(a, 0)?; let r: u::ServerMessage = From::from(a0); Ok(out!(r)) }
        "ServerMessage.From<ServerJsonrpcRequest>" => { let a0: u::ServerJsonrpcRequest = arg(a, 0)?; let r: u::ServerMessage = From::from(a0); Ok(out!(r)) }
        "ServerMessage.From<ServerJsonrpcResponse>" => { let a0: u::ServerJsonrpcResponse = arg(a, 0)?; let r: u::ServerMessage = From::from(a0); Ok(out!(r)) }
        "ServerMessage.request_id" => { let s: u::ServerMessage = arg(s, 0)?;  let r = <u::ServerMessage as u::RpcMessage>::request_id(&s); Ok(out!(r)) }
        "ServerMessage.jsonrpc" => { let s: u::ServerMessage = arg(s, 0)?;  let r = <u::ServerMessage as u::RpcMessage>::jsonrpc(&s); Ok(out!(r)) }
        "ServerMessage.method" => { let s: u::ServerMessage = arg(s, 0)?;  let r = <u::ServerMessage as u::RpcMessage>::method(&s); Ok(out!(r)) }
        "ServerMessage.is_response" => { let s: u::ServerMessage = arg(s, 0)?;  let r = <u::ServerMessage as u::McpMessage>::is_response(&s); Ok(out!(r)) }
        "ServerMessage.is_request" => { let s: u::ServerMessage = arg(s, 0)?;  let r = <u::ServerMessage as u::McpMessage>::is_request(&s); Ok(out!(r)) }
        "ServerMessage.is_notification" => { let s: u::ServerMessage = arg(s, 0)?;  let r = <u::ServerMessage as u::McpMessage>::is_notification(&s); Ok(out!(r)) }
        "ServerMessage.is_error" => { let s: u::ServerMessage = arg(s, 0)?;  let r = <u::ServerMessage as u::McpMessage>::is_error(&s); Ok(out!(r)) }
        "ServerMessage.message_type" => { let s: u::ServerMessage = arg(s, 0)?;  let r = <u::ServerMessage as u::McpMessage>::message_type(&s); Ok(out!(r)) }
        "ServerMessage.FromStr" => { let a0: String = arg(a, 0)?; let r: Result<u::ServerMessage, _> = std::str::FromStr::from_str(&a0); let o = out!(r); Ok(readers(&a0, &r, o)) }
        "ServerMessage.Display" => { let s: u::ServerMessage = arg(s, 0)?; Ok(s.to_string().view()) }
        "ServerJsonrpcRequest.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: u::RequestFromServer = arg(a, 1)?; let r = u::ServerJsonrpcRequest::new(a0, a1); Ok(out!(r)) }
        "ServerJsonrpcRequest.request_id" => { let s: u::ServerJsonrpcRequest = arg(s, 0)?;  let r = u::ServerJsonrpcRequest::request_id(&s); Ok(out!(r)) }
        "ServerJsonrpcRequest.jsonrpc" => { let s: u::ServerJsonrpcRequest = arg(s, 0)?;  let r = u::ServerJsonrpcRequest::jsonrpc(&s); Ok(out!(r)) }
        "ServerJsonrpcRequest.is_task_augmented" => { let s: u::ServerJsonrpcRequest = arg(s, 0)?;  let r = u::ServerJsonrpcRequest::is_task_augmented(&s); Ok(out!(r)) }
        "ServerJsonrpcRequest.method" => { let s: u::ServerJsonrpcRequest = arg(s, 0)?;  let r = u::ServerJsonrpcRequest::method(&s); Ok(out!(r)) }
        "ServerJsonrpcRequest.Display" => { let s: u::ServerJsonrpcRequest = arg(s, 0)?; Ok(s.to_string().view()) }
        "ServerJsonrpcRequest.FromStr" => { let a0: String = arg(a, 0)?; let r: Result<u::ServerJsonrpcRequest, _> = std::str::FromStr::from_str(&a0); let o = out!(r); Ok(readers(&a0, &r, o)) }
        "RequestFromServer.From<ServerJsonrpcRequest>" => { let a0: u::ServerJsonrpcRequest = arg(a, 0)?; let r: u::RequestFromServer = From::from(a0); Ok(out!(r)) }
        "RequestFromServer.method" => { let s: u::RequestFromServer = arg(s, 0)?;  let r = u::RequestFromServer::method(&s); Ok(out!(r)) }
        "NotificationFromServer.From<ServerJsonrpcNotification>" => { let a0: u::ServerJsonrpcNotification = arg(a, 0)?; let r: u::NotificationFromServer = From::from(a0); Ok(out!(r)) }
        "ServerJsonrpcNotification.new" => { let a0: u::NotificationFromServer = arg(a, 0)?; let r = u::ServerJsonrpcNotification::new(a0); Ok(out!(r)) }
        "ServerJsonrpcNotification.jsonrpc" => { let s: u::ServerJsonrpcNotification = arg(s, 0)?;  let r = u::ServerJsonrpcNotification::jsonrpc(&s); Ok(out!(r)) }
        "ServerJsonrpcNotification.Display" => { let s: u::ServerJsonrpcNotification = arg(s, 0)?; Ok(s.to_string().view()) }
        "ServerJsonrpcNotification.FromStr" => { let a0: String = arg(a, 0)?; let r: Result<u::ServerJsonrpcNotification, _> = std::str::FromStr::from_str(&a0); let o = out!(r); Ok(readers(&a0, &r, o)) }
        "NotificationFromServer.method" => { let s: u::NotificationFromServer = arg(s, 0)?;  let r = u::NotificationFromServer::method(&s); Ok(out!(r)) }
        "ServerJsonrpcResponse.new" => { let a0: m::RequestId = arg(a, 0)?; let a1: u::ResultFromServer = arg(a, 1)?; let r = u::ServerJsonrpcResponse::new(a0, a1); Ok(out!(r)) }
        "ServerJsonrpcResponse.jsonrpc" => { let s: u::ServerJsonrpcResponse = arg(s, 0)?;  let r = u::ServerJsonrpcResponse::jsonrpc(&s); Ok(out!(r)) }
        "ServerJsonrpcResponse.Display" => { let s: u::ServerJsonrpcResponse = arg(s, 0)?; Ok(s.to_string().view()) }
        "ServerJsonrpcResponse.FromStr" => { let a0: String = arg(a, 0)?; let r: Result<u::ServerJsonrpcResponse, _> = std::str::FromStr::from_str(&a0); let o = out!(r); Ok(readers(&a0, &r, o)) }
        "JsonrpcErrorResponse.Display" => { let s: m::JsonrpcErrorResponse = arg(s, 0)?; Ok(s.to_string().view()) }
        "JsonrpcErrorResponse.FromStr" => { let a0: String = arg(a, 0)?; let r: Result<m::JsonrpcErrorResponse, _> = std::str::FromStr::from_str(&a0); let o = out!(r); Ok(readers(&a0, &r, o)) }
        "MessageFromServer.From<RequestFromServer>" => { let a0: u::RequestFromServer = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.From<ResultFromServer>" => { let a0: u::ResultFromServer = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.From<NotificationFromServer>" => { let a0: u::NotificationFromServer = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.From<RpcError>" => { let a0: m::RpcError = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.is_response" => { let s: u::MessageFromServer = arg(s, 0)?;  let r = <u::MessageFromServer as u::McpMessage>::is_response(&s); Ok(out!(r)) }
        "MessageFromServer.is_request" => { let s: u::MessageFromServer = arg(s, 0)?;  let r = <u::MessageFromServer as u::McpMessage>::is_request(&s); Ok(out!(r)) }
        "MessageFromServer.is_notification" => { let s: u::MessageFromServer = arg(s, 0)?;  let r = <u::MessageFromServer as u::McpMessage>::is_notification(&s); Ok(out!(r)) }
        "MessageFromServer.is_error" => { let s: u::MessageFromServer = arg(s, 0)?;  let r = <u::MessageFromServer as u::McpMessage>::is_error(&s); Ok(out!(r)) }
        "MessageFromServer.message_type" => { let s: u::MessageFromServer = arg(s, 0)?;  let r = <u::MessageFromServer as u::McpMessage>::message_type(&s); Ok(out!(r)) }
        "ServerMessage.FromMessage<MessageFromServer>" => { let a0: u::MessageFromServer = arg(a, 0)?; let a1: Option<m::RequestId> = arg(a, 1)?; let r = <u::ServerMessage as u::FromMessage<u::MessageFromServer>>::from_message(a0, a1); Ok(out!(r)) }
        "MessageFromClient.is_initialize_request" => { let s: u::MessageFromClient = arg(s, 0)?;  let r = u::MessageFromClient::is_initialize_request(&s); Ok(out!(r)) }
        "MessageFromClient.is_initialized_notification" => { let s: u::MessageFromClient = arg(s, 0)?;  let r = u::MessageFromClient::is_initialized_notification(&s); Ok(out!(r)) }
        "MessageFromClient.From<RequestFromClient>" => { let a0: u::RequestFromClient = arg(a, 0)?; let r: u::MessageFromClient = From::from(a0); Ok(out!(r)) }
        "MessageFromClient.From<ResultFromClient>" => { let a0: u::ResultFromClient = arg(a, 0)?; let r: u::MessageFromClient = From::from(a0); Ok(out!(r)) }
        "MessageFromClient.From<NotificationFromClient>" => { let a0: u::NotificationFromClient = arg(a, 0)?; let r: u::MessageFromClient = From::from(a0); Ok(out!(r)) }
        "MessageFromClient.From<RpcError>" => { let a0: m::RpcError = arg(a, 0)?; let r: u::MessageFromClient = From::from(a0); Ok(out!(r)) }
        "MessageFromClient.is_response" => { let s: u::MessageFromClient = arg(s, 0)?;  let r = <u::MessageFromClient as u::McpMessage>::is_response(&s); Ok(out!(r)) }
        "MessageFromClient.is_request" => { let s: u::MessageFromClient = arg(s, 0)?;  let r = <u::MessageFromClient as u::McpMessage>::is_request(&s); Ok(out!(r)) }
        "MessageFromClient.is_notification" => { let s: u::MessageFromClient = arg(s, 0)?;  let r = <u::MessageFromClient as u::McpMessage>::is_notification(&s); Ok(out!(r)) }
        "MessageFromClient.is_error" => { let s: u::MessageFromClient = arg(s, 0)?;  let r = <u::MessageFromClient as u::McpMessage>::is_error(&s); Ok(out!(r)) }
        "MessageFromClient.message_type" => { let s: u::MessageFromClient = arg(s, 0)?;  let r = <u::MessageFromClient as u::McpMessage>::message_type(&s); Ok(out!(r)) }
        "ClientMessage.FromMessage<MessageFromClient>" => { let a0: u::MessageFromClient = arg(a, 0)?; let a1: Option<m::RequestId> = arg(a, 1)?; let r = <u::ClientMessage as u::FromMessage<u::MessageFromClient>>::from_message(a0, a1); Ok(out!(r)) }
        "UnknownTool.Display" => { let s: u::UnknownTool = arg(s, 0)?; Ok(s.to_string().view()) }
        "CallToolError.unknown_tool" => { let a0: String = arg(a, 0)?; let r = u::CallToolError::unknown_tool(a0); Ok(out!(r)) }
        "CallToolError.unsupported_task_augmented_tool_call" => {  let r = u::CallToolError::unsupported_task_augmented_tool_call(); Ok(out!(r)) }
        "CallToolError.invalid_arguments" => { let a0: String = arg(a, 0)?; let a1: Option<String> = arg(a, 1)?; let r = u::CallToolError::invalid_arguments(a0, a1); Ok(out!(r)) }
        "CallToolError.from_message" => { let a0: String = arg(a, 0)?; let r = u::CallToolError::from_message(a0); Ok(out!(r)) }
        "RpcError.From<CallToolError>" => { let a0: u::CallToolError = arg(a, 0)?; let r: m::RpcError = From::from(a0); Ok(out!(r)) }
        "CallToolResult.From<CallToolError>" => { let a0: u::CallToolError = arg(a, 0)?; let r: m::CallToolResult = From::from(a0); Ok(out!(r)) }
        "CallToolError.Display" => { let s: u::CallToolError = arg(s, 0)?; Ok(s.to_string().view()) }
        "CallToolRequest.tool_name" => { let s: m::CallToolRequest = arg(s, 0)?;  let r = m::CallToolRequest::tool_name(&s); Ok(out!(r)) }
        "TextContent.From<T>" => { let a0: String = arg(a, 0)?; let r: m::TextContent = From::from(a0); Ok(out!(r)) }
        "TextResourceContents.new" => { let a0: String = arg(a, 0)?; let a1: String = arg(a, 1)?; let r = m::TextResourceContents::new(a0, a1); Ok(out!(r)) }
        "TextResourceContents.with_meta" => { let s: m::TextResourceContents = arg(s, 0)?; let a0: serde_json::Map<String,serde_json::Value> = arg(a, 0)?; let r = m::TextResourceContents::with_meta(s, a0); Ok(out!(r)) }
        "TextResourceContents.with_mime_type" => { let s: m::TextResourceContents = arg(s, 0)?; let a0: String = arg(a, 0)?; let r = m::TextResourceContents::with_mime_type(s, a0); Ok(out!(r)) }
        "TextResourceContents.with_uri" => { let s: m::TextResourceContents = arg(s, 0)?; let a0: String = arg(a, 0)?; let r = m::TextResourceContents::with_uri(s, a0); Ok(out!(r)) }
        "BlobResourceContents.new" => { let a0: String = arg(a, 0)?; let a1: String = arg(a, 1)?; let r = m::BlobResourceContents::new(a0, a1); Ok(out!(r)) }
        "BlobResourceContents.with_meta" => { let s: m::BlobResourceContents = arg(s, 0)?; let a0: serde_json::Map<String,serde_json::Value> = arg(a, 0)?; let r = m::BlobResourceContents::with_meta(s, a0); Ok(out!(r)) }
        "BlobResourceContents.with_mime_type" => { let s: m::BlobResourceContents = arg(s, 0)?; let a0: String = arg(a, 0)?; let r = m::BlobResourceContents::with_mime_type(s, a0); Ok(out!(r)) }
        "BlobResourceContents.with_uri" => { let s: m::BlobResourceContents = arg(s, 0)?; let a0: String = arg(a, 0)?; let r = m::BlobResourceContents::with_uri(s, a0); Ok(out!(r)) }
        "ClientMessages.is_batch" => { let s: u::ClientMessages = arg(s, 0)?;  let r = u::ClientMessages::is_batch(&s); Ok(out!(r)) }
        "ClientMessages.includes_request" => { let s: u::ClientMessages = arg(s, 0)?;  let r = u::ClientMessages::includes_request(&s); Ok(out!(r)) }
        "ClientMessages.as_single" => { let s: u::ClientMessages = arg(s, 0)?;  let r = u::ClientMessages::as_single(s); Ok(out!(r)) }
        "ClientMessages.as_batch" => { let s: u::ClientMessages = arg(s, 0)?;  let r = u::ClientMessages::as_batch(s); Ok(out!(r)) }
        "ClientMessages.From<ClientMessage>" => { let a0: u::ClientMessage = arg(a, 0)?; let r: u::ClientMessages = From::from(a0); Ok(out!(r)) }
        "ClientMessages.From<Vec<ClientMessage>>" => { let a0: Vec<u::ClientMessage> = arg(a, 0)?; let r: u::ClientMessages = From::from(a0); Ok(out!(r)) }
        "ClientMessages.Display" => { let s: u::ClientMessages = arg(s, 0)?; Ok(s.to_string().view()) }
        "ServerMessages.is_batch" => { let s: u::ServerMessages = arg(s, 0)?;  let r = u::ServerMessages::is_batch(&s); Ok(out!(r)) }
        "ServerMessages.includes_request" => { let s: u::ServerMessages = arg(s, 0)?;  let r = u::ServerMessages::includes_request(&s); Ok(out!(r)) }
        "ServerMessages.as_single" => { let s: u::ServerMessages = arg(s, 0)?;  let r = u::ServerMessages::as_single(s); Ok(out!(r)) }
        "ServerMessages.as_batch" => { let s: u::ServerMessages = arg(s, 0)?;  let r = u::ServerMessages::as_batch(s); Ok(out!(r)) }
        "ServerMessages.From<ServerMessage>" => { let a0: u::ServerMessage = arg(a, 0)?; let r: u::ServerMessages = From::from(a0); Ok(out!(r)) }
        "ServerMessages.From<Vec<ServerMessage>>" => { let a0: Vec<u::ServerMessage> = arg(a, 0)?; let r: u::ServerMessages = From::from(a0); Ok(out!(r)) }
        "ServerMessages.Display" => { let s: u::ServerMessages = arg(s, 0)?; Ok(s.to_string().view()) }
        "MessagesFromServer.is_batch" => { let s: u::MessagesFromServer = arg(s, 0)?;  let r = u::MessagesFromServer::is_batch(&s); Ok(out!(r)) }
        "MessagesFromServer.includes_request" => { let s: u::MessagesFromServer = arg(s, 0)?;  let r = u::MessagesFromServer::includes_request(&s); Ok(out!(r)) }
        "MessagesFromServer.as_single" => { let s: u::MessagesFromServer = arg(s, 0)?;  let r = u::MessagesFromServer::as_single(s); Ok(out!(r)) }
        "MessagesFromServer.as_batch" => { let s: u::MessagesFromServer = arg(s, 0)?;  let r = u::MessagesFromServer::as_batch(s); Ok(out!(r)) }
        "MessagesFromServer.From<MessageFromServer>" => { let a0: u::MessageFromServer = arg(a, 0)?; let r: u::MessagesFromServer = From::from(a0); Ok(out!(r)) }
        "MessagesFromServer.From<Vec<MessageFromServer>>" => { let a0: Vec<u::MessageFromServer> = arg(a, 0)?; let r: u::MessagesFromServer = From::from(a0); Ok(out!(r)) }
        "MessagesFromClient.is_batch" => { let s: u::MessagesFromClient = arg(s, 0)?;  let r = u::MessagesFromClient::is_batch(&s); Ok(out!(r)) }
        "MessagesFromClient.includes_request" => { let s: u::MessagesFromClient = arg(s, 0)?;  let r = u::MessagesFromClient::includes_request(&s); Ok(out!(r)) }
        "MessagesFromClient.as_single" => { let s: u::MessagesFromClient = arg(s, 0)?;  let r = u::MessagesFromClient::as_single(s); Ok(out!(r)) }
        "MessagesFromClient.as_batch" => { let s: u::MessagesFromClient = arg(s, 0)?;  let r = u::MessagesFromClient::as_batch(s); Ok(out!(r)) }
        "MessagesFromClient.From<MessageFromClient>" => { let a0: u::MessageFromClient = arg(a, 0)?; let r: u::MessagesFromClient = From::from(a0); Ok(out!(r)) }
        "MessagesFromClient.From<Vec<MessageFromClient>>" => { let a0: Vec<u::MessageFromClient> = arg(a, 0)?; let r: u::MessagesFromClient = From::from(a0); Ok(out!(r)) }
        "StringSchemaFormat.FromStr" => { let a0: String = arg(a, 0)?; let r: Result<m::StringSchemaFormat, _> = std::str::FromStr::from_str(&a0); Ok(out!(r)) }
        "PrimitiveSchemaDefinition.TryFrom<&Map<String,Value>>" => { let a0: serde_json::Map<String,serde_json::Value> = arg(a, 0)?; let r: Result<m::PrimitiveSchemaDefinition, _> = TryFrom::try_from(&a0); Ok(out!(r)) }
        "RequestFromServer.is_task_augmented" => { let s: u::RequestFromServer = arg(s, 0)?;  let r = u::RequestFromServer::is_task_augmented(&s); Ok(out!(r)) }
        "MessageFromServer.is_task_augmented" => { let s: u::MessageFromServer = arg(s, 0)?;  let r = u::MessageFromServer::is_task_augmented(&s); Ok(out!(r)) }
        "CallToolRequest.is_task_augmented" => { let s: m::CallToolRequest = arg(s, 0)?;  let r = m::CallToolRequest::is_task_augmented(&s); Ok(out!(r)) }
        "CallToolRequestParams.is_task_augmented" => { let s: m::CallToolRequestParams = arg(s, 0)?;  let r = m::CallToolRequestParams::is_task_augmented(&s); Ok(out!(r)) }
        "CreateMessageRequestParams.is_task_augmented" => { let s: m::CreateMessageRequestParams = arg(s, 0)?;  let r = m::CreateMessageRequestParams::is_task_augmented(&s); Ok(out!(r)) }
        "ElicitRequestParams.is_task_augmented" => { let s: m::ElicitRequestParams = arg(s, 0)?;  let r = m::ElicitRequestParams::is_task_augmented(&s); Ok(out!(r)) }
        "ElicitRequestParams.message" => { let s: m::ElicitRequestParams = arg(s, 0)?;  let r = m::ElicitRequestParams::message(&s); Ok(out!(r)) }
        "ElicitRequestParams.with_task" => { let s: m::ElicitRequestParams = arg(s, 0)?; let a0: m::TaskMetadata = arg(a, 0)?; let r = m::ElicitRequestParams::with_task(s, a0); Ok(out!(r)) }
        "ElicitRequestUrlParams.with_task" => { let s: m::ElicitRequestUrlParams = arg(s, 0)?; let a0: m::TaskMetadata = arg(a, 0)?; let r = m::ElicitRequestUrlParams::with_task(s, a0); Ok(out!(r)) }
        "ElicitRequestFormParams.with_task" => { let s: m::ElicitRequestFormParams = arg(s, 0)?; let a0: m::TaskMetadata = arg(a, 0)?; let r = m::ElicitRequestFormParams::with_task(s, a0); Ok(out!(r)) }
        "ServerCapabilities.can_list_tasks" => { let s: m::ServerCapabilities = arg(s, 0)?;  let r = m::ServerCapabilities::can_list_tasks(&s); Ok(out!(r)) }
        "ServerCapabilities.can_cancel_tasks" => { let s: m::ServerCapabilities = arg(s, 0)?;  let r = m::ServerCapabilities::can_cancel_tasks(&s); Ok(out!(r)) }
        "ServerCapabilities.can_run_task_augmented_tools" => { let s: m::ServerCapabilities = arg(s, 0)?;  let r = m::ServerCapabilities::can_run_task_augmented_tools(&s); Ok(out!(r)) }
        "ServerCapabilities.can_handle_request" => { let s: m::ServerCapabilities = arg(s, 0)?; let a0: u::ClientJsonrpcRequest = arg(a, 0)?; let r = m::ServerCapabilities::can_handle_request(&s, &a0); Ok(out!(r)) }
        "ServerCapabilities.can_accept_notification" => { let s: m::ServerCapabilities = arg(s, 0)?; let a0: String = arg(a, 0)?; let r = m::ServerCapabilities::can_accept_notification(&s, a0.as_str()); Ok(out!(r)) }
        "ServerTasks.can_list_tasks" => { let s: m::ServerTasks = arg(s, 0)?;  let r = m::ServerTasks::can_list_tasks(&s); Ok(out!(r)) }
        "ServerTasks.can_cancel_tasks" => { let s: m::ServerTasks = arg(s, 0)?;  let r = m::ServerTasks::can_cancel_tasks(&s); Ok(out!(r)) }
        "ServerTasks.can_run_task_augmented_tools" => { let s: m::ServerTasks = arg(s, 0)?;  let r = m::ServerTasks::can_run_task_augmented_tools(&s); Ok(out!(r)) }
        "ClientCapabilities.can_list_tasks" => { let s: m::ClientCapabilities = arg(s, 0)?;  let r = m::ClientCapabilities::can_list_tasks(&s); Ok(out!(r)) }
        "ClientCapabilities.can_cancel_tasks" => { let s: m::ClientCapabilities = arg(s, 0)?;  let r = m::ClientCapabilities::can_cancel_tasks(&s); Ok(out!(r)) }
        "ClientCapabilities.can_accept_elicitation_task" => { let s: m::ClientCapabilities = arg(s, 0)?;  let r = m::ClientCapabilities::can_accept_elicitation_task(&s); Ok(out!(r)) }
        "ClientCapabilities.can_accept_sampling_task" => { let s: m::ClientCapabilities = arg(s, 0)?;  let r = m::ClientCapabilities::can_accept_sampling_task(&s); Ok(out!(r)) }
        "ClientCapabilities.can_handle_request" => { let s: m::ClientCapabilities = arg(s, 0)?; let a0: u::ServerJsonrpcRequest = arg(a, 0)?; let r = m::ClientCapabilities::can_handle_request(&s, &a0); Ok(out!(r)) }
        "ClientCapabilities.can_accept_notification" => { let s: m::ClientCapabilities = arg(s, 0)?; let a0: String = arg(a, 0)?; let r = m::ClientCapabilities::can_accept_notification(&s, a0.as_str()); Ok(out!(r)) }
        "ClientTasks.can_list_tasks" => { let s: m::ClientTasks = arg(s, 0)?;  let r = m::ClientTasks::can_list_tasks(&s); Ok(out!(r)) }
        "ClientTasks.can_cancel_tasks" => { let s: m::ClientTasks = arg(s, 0)?;  let r = m::ClientTasks::can_cancel_tasks(&s); Ok(out!(r)) }
        "ClientTasks.can_accept_elicitation_task" => { let s: m::ClientTasks = arg(s, 0)?;  let r = m::ClientTasks::can_accept_elicitation_task(&s); Ok(out!(r)) }
        "ClientTasks.can_accept_sampling_task" => { let s: m::ClientTasks = arg(s, 0)?;  let r = m::ClientTasks::can_accept_sampling_task(&s); Ok(out!(r)) }
        "CustomRequest.From<JsonrpcRequest>" => { let a0: m::JsonrpcRequest = arg(a, 0)?; let r: u::CustomRequest = From::from(a0); Ok(out!(r)) }
        "CustomNotification.From<JsonrpcNotification>" => { let a0: m::JsonrpcNotification = arg(a, 0)?; let r: u::CustomNotification = From::from(a0); Ok(out!(r)) }
        "TaskStatus.is_terminal" => { let s: m::TaskStatus = arg(s, 0)?;  let r = m::TaskStatus::is_terminal(&s); Ok(out!(r)) }
        "Task.is_terminal" => { let s: m::Task = arg(s, 0)?;  let r = m::Task::is_terminal(&s); Ok(out!(r)) }
        "GetTaskResult.is_terminal" => { let s: m::GetTaskResult = arg(s, 0)?;  let r = m::GetTaskResult::is_terminal(&s); Ok(out!(r)) }
        "GetTaskPayloadResult.related_task_id" => { let s: m::GetTaskPayloadResult = arg(s, 0)?;  let r = m::GetTaskPayloadResult::related_task_id(&s); Ok(out!(r)) }
        "GetTaskPayloadResult.set_related_task_id" => { let mut s: m::GetTaskPayloadResult = arg(s, 0)?; let a0: String = arg(a, 0)?; let r = m::GetTaskPayloadResult::set_related_task_id(&mut s, a0).view(); Ok(V::Array(vec!["R".into(), r, out!(s)])) }
        "Map.related_task_id" => { let s: serde_json::Map<String,serde_json::Value> = arg(s, 0)?;  let r = <serde_json::Map<String,serde_json::Value> as u::McpMetaEx>::related_task_id(&s); Ok(out!(r)) }
        "Map.set_related_task_id" => { let mut s: serde_json::Map<String,serde_json::Value> = arg(s, 0)?; let a0: String = arg(a, 0)?; let r = <serde_json::Map<String,serde_json::Value> as u::McpMetaEx>::set_related_task_id(&mut s, a0).view(); Ok(V::Array(vec!["R".into(), r, out!(s)])) }
        "Map.with_related_task_id" => { let s: serde_json::Map<String,serde_json::Value> = arg(s, 0)?; let a0: String = arg(a, 0)?; let r = <serde_json::Map<String,serde_json::Value> as u::McpMetaEx>::with_related_task_id(s, a0); Ok(out!(r)) }
        "Map.add" => { let s: serde_json::Map<String,serde_json::Value> = arg(s, 0)?; let a0: String = arg(a, 0)?; let a1: serde_json::Value = arg(a, 1)?; let r = <serde_json::Map<String,serde_json::Value> as u::McpMetaEx>::add(s, a0, a1); Ok(out!(r)) }
        "Map.add_if" => { let s: serde_json::Map<String,serde_json::Value> = arg(s, 0)?; let a0: bool = arg(a, 0)?; let a1: String = arg(a, 1)?; let a2: serde_json::Value = arg(a, 2)?; let r = <serde_json::Map<String,serde_json::Value> as u::McpMetaEx>::add_if(s, a0, a1, a2); Ok(out!(r)) }
        "Map.add_raw" => { let s: serde_json::Map<String,serde_json::Value> = arg(s, 0)?; let a0: String = arg(a, 0)?; let a1: serde_json::Value = arg(a, 1)?; let r = <serde_json::Map<String,serde_json::Value> as u::McpMetaEx>::add_raw(s, a0, a1); Ok(out!(r)) }
        "Role.FromStr" => { let a0: String = arg(a, 0)?; let r: Result<m::Role, _> = std::str::FromStr::from_str(&a0); Ok(out!(r)) }
        "ResultFromClient.From<Result>" => { let a0: m::Result = arg(a, 0)?; let r: u::ResultFromClient = From::from(a0); Ok(out!(r)) }
        "ResultFromClient.From<GetTaskResult>" => { let a0: m::GetTaskResult = arg(a, 0)?; let r: u::ResultFromClient = From::from(a0); Ok(out!(r)) }
        "ResultFromClient.From<GetTaskPayloadResult>" => { let a0: m::GetTaskPayloadResult = arg(a, 0)?; let r: u::ResultFromClient = From::from(a0); Ok(out!(r)) }
        "ResultFromClient.From<CancelTaskResult>" => { let a0: m::CancelTaskResult = arg(a, 0)?; let r: u::ResultFromClient = From::from(a0); Ok(out!(r)) }
        "ResultFromClient.From<ListTasksResult>" => { let a0: m::ListTasksResult = arg(a, 0)?; let r: u::ResultFromClient = From::from(a0); Ok(out!(r)) }
        "ResultFromClient.From<CreateMessageResult>" => { let a0: m::CreateMessageResult = arg(a, 0)?; let r: u::ResultFromClient = From::from(a0); Ok(out!(r)) }
        "ResultFromClient.From<ListRootsResult>" => { let a0: m::ListRootsResult = arg(a, 0)?; let r: u::ResultFromClient = From::from(a0); Ok(out!(r)) }
        "ResultFromClient.From<ElicitResult>" => { let a0: m::ElicitResult = arg(a, 0)?; let r: u::ResultFromClient = From::from(a0); Ok(out!(r)) }
        "ResultFromClient.From<CreateTaskResult>" => { let a0: m::CreateTaskResult = arg(a, 0)?; let r: u::ResultFromClient = From::from(a0); Ok(out!(r)) }
        "MessageFromClient.From<Result>" => { let a0: m::Result = arg(a, 0)?; let r: u::MessageFromClient = From::from(a0); Ok(out!(r)) }
        "MessageFromClient.From<GetTaskResult>" => { let a0: m::GetTaskResult = arg(a, 0)?; let r: u::MessageFromClient = From::from(a0); Ok(out!(r)) }
        "MessageFromClient.From<GetTaskPayloadResult>" => { let a0: m::GetTaskPayloadResult = arg(a, 0)?; let r: u::MessageFromClient = From::from(a0); Ok(out!(r)) }
        "MessageFromClient.From<CancelTaskResult>" => { let a0: m::CancelTaskResult = arg(a, 0)?; let r: u::MessageFromClient = From::from(a0); Ok(out!(r)) }
        "MessageFromClient.From<ListTasksResult>" => { let a0: m::ListTasksResult = arg(a, 0)?; let r: u::MessageFromClient = From::from(a0); Ok(out!(r)) }
        "MessageFromClient.From<CreateMessageResult>" => { let a0: m::CreateMessageResult = arg(a, 0)?; let r: u::MessageFromClient = From::from(a0); Ok(out!(r)) }
        "MessageFromClient.From<ListRootsResult>" => { let a0: m::ListRootsResult = arg(a, 0)?; let r: u::MessageFromClient = From::from(a0); Ok(out!(r)) }
        "MessageFromClient.From<ElicitResult>" => { let a0: m::ElicitResult = arg(a, 0)?; let r: u::MessageFromClient = From::from(a0); Ok(out!(r)) }
        "MessageFromClient.From<CreateTaskResult>" => { let a0: m::CreateTaskResult = arg(a, 0)?; let r: u::MessageFromClient = From::from(a0); Ok(out!(r)) }
        "ServerJsonrpcRequest.From<PingRequest>" => { let a0: m::PingRequest = arg(a, 0)?; let r: u::ServerJsonrpcRequest = From::from(a0); Ok(out!(r)) }
        "ServerJsonrpcRequest.From<GetTaskRequest>" => { let a0: m::GetTaskRequest = arg(a, 0)?; let r: u::ServerJsonrpcRequest = From::from(a0); Ok(out!(r)) }
        "ServerJsonrpcRequest.From<GetTaskPayloadRequest>" => { let a0: m::GetTaskPayloadRequest = arg(a, 0)?; let r: u::ServerJsonrpcRequest = From::from(a0); Ok(out!(r)) }
        "ServerJsonrpcRequest.From<CancelTaskRequest>" => { let a0: m::CancelTaskRequest = arg(a, 0)?; let r: u::ServerJsonrpcRequest = From::from(a0); Ok(out!(r)) }
        "ServerJsonrpcRequest.From<ListTasksRequest>" => { let a0: m::ListTasksRequest = arg(a, 0)?; let r: u::ServerJsonrpcRequest = From::from(a0); Ok(out!(r)) }
        "ServerJsonrpcRequest.From<CreateMessageRequest>" => { let a0: m::CreateMessageRequest = arg(a, 0)?; let r: u::ServerJsonrpcRequest = From::from(a0); Ok(out!(r)) }
        "ServerJsonrpcRequest.From<ListRootsRequest>" => { let a0: m::ListRootsRequest = arg(a, 0)?; let r: u::ServerJsonrpcRequest = From::from(a0); Ok(out!(r)) }
        "ServerJsonrpcRequest.From<ElicitRequest>" => { let a0: m::ElicitRequest = arg(a, 0)?; let r: u::ServerJsonrpcRequest = From::from(a0); Ok(out!(r)) }
        "ClientJsonrpcRequest.From<InitializeRequest>" => { let a0: m::InitializeRequest = arg(a, 0)?; let r: u::ClientJsonrpcRequest = From::from(a0); Ok(out!(r)) }
        "ClientJsonrpcRequest.From<PingRequest>" => { let a0: m::PingRequest = arg(a, 0)?; let r: u::ClientJsonrpcRequest = From::from(a0); Ok(out!(r)) }
        "ClientJsonrpcRequest.From<ListResourcesRequest>" => { let a0: m::ListResourcesRequest = arg(a, 0)?; let r: u::ClientJsonrpcRequest = From::from(a0); Ok(out!(r)) }
        "ClientJsonrpcRequest.From<ListResourceTemplatesRequest>" => { let a0: m::ListResourceTemplatesRequest = arg(a, 0)?; let r: u::ClientJsonrpcRequest = From::from(a0); Ok(out!(r)) }
        "ClientJsonrpcRequest.From<ReadResourceRequest>" => { let a0: m::ReadResourceRequest = arg(a, 0)?; let r: u::ClientJsonrpcRequest = From::from(a0); Ok(out!(r)) }
        "ClientJsonrpcRequest.From<SubscribeRequest>" => { let a0: m::SubscribeRequest = arg(a, 0)?; let r: u::ClientJsonrpcRequest = From::from(a0); Ok(out!(r)) }
        "ClientJsonrpcRequest.From<UnsubscribeRequest>" => { let a0: m::UnsubscribeRequest = arg(a, 0)?; let r: u::ClientJsonrpcRequest = From::from(a0); Ok(out!(r)) }
        "ClientJsonrpcRequest.From<ListPromptsRequest>" => { let a0: m::ListPromptsRequest = arg(a, 0)?; let r: u::ClientJsonrpcRequest = From::from(a0); Ok(out!(r)) }
        "ClientJsonrpcRequest.From<GetPromptRequest>" => { let a0: m::GetPromptRequest = arg(a, 0)?; let r: u::ClientJsonrpcRequest = From::from(a0); Ok(out!(r)) }
        "ClientJsonrpcRequest.From<ListToolsRequest>" => { let a0: m::ListToolsRequest = arg(a, 0)?; let r: u::ClientJsonrpcRequest = From::from(a0); Ok(out!(r)) }
        "ClientJsonrpcRequest.From<CallToolRequest>" => { let a0: m::CallToolRequest = arg(a, 0)?; let r: u::ClientJsonrpcRequest = From::from(a0); Ok(out!(r)) }
        "ClientJsonrpcRequest.From<GetTaskRequest>" => { let a0: m::GetTaskRequest = arg(a, 0)?; let r: u::ClientJsonrpcRequest = From::from(a0); Ok(out!(r)) }
        "ClientJsonrpcRequest.From<GetTaskPayloadRequest>" => { let a0: m::GetTaskPayloadRequest = arg(a, 0)?; let r: u::ClientJsonrpcRequest = From::from(a0); Ok(out!(r)) }
        "ClientJsonrpcRequest.From<CancelTaskRequest>" => { let a0: m::CancelTaskRequest = arg(a, 0)?; let r: u::ClientJsonrpcRequest = From::from(a0); Ok(out!(r)) }
        "ClientJsonrpcRequest.From<ListTasksRequest>" => { let a0: m::ListTasksRequest = arg(a, 0)?; let r: u::ClientJsonrpcRequest = From::from(a0); Ok(out!(r)) }
        "ClientJsonrpcRequest.From<SetLevelRequest>" => { let a0: m::SetLevelRequest = arg(a, 0)?; let r: u::ClientJsonrpcRequest = From::from(a0); Ok(out!(r)) }
        "ClientJsonrpcRequest.From<CompleteRequest>" => { let a0: m::CompleteRequest = arg(a, 0)?; let r: u::ClientJsonrpcRequest = From::from(a0); Ok(out!(r)) }
        "i64.From<SdkErrorCodes>" => { let a0: u::SdkErrorCodes = arg(a, 0)?; let r: i64 = From::from(a0); Ok(out!(r)) }
        "SdkError.Display" => { let s: u::SdkError = arg(s, 0)?; Ok(s.to_string().view()) }
        "SdkError.new" => { let a0: u::SdkErrorCodes = arg(a, 0)?; let a1: ::std::string::String = arg(a, 1)?; let a2: ::std::option::Option<::serde_json::Value> = arg(a, 2)?; let r = u::SdkError::new(a0, a1, a2); Ok(out!(r)) }
        "SdkError.connection_closed" => {  let r = u::SdkError::connection_closed(); Ok(out!(r)) }
        "SdkError.request_timeout" => { let a0: u128 = arg(a, 0)?; let r = u::SdkError::request_timeout(a0); Ok(out!(r)) }
        "SdkError.session_not_found" => {  let r = u::SdkError::session_not_found(); Ok(out!(r)) }
        "SdkError.invalid_request" => {  let r = u::SdkError::invalid_request(); Ok(out!(r)) }
        "SdkError.method_not_found" => {  let r = u::SdkError::method_not_found(); Ok(out!(r)) }
        "SdkError.invalid_params" => {  let r = u::SdkError::invalid_params(); Ok(out!(r)) }
        "SdkError.internal_error" => {  let r = u::SdkError::internal_error(); Ok(out!(r)) }
        "SdkError.parse_error" => {  let r = u::SdkError::parse_error(); Ok(out!(r)) }
        "SdkError.url_elicit_required" => { let a0: Vec<m::ElicitRequestUrlParams> = arg(a, 0)?; let r = u::SdkError::url_elicit_required(a0); Ok(out!(r)) }
        "SdkError.resource_not_found" => {  let r = u::SdkError::resource_not_found(); Ok(out!(r)) }
        "SdkError.bad_request" => {  let r = u::SdkError::bad_request(); Ok(out!(r)) }
        "SdkError.with_message" => { let s: u::SdkError = arg(s, 0)?; let a0: String = arg(a, 0)?; let r = u::SdkError::with_message(s, a0.as_str()); Ok(out!(r)) }
        "SdkError.with_data" => { let s: u::SdkError = arg(s, 0)?; let a0: ::std::option::Option<::serde_json::Value> = arg(a, 0)?; let r = u::SdkError::with_data(s, a0); Ok(out!(r)) }
        "i64.From<RpcErrorCodes>" => { let a0: u::RpcErrorCodes = arg(a, 0)?; let r: i64 = From::from(a0); Ok(out!(r)) }
        "RpcError.new" => { let a0: u::RpcErrorCodes = arg(a, 0)?; let a1: ::std::string::String = arg(a, 1)?; let a2: ::std::option::Option<::serde_json::Value> = arg(a, 2)?; let r = m::RpcError::new(a0, a1, a2); Ok(out!(r)) }
        "RpcError.method_not_found" => {  let r = m::RpcError::method_not_found(); Ok(out!(r)) }
        "RpcError.url_elicit_required" => { let a0: Vec<m::ElicitRequestUrlParams> = arg(a, 0)?; let r = m::RpcError::url_elicit_required(a0); Ok(out!(r)) }
        "RpcError.invalid_params" => {  let r = m::RpcError::invalid_params(); Ok(out!(r)) }
        "RpcError.invalid_request" => {  let r = m::RpcError::invalid_request(); Ok(out!(r)) }
        "RpcError.internal_error" => {  let r = m::RpcError::internal_error(); Ok(out!(r)) }
        "RpcError.parse_error" => {  let r = m::RpcError::parse_error(); Ok(out!(r)) }
        "RpcError.with_message" => { let s: m::RpcError = arg(s, 0)?; let a0: String = arg(a, 0)?; let r = m::RpcError::with_message(s, a0); Ok(out!(r)) }
        "RpcError.with_data" => { let s: m::RpcError = arg(s, 0)?; let a0: ::std::option::Option<::serde_json::Value> = arg(a, 0)?; let r = m::RpcError::with_data(s, a0); Ok(out!(r)) }
        "RpcError.Display" => { let s: m::RpcError = arg(s, 0)?; Ok(s.to_string().view()) }
        "RpcError.FromStr" => { let a0: String = arg(a, 0)?; let r: Result<m::RpcError, _> = std::str::FromStr::from_str(&a0); let o = out!(r); Ok(readers(&a0, &r, o)) }
        "JsonrpcErrorResponse.create" => { let a0: Option<m::RequestId> = arg(a, 0)?; let a1: u::RpcErrorCodes = arg(a, 1)?; let a2: ::std::string::String = arg(a, 2)?; let a3: ::std::option::Option<::serde_json::Value> = arg(a, 3)?; let r = m::JsonrpcErrorResponse::create(a0, a1, a2, a3); Ok(out!(r)) }
        "ResultFromServer.From<Result>" => { let a0: m::Result = arg(a, 0)?; let r: u::ResultFromServer = From::from(a0); Ok(out!(r)) }
        "ResultFromServer.From<InitializeResult>" => { let a0: m::InitializeResult = arg(a, 0)?; let r: u::ResultFromServer = From::from(a0); Ok(out!(r)) }
        "ResultFromServer.From<ListResourcesResult>" => { let a0: m::ListResourcesResult = arg(a, 0)?; let r: u::ResultFromServer = From::from(a0); Ok(out!(r)) }
        "ResultFromServer.From<ListResourceTemplatesResult>" => { let a0: m::ListResourceTemplatesResult = arg(a, 0)?; let r: u::ResultFromServer = From::from(a0); Ok(out!(r)) }
        "ResultFromServer.From<ReadResourceResult>" => { let a0: m::ReadResourceResult = arg(a, 0)?; let r: u::ResultFromServer = From::from(a0); Ok(out!(r)) }
        "ResultFromServer.From<ListPromptsResult>" => { let a0: m::ListPromptsResult = arg(a, 0)?; let r: u::ResultFromServer = From::from(a0); Ok(out!(r)) }
        "ResultFromServer.From<GetPromptResult>" => { let a0: m::GetPromptResult = arg(a, 0)?; let r: u::ResultFromServer = From::from(a0); Ok(out!(r)) }
        "ResultFromServer.From<ListToolsResult>" => { let a0: m::ListToolsResult = arg(a, 0)?; let r: u::ResultFromServer = From::from(a0); Ok(out!(r)) }
        "ResultFromServer.From<CallToolResult>" => { let a0: m::CallToolResult = arg(a, 0)?; let r: u::ResultFromServer = From::from(a0); Ok(out!(r)) }
        "ResultFromServer.From<GetTaskResult>" => { let a0: m::GetTaskResult = arg(a, 0)?; let r: u::ResultFromServer = From::from(a0); Ok(out!(r)) }
        "ResultFromServer.From<GetTaskPayloadResult>" => { let a0: m::GetTaskPayloadResult = arg(a, 0)?; let r: u::ResultFromServer = From::from(a0); Ok(out!(r)) }
        "ResultFromServer.From<CancelTaskResult>" => { let a0: m::CancelTaskResult = arg(a, 0)?; let r: u::ResultFromServer = From::from(a0); Ok(out!(r)) }
        "ResultFromServer.From<ListTasksResult>" => { let a0: m::ListTasksResult = arg(a, 0)?; let r: u::ResultFromServer = From::from(a0); Ok(out!(r)) }
        "ResultFromServer.From<CompleteResult>" => { let a0: m::CompleteResult = arg(a, 0)?; let r: u::ResultFromServer = From::from(a0); Ok(out!(r)) }
        "ResultFromServer.From<CreateTaskResult>" => { let a0: m::CreateTaskResult = arg(a, 0)?; let r: u::ResultFromServer = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.From<Result>" => { let a0: m::Result = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.From<InitializeResult>" => { let a0: m::InitializeResult = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.From<ListResourcesResult>" => { let a0: m::ListResourcesResult = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.From<ListResourceTemplatesResult>" => { let a0: m::ListResourceTemplatesResult = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.From<ReadResourceResult>" => { let a0: m::ReadResourceResult = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.From<ListPromptsResult>" => { let a0: m::ListPromptsResult = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.From<GetPromptResult>" => { let a0: m::GetPromptResult = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.From<ListToolsResult>" => { let a0: m::ListToolsResult = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.From<CallToolResult>" => { let a0: m::CallToolResult = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.From<GetTaskResult>" => { let a0: m::GetTaskResult = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.From<GetTaskPayloadResult>" => { let a0: m::GetTaskPayloadResult = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.From<CancelTaskResult>" => { let a0: m::CancelTaskResult = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.From<ListTasksResult>" => { let a0: m::ListTasksResult = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.From<CompleteResult>" => { let a0: m::CompleteResult = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "MessageFromServer.From<CreateTaskResult>" => { let a0: m::CreateTaskResult = arg(a, 0)?; let r: u::MessageFromServer = From::from(a0); Ok(out!(r)) }
        "GenericResult.TryFrom<ResultFromClient>" => { let a0: u::ResultFromClient = arg(a, 0)?; let r: Result<m::GenericResult, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "GetTaskResult.TryFrom<ResultFromClient>" => { let a0: u::ResultFromClient = arg(a, 0)?; let r: Result<m::GetTaskResult, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "GetTaskPayloadResult.TryFrom<ResultFromClient>" => { let a0: u::ResultFromClient = arg(a, 0)?; let r: Result<m::GetTaskPayloadResult, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "CancelTaskResult.TryFrom<ResultFromClient>" => { let a0: u::ResultFromClient = arg(a, 0)?; let r: Result<m::CancelTaskResult, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "ListTasksResult.TryFrom<ResultFromClient>" => { let a0: u::ResultFromClient = arg(a, 0)?; let r: Result<m::ListTasksResult, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "CreateMessageResult.TryFrom<ResultFromClient>" => { let a0: u::ResultFromClient = arg(a, 0)?; let r: Result<m::CreateMessageResult, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "ListRootsResult.TryFrom<ResultFromClient>" => { let a0: u::ResultFromClient = arg(a, 0)?; let r: Result<m::ListRootsResult, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "ElicitResult.TryFrom<ResultFromClient>" => { let a0: u::ResultFromClient = arg(a, 0)?; let r: Result<m::ElicitResult, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "CreateTaskResult.TryFrom<ResultFromClient>" => { let a0: u::ResultFromClient = arg(a, 0)?; let r: Result<m::CreateTaskResult, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "GenericResult.TryFrom<ResultFromServer>" => { let a0: u::ResultFromServer = arg(a, 0)?; let r: Result<m::GenericResult, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "InitializeResult.TryFrom<ResultFromServer>" => { let a0: u::ResultFromServer = arg(a, 0)?; let r: Result<m::InitializeResult, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "ListResourcesResult.TryFrom<ResultFromServer>" => { let a0: u::ResultFromServer = arg(a, 0)?; let r: Result<m::ListResourcesResult, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "ListResourceTemplatesResult.TryFrom<ResultFromServer>" => { let a0: u::ResultFromServer = arg(a, 0)?; let r: Result<m::ListResourceTemplatesResult, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "ReadResourceResult.TryFrom<ResultFromServer>" => { let a0: u::ResultFromServer = arg(a, 0)?; let r: Result<m::ReadResourceResult, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "ListPromptsResult.TryFrom<ResultFromServer>" => { let a0: u::ResultFromServer = arg(a, 0)?; let r: Result<m::ListPromptsResult, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "GetPromptResult.TryFrom<ResultFromServer>" => { let a0: u::ResultFromServer = arg(a, 0)?; let r: Result<m::GetPromptResult, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "ListToolsResult.TryFrom<ResultFromServer>" => { let a0: u::ResultFromServer = arg(a, 0)?; let r: Result<m::ListToolsResult, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "CallToolResult.TryFrom<ResultFromServer>" => { let a0: u::ResultFromServer = arg(a, 0)?; let r: Result<m::CallToolResult, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "GetTaskResult.TryFrom<ResultFromServer>" => { let a0: u::ResultFromServer = arg(a, 0)?; let r: Result<m::GetTaskResult, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "GetTaskPayloadResult.TryFrom<ResultFromServer>" => { let a0: u::ResultFromServer = arg(a, 0)?; let r: Result<m::GetTaskPayloadResult, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "CancelTaskResult.TryFrom<ResultFromServer>" => { let a0: u::ResultFromServer = arg(a, 0)?; let r: Result<m::CancelTaskResult, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "ListTasksResult.TryFrom<ResultFromServer>" => { let a0: u::ResultFromServer = arg(a, 0)?; let r: Result<m::ListTasksResult, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "CompleteResult.TryFrom<ResultFromServer>" => { let a0: u::ResultFromServer = arg(a, 0)?; let r: Result<m::CompleteResult, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "CreateTaskResult.TryFrom<ResultFromServer>" => { let a0: u::ResultFromServer = arg(a, 0)?; let r: Result<m::CreateTaskResult, _> = TryFrom::try_from(a0); Ok(out!(r)) }
        "ContentBlock.text_content" => { let a0: ::std::string::String = arg(a, 0)?; let r = m::ContentBlock::text_content(a0); Ok(out!(r)) }
        "ContentBlock.image_content" => { let a0: ::std::string::String = arg(a, 0)?; let a1: ::std::string::String = arg(a, 1)?; let r = m::ContentBlock::image_content(a0, a1); Ok(out!(r)) }
        "ContentBlock.audio_content" => { let a0: ::std::string::String = arg(a, 0)?; let a1: ::std::string::String = arg(a, 1)?; let r = m::ContentBlock::audio_content(a0, a1); Ok(out!(r)) }
        "ContentBlock.resource_link" => { let a0: m::ResourceLink = arg(a, 0)?; let r = m::ContentBlock::resource_link(a0); Ok(out!(r)) }
        "ContentBlock.embedded_resource" => { let a0: m::EmbeddedResourceResource = arg(a, 0)?; let r = m::ContentBlock::embedded_resource(a0); Ok(out!(r)) }
        "ContentBlock.content_type" => { let s: m::ContentBlock = arg(s, 0)?;  let r = m::ContentBlock::content_type(&s); Ok(out!(r)) }
        "ContentBlock.as_text_content" => { let s: m::ContentBlock = arg(s, 0)?;  let r = m::ContentBlock::as_text_content(&s); Ok(out!(r)) }
        "ContentBlock.as_image_content" => { let s: m::ContentBlock = arg(s, 0)?;  let r = m::ContentBlock::as_image_content(&s); Ok(out!(r)) }
        "ContentBlock.as_audio_content" => { let s: m::ContentBlock = arg(s, 0)?;  let r = m::ContentBlock::as_audio_content(&s); Ok(out!(r)) }
        "ContentBlock.as_resource_link" => { let s: m::ContentBlock = arg(s, 0)?;  let r = m::ContentBlock::as_resource_link(&s); Ok(out!(r)) }
        "ContentBlock.as_embedded_resource" => { let s: m::ContentBlock = arg(s, 0)?;  let r = m::ContentBlock::as_embedded_resource(&s); Ok(out!(r)) }
        "CallToolResult.text_content" => { let a0: Vec<m::TextContent> = arg(a, 0)?; let r = m::CallToolResult::text_content(a0); Ok(out!(r)) }
        "CallToolResult.image_content" => { let a0: Vec<m::ImageContent> = arg(a, 0)?; let r = m::CallToolResult::image_content(a0); Ok(out!(r)) }
        "CallToolResult.audio_content" => { let a0: Vec<m::AudioContent> = arg(a, 0)?; let r = m::CallToolResult::audio_content(a0); Ok(out!(r)) }
        "CallToolResult.resource_link" => { let a0: Vec<m::ResourceLink> = arg(a, 0)?; let r = m::CallToolResult::resource_link(a0); Ok(out!(r)) }
        "CallToolResult.embedded_resource" => { let a0: Vec<m::EmbeddedResource> = arg(a, 0)?; let r = m::CallToolResult::embedded_resource(a0); Ok(out!(r)) }
        "CallToolResult.with_error" => { let a0: u::CallToolError = arg(a, 0)?; let r = m::CallToolResult::with_error(a0); Ok(out!(r)) }
        "CallToolResult.with_meta" => { let s: m::CallToolResult = arg(s, 0)?; let a0: Option<serde_json::Map<String,serde_json::Value>> = arg(a, 0)?; let r = m::CallToolResult::with_meta(s, a0); Ok(out!(r)) }
        "CallToolResult.with_structured_content" => { let s: m::CallToolResult = arg(s, 0)?; let a0: ::serde_json::Map<::std::string::String,::serde_json::Value> = arg(a, 0)?; let r = m::CallToolResult::with_structured_content(s, a0); Ok(out!(r)) }
        "CallToolResult.from_content" => { let a0: Vec<m::ContentBlock> = arg(a, 0)?; let r = m::CallToolResult::from_content(a0); Ok(out!(r)) }
        "CallToolResult.add_content" => { let s: m::CallToolResult = arg(s, 0)?; let a0: m::ContentBlock = arg(a, 0)?; let r = m::CallToolResult::add_content(s, a0); Ok(out!(r)) }
        "ServerRequest.request_id" => { let s: m::ServerRequest = arg(s, 0)?;  let r = m::ServerRequest::request_id(&s); Ok(out!(r)) }
        "ClientRequest.request_id" => { let s: m::ClientRequest = arg(s, 0)?;  let r = m::ClientRequest::request_id(&s); Ok(out!(r)) }
        "IconTheme.From<&str>" => { let a0: String = arg(a, 0)?; let r: m::IconTheme = From::from(a0.as_str()); Ok(out!(r)) }
        "ElicitResultContent.From<&str>" => { let a0: String = arg(a, 0)?; let r: m::ElicitResultContent = From::from(a0.as_str()); Ok(out!(r)) }
        "ElicitResultContentPrimitive.From<&str>" => { let a0: String = arg(a, 0)?; let r: m::ElicitResultContentPrimitive = From::from(a0.as_str()); Ok(out!(r)) }
        "ElicitResultContentPrimitive.From<String>" => { let a0: String = arg(a, 0)?; let r: m::ElicitResultContentPrimitive = From::from(a0); Ok(out!(r)) }
        "ElicitResultContent.From<String>" => { let a0: String = arg(a, 0)?; let r: m::ElicitResultContent = From::from(a0); Ok(out!(r)) }
        "ElicitResultContent.From<Vec<&str>>" => { let a0: Vec<String> = arg(a, 0)?; let r: m::ElicitResultContent = From::from(a0.iter().map(|x| x.as_str()).collect::<Vec<&str>>()); Ok(out!(r)) }
        "ElicitResultContent.From<i64>" => { let a0: i64 = arg(a, 0)?; let r: m::ElicitResultContent = From::from(a0); Ok(out!(r)) }
        "CallToolRequestParams.new" => { let a0: String = arg(a, 0)?; let r = m::CallToolRequestParams::new(a0); Ok(out!(r)) }
        "CallToolRequestParams.with_arguments" => { let s: m::CallToolRequestParams = arg(s, 0)?; let a0: serde_json::Map<String,serde_json::Value> = arg(a, 0)?; let r = m::CallToolRequestParams::with_arguments(s, a0); Ok(out!(r)) }
        "CallToolRequestParams.with_meta" => { let s: m::CallToolRequestParams = arg(s, 0)?; let a0: m::CallToolMeta = arg(a, 0)?; let r = m::CallToolRequestParams::with_meta(s, a0); Ok(out!(r)) }
        "CallToolRequestParams.with_task" => { let s: m::CallToolRequestParams = arg(s, 0)?; let a0: m::TaskMetadata = arg(a, 0)?; let r = m::CallToolRequestParams::with_task(s, a0); Ok(out!(r)) }
        "Annotations.default" => { let r: m::Annotations = Default::default(); Ok(out!(r)) }
        "CallToolMeta.default" => { let r: m::CallToolMeta = Default::default(); Ok(out!(r)) }
        "CancelledNotificationParams.default" => { let r: m::CancelledNotificationParams = Default::default(); Ok(out!(r)) }
        "ClientCapabilities.default" => { let r: m::ClientCapabilities = Default::default(); Ok(out!(r)) }
        "ClientElicitation.default" => { let r: m::ClientElicitation = Default::default(); Ok(out!(r)) }
        "ClientRoots.default" => { let r: m::ClientRoots = Default::default(); Ok(out!(r)) }
        "ClientSampling.default" => { let r: m::ClientSampling = Default::default(); Ok(out!(r)) }
        "ClientTaskElicitation.default" => { let r: m::ClientTaskElicitation = Default::default(); Ok(out!(r)) }
        "ClientTaskRequest.default" => { let r: m::ClientTaskRequest = Default::default(); Ok(out!(r)) }
        "ClientTaskSampling.default" => { let r: m::ClientTaskSampling = Default::default(); Ok(out!(r)) }
        "ClientTasks.default" => { let r: m::ClientTasks = Default::default(); Ok(out!(r)) }
        "CompleteRequestContext.default" => { let r: m::CompleteRequestContext = Default::default(); Ok(out!(r)) }
        "CompleteRequestMeta.default" => { let r: m::CompleteRequestMeta = Default::default(); Ok(out!(r)) }
        "ElicitFormMeta.default" => { let r: m::ElicitFormMeta = Default::default(); Ok(out!(r)) }
        "ElicitUrlMeta.default" => { let r: m::ElicitUrlMeta = Default::default(); Ok(out!(r)) }
        "GetPromptMeta.default" => { let r: m::GetPromptMeta = Default::default(); Ok(out!(r)) }
        "GetTaskPayloadResult.default" => { let r: m::GetTaskPayloadResult = Default::default(); Ok(out!(r)) }
        "Icons.default" => { let r: m::Icons = Default::default(); Ok(out!(r)) }
        "InitializeMeta.default" => { let r: m::InitializeMeta = Default::default(); Ok(out!(r)) }
        "MessageMeta.default" => { let r: m::MessageMeta = Default::default(); Ok(out!(r)) }
        "ModelHint.default" => { let r: m::ModelHint = Default::default(); Ok(out!(r)) }
        "ModelPreferences.default" => { let r: m::ModelPreferences = Default::default(); Ok(out!(r)) }
        "NotificationParams.default" => { let r: m::NotificationParams = Default::default(); Ok(out!(r)) }
        "PaginatedMeta.default" => { let r: m::PaginatedMeta = Default::default(); Ok(out!(r)) }
        "PaginatedRequestParams.default" => { let r: m::PaginatedRequestParams = Default::default(); Ok(out!(r)) }
        "PaginatedResult.default" => { let r: m::PaginatedResult = Default::default(); Ok(out!(r)) }
        "ReadResourceMeta.default" => { let r: m::ReadResourceMeta = Default::default(); Ok(out!(r)) }
        "RequestParams.default" => { let r: m::RequestParams = Default::default(); Ok(out!(r)) }
        "RequestParamsMeta.default" => { let r: m::RequestParamsMeta = Default::default(); Ok(out!(r)) }
        "ResourceMeta.default" => { let r: m::ResourceMeta = Default::default(); Ok(out!(r)) }
        "Result.default" => { let r: m::Result = Default::default(); Ok(out!(r)) }
        "ServerCapabilities.default" => { let r: m::ServerCapabilities = Default::default(); Ok(out!(r)) }
        "ServerCapabilitiesPrompts.default" => { let r: m::ServerCapabilitiesPrompts = Default::default(); Ok(out!(r)) }
        "ServerCapabilitiesResources.default" => { let r: m::ServerCapabilitiesResources = Default::default(); Ok(out!(r)) }
        "ServerCapabilitiesTools.default" => { let r: m::ServerCapabilitiesTools = Default::default(); Ok(out!(r)) }
        "ServerTaskRequest.default" => { let r: m::ServerTaskRequest = Default::default(); Ok(out!(r)) }
        "ServerTaskTools.default" => { let r: m::ServerTaskTools = Default::default(); Ok(out!(r)) }
        "ServerTasks.default" => { let r: m::ServerTasks = Default::default(); Ok(out!(r)) }
        "SetLevelMeta.default" => { let r: m::SetLevelMeta = Default::default(); Ok(out!(r)) }
        "SubscribeMeta.default" => { let r: m::SubscribeMeta = Default::default(); Ok(out!(r)) }
        "TaskAugmentedMeta.default" => { let r: m::TaskAugmentedMeta = Default::default(); Ok(out!(r)) }
        "TaskAugmentedRequestParams.default" => { let r: m::TaskAugmentedRequestParams = Default::default(); Ok(out!(r)) }
        "TaskMetadata.default" => { let r: m::TaskMetadata = Default::default(); Ok(out!(r)) }
        "ToolAnnotations.default" => { let r: m::ToolAnnotations = Default::default(); Ok(out!(r)) }
        "ToolChoice.default" => { let r: m::ToolChoice = Default::default(); Ok(out!(r)) }
        "ToolExecution.default" => { let r: m::ToolExecution = Default::default(); Ok(out!(r)) }
        "UnsubscribeMeta.default" => { let r: m::UnsubscribeMeta = Default::default(); Ok(out!(r)) }
        "RequestId.eq" => { let s: m::RequestId = arg(s, 0)?; let a0: m::RequestId = arg(a, 0)?; Ok(same_id(&s, &a0, &s == a0, &a0 == s)) }
        "RequestId.find" => { let a0: Vec<m::RequestId> = arg(a, 0)?; let a1: m::RequestId = arg(a, 1)?; Ok(find_id(a0, &a1)) }
        _ => Err(format!("no function {f}")),
    }
}
#[allow(unused_mut, unused_assignments, unused_variables)]
pub fn run_chain(t: &str, s: &V, calls: &[V]) -> R<(V, V)> {
    match t {
        "TextResourceContents" => { let mut s: m::TextResourceContents = arg(s, 0)?; for c in calls { let a = &c[1]; let _ = a; match c[0].as_str().unwrap_or("") { "with_meta" => { let a0: serde_json::Map<String,serde_json::Value> = arg(a, 0)?; s = m::TextResourceContents::with_meta(s, a0); } "with_mime_type" => { let a0: String = arg(a, 0)?; s = m::TextResourceContents::with_mime_type(s, a0); } "with_uri" => { let a0: String = arg(a, 0)?; s = m::TextResourceContents::with_uri(s, a0); } x => return Err(bad(x, c)) } } Ok((s.view(), text(&s))) }
        "BlobResourceContents" => { let mut s: m::BlobResourceContents = arg(s, 0)?; for c in calls { let a = &c[1]; let _ = a; match c[0].as_str().unwrap_or("") { "with_meta" => { let a0: serde_json::Map<String,serde_json::Value> = arg(a, 0)?; s = m::BlobResourceContents::with_meta(s, a0); } "with_mime_type" => { let a0: String = arg(a, 0)?; s = m::BlobResourceContents::with_mime_type(s, a0); } "with_uri" => { let a0: String = arg(a, 0)?; s = m::BlobResourceContents::with_uri(s, a0); } x => return Err(bad(x, c)) } } Ok((s.view(), text(&s))) }
        "ElicitRequestParams" => { let mut s: m::ElicitRequestParams = arg(s, 0)?; for c in calls { let a = &c[1]; let _ = a; match c[0].as_str().unwrap_or("") { "with_task" => { let a0: m::TaskMetadata = arg(a, 0)?; s = m::ElicitRequestParams::with_task(s, a0); } x => return Err(bad(x, c)) } } Ok((s.view(), text(&s))) }
        "ElicitRequestUrlParams" => { let mut s: m::ElicitRequestUrlParams = arg(s, 0)?; for c in calls { let a = &c[1]; let _ = a; match c[0].as_str().unwrap_or("") { "with_task" => { let a0: m::TaskMetadata = arg(a, 0)?; s = m::ElicitRequestUrlParams::with_task(s, a0); } x => return Err(bad(x, c)) } } Ok((s.view(), text(&s))) }
        "ElicitRequestFormParams" => { let mut s: m::ElicitRequestFormParams = arg(s, 0)?; for c in calls { let a = &c[1]; let _ = a; match c[0].as_str().unwrap_or("") { "with_task" => { let a0: m::TaskMetadata = arg(a, 0)?; s = m::ElicitRequestFormParams::with_task(s, a0); } x => return Err(bad(x, c)) } } Ok((s.view(), text(&s))) }
        "GetTaskPayloadResult" => { let mut s: m::GetTaskPayloadResult = arg(s, 0)?; for c in calls { let a = &c[1]; let _ = a; match c[0].as_str().unwrap_or("") { "set_related_task_id" => { let a0: String = arg(a, 0)?; s = { let mut s = s; m::GetTaskPayloadResult::set_related_task_id(&mut s, a0); s }; } x => return Err(bad(x, c)) } } Ok((s.view(), text(&s))) }
        "Map" => { let mut s: serde_json::Map<String,serde_json::Value> = arg(s, 0)?; for c in calls { let a = &c[1]; let _ = a; match c[0].as_str().unwrap_or("") { "set_related_task_id" => { let a0: String = arg(a, 0)?; s = { let mut s = s; <serde_json::Map<String,serde_json::Value> as u::McpMetaEx>::set_related_task_id(&mut s, a0); s }; } "with_related_task_id" => { let a0: String = arg(a, 0)?; s = <serde_json::Map<String,serde_json::Value> as u::McpMetaEx>::with_related_task_id(s, a0); } "add" => { let a0: String = arg(a, 0)?; let a1: serde_json::Value = arg(a, 1)?; s = <serde_json::Map<String,serde_json::Value> as u::McpMetaEx>::add(s, a0, a1); } "add_if" => { let a0: bool = arg(a, 0)?; let a1: String = arg(a, 1)?; let a2: serde_json::Value = arg(a, 2)?; s = <serde_json::Map<String,serde_json::Value> as u::McpMetaEx>::add_if(s, a0, a1, a2); } "add_raw" => { let a0: String = arg(a, 0)?; let a1: serde_json::Value = arg(a, 1)?; s = <serde_json::Map<String,serde_json::Value> as u::McpMetaEx>::add_raw(s, a0, a1); } x => return Err(bad(x, c)) } } Ok((s.view(), text(&s))) }
        "SdkError" => { let mut s: u::SdkError = arg(s, 0)?; for c in calls { let a = &c[1]; let _ = a; match c[0].as_str().unwrap_or("") { "with_message" => { let a0: String = arg(a, 0)?; s = u::SdkError::with_message(s, a0.as_str()); } "with_data" => { let a0: ::std::option::Option<::serde_json::Value> = arg(a, 0)?; s = u::SdkError::with_data(s, a0); } x => return Err(bad(x, c)) } } Ok((s.view(), text(&s))) }
        "RpcError" => { let mut s: m::RpcError = arg(s, 0)?; for c in calls { let a = &c[1]; let _ = a; match c[0].as_str().unwrap_or("") { "with_message" => { let a0: String = arg(a, 0)?; s = m::RpcError::with_message(s, a0); } "with_data" => { let a0: ::std::option::Option<::serde_json::Value> = arg(a, 0)?; s = m::RpcError::with_data(s, a0); } x => return Err(bad(x, c)) } } Ok((s.view(), text(&s))) }
        "CallToolResult" => { let mut s: m::CallToolResult = arg(s, 0)?; for c in calls { let a = &c[1]; let _ = a; match c[0].as_str().unwrap_or("") { "with_meta" => { let a0: Option<serde_json::Map<String,serde_json::Value>> = arg(a, 0)?; s = m::CallToolResult::with_meta(s, a0); } "with_structured_content" => { let a0: ::serde_json::Map<::std::string::String,::serde_json::Value> = arg(a, 0)?; s = m::CallToolResult::with_structured_content(s, a0); } "add_content" => { let a0: m::ContentBlock = arg(a, 0)?; s = m::CallToolResult::add_content(s, a0); } x => return Err(bad(x, c)) } } Ok((s.view(), text(&s))) }
        "CallToolRequestParams" => { let mut s: m::CallToolRequestParams = arg(s, 0)?; for c in calls { let a = &c[1]; let _ = a; match c[0].as_str().unwrap_or("") { "with_arguments" => { let a0: serde_json::Map<String,serde_json::Value> = arg(a, 0)?; s = m::CallToolRequestParams::with_arguments(s, a0); } "with_meta" => { let a0: m::CallToolMeta = arg(a, 0)?; s = m::CallToolRequestParams::with_meta(s, a0); } "with_task" => { let a0: m::TaskMetadata = arg(a, 0)?; s = m::CallToolRequestParams::with_task(s, a0); } x => return Err(bad(x, c)) } } Ok((s.view(), text(&s))) }
        _ => Err(format!("no chain {t}")),
    }
}
pub fn consts() -> V {
    json!({"LATEST_PROTOCOL_VERSION": m::LATEST_PROTOCOL_VERSION, "JSONRPC_VERSION": m::JSONRPC_VERSION, "PARSE_ERROR": m::PARSE_ERROR, "INVALID_REQUEST": m::INVALID_REQUEST, "METHOD_NOT_FOUND": m::METHOD_NOT_FOUND, "INVALID_PARAMS": m::INVALID_PARAMS, "INTERNAL_ERROR": m::INTERNAL_ERROR, "URL_ELICITATION_REQUIRED": m::URL_ELICITATION_REQUIRED})
}
pub const CALLS: &[&str] = &["AudioContent.new", "AudioContent.type_", "AudioContent.type_value", "AudioContent.type_name", "BooleanSchema.new", "BooleanSchema.type_", "BooleanSchema.type_value", "BooleanSchema.type_name", "CallToolRequest.new", "CallToolRequest.jsonrpc", "CallToolRequest.method", "CallToolRequest.method_value", "CallToolRequest.method_name", "CancelTaskRequest.new", "CancelTaskRequest.jsonrpc", "CancelTaskRequest.method", "CancelTaskRequest.method_value", "CancelTaskRequest.method_name", "CancelledNotification.new", "CancelledNotification.jsonrpc", "CancelledNotification.method", "CancelledNotification.method_value", "CancelledNotification.method_name", "ClientNotification.From<CancelledNotification>", "ClientNotification.From<InitializedNotification>", "ClientNotification.From<ProgressNotification>", "ClientNotification.From<TaskStatusNotification>", "ClientNotification.From<RootsListChangedNotification>", "ClientRequest.From<InitializeRequest>", "ClientRequest.From<PingRequest>", "ClientRequest.From<ListResourcesRequest>", "ClientRequest.From<ListResourceTemplatesRequest>", "ClientRequest.From<ReadResourceRequest>", "ClientRequest.From<SubscribeRequest>", "ClientRequest.From<UnsubscribeRequest>", "ClientRequest.From<ListPromptsRequest>", "ClientRequest.From<GetPromptRequest>", "ClientRequest.From<ListToolsRequest>", "ClientRequest.From<CallToolRequest>", "ClientRequest.From<GetTaskRequest>", "ClientRequest.From<GetTaskPayloadRequest>", "ClientRequest.From<CancelTaskRequest>", "ClientRequest.From<ListTasksRequest>", "ClientRequest.From<SetLevelRequest>", "ClientRequest.From<CompleteRequest>", "ClientResult.From<GetTaskResult>", "ClientResult.From<CancelTaskResult>", "ClientResult.From<ListTasksResult>", "ClientResult.From<CreateMessageResult>", "ClientResult.From<ListRootsResult>", "ClientResult.From<ElicitResult>", "ClientResult.From<Result>", "ClientResult.From<GetTaskPayloadResult>", "CompleteRequest.new", "CompleteRequest.jsonrpc", "CompleteRequest.method", "CompleteRequest.method_value", "CompleteRequest.method_name", "CompleteRequestRef.From<PromptReference>", "CompleteRequestRef.From<ResourceTemplateReference>", "ContentBlock.From<TextContent>", "ContentBlock.From<ImageContent>", "ContentBlock.From<AudioContent>", "ContentBlock.From<ResourceLink>", "ContentBlock.From<EmbeddedResource>", "CreateMessageContent.From<TextContent>", "CreateMessageContent.From<ImageContent>", "CreateMessageContent.From<AudioContent>", "CreateMessageContent.From<ToolUseContent>", "CreateMessageContent.From<ToolResultContent>", "CreateMessageContent.From<Vec<SamplingMessageContentBlock>>", "CreateMessageRequest.new", "CreateMessageRequest.jsonrpc", "CreateMessageRequest.method", "CreateMessageRequest.method_value", "CreateMessageRequest.method_name", "ElicitFormSchema.new", "ElicitFormSchema.type_", "ElicitFormSchema.type_value", "ElicitFormSchema.type_name", "ElicitRequest.new", "ElicitRequest.jsonrpc", "ElicitRequest.method", "ElicitRequest.method_value", "ElicitRequest.method_name", "ElicitRequestFormParams.new", "ElicitRequestFormParams.mode", "ElicitRequestFormParams.mode_value", "ElicitRequestFormParams.mode_name", "ElicitRequestParams.From<ElicitRequestUrlParams>", "ElicitRequestParams.From<ElicitRequestFormParams>", "ElicitRequestUrlParams.new", "ElicitRequestUrlParams.mode", "ElicitRequestUrlParams.mode_value", "ElicitRequestUrlParams.mode_name", "ElicitResultAction.Display", "ElicitResultContent.From<Vec<String>>", "ElicitResultContent.From<ElicitResultContentPrimitive>", "ElicitResultContentPrimitive.From<bool>", "ElicitResultContentPrimitive.From<i64>", "ElicitationCompleteNotification.new", "ElicitationCompleteNotification.jsonrpc", "ElicitationCompleteNotification.method", "ElicitationCompleteNotification.method_value", "ElicitationCompleteNotification.method_name", "EmbeddedResource.new", "EmbeddedResource.type_", "EmbeddedResource.type_value", "EmbeddedResource.type_name", "EmbeddedResourceResource.From<TextResourceContents>", "EmbeddedResourceResource.From<BlobResourceContents>", "EnumSchema.From<UntitledSingleSelectEnumSchema>", "EnumSchema.From<TitledSingleSelectEnumSchema>", "EnumSchema.From<UntitledMultiSelectEnumSchema>", "EnumSchema.From<TitledMultiSelectEnumSchema>", "EnumSchema.From<LegacyTitledEnumSchema>", "GetPromptRequest.new", "GetPromptRequest.jsonrpc", "GetPromptRequest.method", "GetPromptRequest.method_value", "GetPromptRequest.method_name", "GetTaskPayloadRequest.new", "GetTaskPayloadRequest.jsonrpc", "GetTaskPayloadRequest.method", "GetTaskPayloadRequest.method_value", "GetTaskPayloadRequest.method_name", "GetTaskRequest.new", "GetTaskRequest.jsonrpc", "GetTaskRequest.method", "GetTaskRequest.method_value", "GetTaskRequest.method_name", "IconTheme.Display", "ImageContent.new", "ImageContent.type_", "ImageContent.type_value", "ImageContent.type_name", "IncludeContext.Display", "InitializeRequest.new", "InitializeRequest.jsonrpc", "InitializeRequest.method", "InitializeRequest.method_value", "InitializeRequest.method_name", "InitializedNotification.new", "InitializedNotification.jsonrpc", "InitializedNotification.method", "InitializedNotification.method_value", "InitializedNotification.method_name", "JsonrpcErrorResponse.new", "JsonrpcErrorResponse.jsonrpc", "JsonrpcMessage.From<JsonrpcRequest>", "JsonrpcMessage.From<JsonrpcNotification>", "JsonrpcMessage.From<JsonrpcResultResponse>", "JsonrpcMessage.From<JsonrpcErrorResponse>", "JsonrpcNotification.new", "JsonrpcNotification.jsonrpc", "JsonrpcRequest.new", "JsonrpcRequest.jsonrpc", "JsonrpcResponse.From<JsonrpcResultResponse>", "JsonrpcResponse.From<JsonrpcErrorResponse>", "JsonrpcResultResponse.new", "JsonrpcResultResponse.jsonrpc", "LegacyTitledEnumSchema.new", "LegacyTitledEnumSchema.type_", "LegacyTitledEnumSchema.type_value", "LegacyTitledEnumSchema.type_name", "ListPromptsRequest.new", "ListPromptsRequest.jsonrpc", "ListPromptsRequest.method", "ListPromptsRequest.method_value", "ListPromptsRequest.method_name", "ListResourceTemplatesRequest.new", "ListResourceTemplatesRequest.jsonrpc", "ListResourceTemplatesRequest.method", "ListResourceTemplatesRequest.method_value", "ListResourceTemplatesRequest.method_name", "ListResourcesRequest.new", "ListResourcesRequest.jsonrpc", "ListResourcesRequest.method", "ListResourcesRequest.method_value", "ListResourcesRequest.method_name", "ListRootsRequest.new", "ListRootsRequest.jsonrpc", "ListRootsRequest.method", "ListRootsRequest.method_value", "ListRootsRequest.method_name", "ListTasksRequest.new", "ListTasksRequest.jsonrpc", "ListTasksRequest.method", "ListTasksRequest.method_value", "ListTasksRequest.method_name", "ListToolsRequest.new", "ListToolsRequest.jsonrpc", "ListToolsRequest.method", "ListToolsRequest.method_value", "ListToolsRequest.method_name", "LoggingLevel.Display", "LoggingMessageNotification.new", "LoggingMessageNotification.jsonrpc", "LoggingMessageNotification.method", "LoggingMessageNotification.method_value", "LoggingMessageNotification.method_name", "MultiSelectEnumSchema.From<UntitledMultiSelectEnumSchema>", "MultiSelectEnumSchema.From<TitledMultiSelectEnumSchema>", "NumberSchemaType.Display", "PaginatedRequest.new", "PaginatedRequest.jsonrpc", "PingRequest.new", "PingRequest.jsonrpc", "PingRequest.method", "PingRequest.method_value", "PingRequest.method_name", "PrimitiveSchemaDefinition.From<StringSchema>", "PrimitiveSchemaDefinition.From<NumberSchema>", "PrimitiveSchemaDefinition.From<BooleanSchema>", "PrimitiveSchemaDefinition.From<UntitledSingleSelectEnumSchema>", "PrimitiveSchemaDefinition.From<TitledSingleSelectEnumSchema>", "PrimitiveSchemaDefinition.From<UntitledMultiSelectEnumSchema>", "PrimitiveSchemaDefinition.From<TitledMultiSelectEnumSchema>", "PrimitiveSchemaDefinition.From<LegacyTitledEnumSchema>", "ProgressNotification.new", "ProgressNotification.jsonrpc", "ProgressNotification.method", "ProgressNotification.method_value", "ProgressNotification.method_name", "ProgressToken.From<i64>", "PromptListChangedNotification.new", "PromptListChangedNotification.jsonrpc", "PromptListChangedNotification.method", "PromptListChangedNotification.method_value", "PromptListChangedNotification.method_name", "PromptReference.new", "PromptReference.type_", "PromptReference.type_value", "PromptReference.type_name", "ReadResourceContent.From<TextResourceContents>", "ReadResourceContent.From<BlobResourceContents>", "ReadResourceRequest.new", "ReadResourceRequest.jsonrpc", "ReadResourceRequest.method", "ReadResourceRequest.method_value", "ReadResourceRequest.method_name", "RequestId.From<i64>", "ResourceLink.new", "ResourceLink.type_", "ResourceLink.type_value", "ResourceLink.type_name", "ResourceListChangedNotification.new", "ResourceListChangedNotification.jsonrpc", "ResourceListChangedNotification.method", "ResourceListChangedNotification.method_value", "ResourceListChangedNotification.method_name", "ResourceTemplateReference.new", "ResourceTemplateReference.type_", "ResourceTemplateReference.type_value", "ResourceTemplateReference.type_name", "ResourceUpdatedNotification.new", "ResourceUpdatedNotification.jsonrpc", "ResourceUpdatedNotification.method", "ResourceUpdatedNotification.method_value", "ResourceUpdatedNotification.method_name", "Role.Display", "RootsListChangedNotification.new", "RootsListChangedNotification.jsonrpc", "RootsListChangedNotification.method", "RootsListChangedNotification.method_value", "RootsListChangedNotification.method_name", "SamplingMessageContent.From<TextContent>", "SamplingMessageContent.From<ImageContent>", "SamplingMessageContent.From<AudioContent>", "SamplingMessageContent.From<ToolUseContent>", "SamplingMessageContent.From<ToolResultContent>", "SamplingMessageContent.From<Vec<SamplingMessageContentBlock>>", "SamplingMessageContentBlock.From<TextContent>", "SamplingMessageContentBlock.From<ImageContent>", "SamplingMessageContentBlock.From<AudioContent>", "SamplingMessageContentBlock.From<ToolUseContent>", "SamplingMessageContentBlock.From<ToolResultContent>", "ServerNotification.From<CancelledNotification>", "ServerNotification.From<ProgressNotification>", "ServerNotification.From<ResourceListChangedNotification>", "ServerNotification.From<ResourceUpdatedNotification>", "ServerNotification.From<PromptListChangedNotification>", "ServerNotification.From<ToolListChangedNotification>", "ServerNotification.From<TaskStatusNotification>", "ServerNotification.From<LoggingMessageNotification>", "ServerNotification.From<ElicitationCompleteNotification>", "ServerRequest.From<PingRequest>", "ServerRequest.From<GetTaskRequest>", "ServerRequest.From<GetTaskPayloadRequest>", "ServerRequest.From<CancelTaskRequest>", "ServerRequest.From<ListTasksRequest>", "ServerRequest.From<CreateMessageRequest>", "ServerRequest.From<ListRootsRequest>", "ServerRequest.From<ElicitRequest>", "ServerResult.From<InitializeResult>", "ServerResult.From<ListResourcesResult>", "ServerResult.From<ListResourceTemplatesResult>", "ServerResult.From<ReadResourceResult>", "ServerResult.From<ListPromptsResult>", "ServerResult.From<GetPromptResult>", "ServerResult.From<ListToolsResult>", "ServerResult.From<CallToolResult>", "ServerResult.From<GetTaskResult>", "ServerResult.From<CancelTaskResult>", "ServerResult.From<ListTasksResult>", "ServerResult.From<CompleteResult>", "ServerResult.From<Result>", "ServerResult.From<GetTaskPayloadResult>", "SetLevelRequest.new", "SetLevelRequest.jsonrpc", "SetLevelRequest.method", "SetLevelRequest.method_value", "SetLevelRequest.method_name", "SingleSelectEnumSchema.From<UntitledSingleSelectEnumSchema>", "SingleSelectEnumSchema.From<TitledSingleSelectEnumSchema>", "StringSchema.new", "StringSchema.type_", "StringSchema.type_value", "StringSchema.type_name", "StringSchemaFormat.Display", "SubscribeRequest.new", "SubscribeRequest.jsonrpc", "SubscribeRequest.method", "SubscribeRequest.method_value", "SubscribeRequest.method_name", "TaskStatus.Display", "TaskStatusNotification.new", "TaskStatusNotification.jsonrpc", "TaskStatusNotification.method", "TaskStatusNotification.method_value", "TaskStatusNotification.method_name", "TextContent.new", "TextContent.type_", "TextContent.type_value", "TextContent.type_name", "TitledMultiSelectEnumSchema.new", "TitledMultiSelectEnumSchema.type_", "TitledMultiSelectEnumSchema.type_value", "TitledMultiSelectEnumSchema.type_name", "TitledSingleSelectEnumSchema.new", "TitledSingleSelectEnumSchema.type_", "TitledSingleSelectEnumSchema.type_value", "TitledSingleSelectEnumSchema.type_name", "ToolChoiceMode.Display", "ToolExecutionTaskSupport.Display", "ToolInputSchema.new", "ToolInputSchema.type_", "ToolInputSchema.type_value", "ToolInputSchema.type_name", "ToolListChangedNotification.new", "ToolListChangedNotification.jsonrpc", "ToolListChangedNotification.method", "ToolListChangedNotification.method_value", "ToolListChangedNotification.method_name", "ToolOutputSchema.new", "ToolOutputSchema.type_", "ToolOutputSchema.type_value", "ToolOutputSchema.type_name", "ToolResultContent.new", "ToolResultContent.type_", "ToolResultContent.type_value", "ToolResultContent.type_name", "ToolUseContent.new", "ToolUseContent.type_", "ToolUseContent.type_value", "ToolUseContent.type_name", "UnsubscribeRequest.new", "UnsubscribeRequest.jsonrpc", "UnsubscribeRequest.method", "UnsubscribeRequest.method_value", "UnsubscribeRequest.method_name", "UntitledMultiSelectEnumSchema.new", "UntitledMultiSelectEnumSchema.type_", "UntitledMultiSelectEnumSchema.type_value", "UntitledMultiSelectEnumSchema.type_name", "UntitledMultiSelectEnumSchemaItems.new", "UntitledMultiSelectEnumSchemaItems.type_", "UntitledMultiSelectEnumSchemaItems.type_value", "UntitledMultiSelectEnumSchemaItems.type_name", "UntitledSingleSelectEnumSchema.new", "UntitledSingleSelectEnumSchema.type_", "UntitledSingleSelectEnumSchema.type_value", "UntitledSingleSelectEnumSchema.type_name", "UrlElicitError.new", "UrlElicitError.code", "UrlElicitError.code_value", "UrlElicitError.code_name", "UrlElicitationRequiredError.new", "UrlElicitationRequiredError.jsonrpc", "ClientRequest.method", "ClientNotification.method", "ServerRequest.method", "ServerNotification.method", "GenericResult.From<InitializeResult>", "GenericResult.From<ListResourcesResult>", "GenericResult.From<ListResourceTemplatesResult>", "GenericResult.From<ReadResourceResult>", "GenericResult.From<ListPromptsResult>", "GenericResult.From<GetPromptResult>", "GenericResult.From<ListToolsResult>", "GenericResult.From<CallToolResult>", "GenericResult.From<GetTaskResult>", "GenericResult.From<GetTaskPayloadResult>", "GenericResult.From<CancelTaskResult>", "GenericResult.From<ListTasksResult>", "GenericResult.From<CompleteResult>", "MessageTypes.Display", "RequestId.Display", "ClientMessage.as_response", "ClientMessage.as_request", "ClientMessage.as_notification", "ClientMessage.as_error", "ClientMessage.is_initialize_request", "ClientMessage.is_initialized_notification", "ClientMessage.From<ClientJsonrpcNotification>", "ClientMessage.From<ClientJsonrpcRequest>", "ClientMessage.From<ClientJsonrpcResponse>", "ClientMessage.request_id", "ClientMessage.jsonrpc", "ClientMessage.method", "ClientMessage.is_response", "ClientMessage.is_request", "ClientMessage.is_notification", "ClientMessage.is_error", "ClientMessage.message_type", "ClientJsonrpcRequest.new", "ClientJsonrpcRequest.jsonrpc", "ClientJsonrpcRequest.request_id", "ClientJsonrpcRequest.is_task_augmented", "ClientJsonrpcRequest.method", "RequestFromClient.From<ClientJsonrpcRequest>", "ClientJsonrpcRequest.Display", "ClientJsonrpcRequest.FromStr", "RequestFromClient.method", "RequestFromClient.is_initialize_request", "ClientJsonrpcNotification.new", "ClientJsonrpcNotification.jsonrpc", "ClientJsonrpcNotification.is_initialized_notification", "ClientJsonrpcNotification.method", "NotificationFromClient.From<ClientJsonrpcNotification>", "ClientJsonrpcNotification.Display", "ClientJsonrpcNotification.FromStr", "NotificationFromClient.is_initialized_notification", "NotificationFromClient.method", "ClientJsonrpcResponse.new", "ClientJsonrpcResponse.jsonrpc", "ClientJsonrpcResponse.Display", "ClientJsonrpcResponse.FromStr", "ClientTaskResult.TryFrom<ResultFromClient>", "ResultFromClient.From<ClientTaskResult>", "ClientMessage.FromStr", "ClientMessage.Display", "ServerMessage.as_response", "ServerMessage.as_request", "ServerMessage.as_notification", "ServerMessage.as_error", "ServerMessage.From<ServerJsonrpcNotification>", "ServerMessage.From<ServerJsonrpcRequest>", "ServerMessage.From<ServerJsonrpcResponse>", "ServerMessage.request_id", "ServerMessage.jsonrpc", "ServerMessage.method", "ServerMessage.is_response", "ServerMessage.is_request", "ServerMessage.is_notification", "ServerMessage.is_error", "ServerMessage.message_type", "ServerMessage.FromStr", "ServerMessage.Display", "ServerJsonrpcRequest.new", "ServerJsonrpcRequest.request_id", "ServerJsonrpcRequest.jsonrpc", "ServerJsonrpcRequest.is_task_augmented", "ServerJsonrpcRequest.method", "ServerJsonrpcRequest.Display", "ServerJsonrpcRequest.FromStr", "RequestFromServer.From<ServerJsonrpcRequest>", "RequestFromServer.method", "NotificationFromServer.From<ServerJsonrpcNotification>", "ServerJsonrpcNotification.new", "ServerJsonrpcNotification.jsonrpc", "ServerJsonrpcNotification.Display", "ServerJsonrpcNotification.FromStr", "NotificationFromServer.method", "ServerJsonrpcResponse.new", "ServerJsonrpcResponse.jsonrpc", "ServerJsonrpcResponse.Display", "ServerJsonrpcResponse.FromStr", "JsonrpcErrorResponse.Display", "JsonrpcErrorResponse.FromStr", "MessageFromServer.From<RequestFromServer>", "MessageFromServer.From<ResultFromServer>", "MessageFromServer.From<NotificationFromServer>", "MessageFromServer.From<RpcError>", "MessageFromServer.is_response", "MessageFromServer.is_request", "MessageFromServer.is_notification", "MessageFromServer.is_error", "MessageFromServer.message_type", "ServerMessage.FromMessage<MessageFromServer>", "MessageFromClient.is_initialize_request", "MessageFromClient.is_initialized_notification", "MessageFromClient.From<RequestFromClient>", "MessageFromClient.From<ResultFromClient>", "MessageFromClient.From<NotificationFromClient>", "MessageFromClient.From<RpcError>", "MessageFromClient.is_response", "MessageFromClient.is_request", "MessageFromClient.is_notification", "MessageFromClient.is_error", "MessageFromClient.message_type", "ClientMessage.FromMessage<MessageFromClient>", "UnknownTool.Display", "CallToolError.unknown_tool", "CallToolError.unsupported_task_augmented_tool_call", "CallToolError.invalid_arguments", "CallToolError.from_message", "RpcError.From<CallToolError>", "CallToolResult.From<CallToolError>", "CallToolError.Display", "CallToolRequest.tool_name", "TextContent.From<T>", "TextResourceContents.new", "TextResourceContents.with_meta", "TextResourceContents.with_mime_type", "TextResourceContents.with_uri", "BlobResourceContents.new", "BlobResourceContents.with_meta", "BlobResourceContents.with_mime_type", "BlobResourceContents.with_uri", "ClientMessages.is_batch", "ClientMessages.includes_request", "ClientMessages.as_single", "ClientMessages.as_batch", "ClientMessages.From<ClientMessage>", "ClientMessages.From<Vec<ClientMessage>>", "ClientMessages.Display", "ServerMessages.is_batch", "ServerMessages.includes_request", "ServerMessages.as_single", "ServerMessages.as_batch", "ServerMessages.From<ServerMessage>", "ServerMessages.From<Vec<ServerMessage>>", "ServerMessages.Display", "MessagesFromServer.is_batch", "MessagesFromServer.includes_request", "MessagesFromServer.as_single", "MessagesFromServer.as_batch", "MessagesFromServer.From<MessageFromServer>", "MessagesFromServer.From<Vec<MessageFromServer>>", "MessagesFromClient.is_batch", "MessagesFromClient.includes_request", "MessagesFromClient.as_single", "MessagesFromClient.as_batch", "MessagesFromClient.From<MessageFromClient>", "MessagesFromClient.From<Vec<MessageFromClient>>", "StringSchemaFormat.FromStr", "PrimitiveSchemaDefinition.TryFrom<&Map<String,Value>>", "RequestFromServer.is_task_augmented", "MessageFromServer.is_task_augmented", "CallToolRequest.is_task_augmented", "CallToolRequestParams.is_task_augmented", "CreateMessageRequestParams.is_task_augmented", "ElicitRequestParams.is_task_augmented", "ElicitRequestParams.message", "ElicitRequestParams.with_task", "ElicitRequestUrlParams.with_task", "ElicitRequestFormParams.with_task", "ServerCapabilities.can_list_tasks", "ServerCapabilities.can_cancel_tasks", "ServerCapabilities.can_run_task_augmented_tools", "ServerCapabilities.can_handle_request", "ServerCapabilities.can_accept_notification", "ServerTasks.can_list_tasks", "ServerTasks.can_cancel_tasks", "ServerTasks.can_run_task_augmented_tools", "ClientCapabilities.can_list_tasks", "ClientCapabilities.can_cancel_tasks", "ClientCapabilities.can_accept_elicitation_task", "ClientCapabilities.can_accept_sampling_task", "ClientCapabilities.can_handle_request", "ClientCapabilities.can_accept_notification", "ClientTasks.can_list_tasks", "ClientTasks.can_cancel_tasks", "ClientTasks.can_accept_elicitation_task", "ClientTasks.can_accept_sampling_task", "CustomRequest.From<JsonrpcRequest>", "CustomNotification.From<JsonrpcNotification>", "TaskStatus.is_terminal", "Task.is_terminal", "GetTaskResult.is_terminal", "GetTaskPayloadResult.related_task_id", "GetTaskPayloadResult.set_related_task_id", "Map.related_task_id", "Map.set_related_task_id", "Map.with_related_task_id", "Map.add", "Map.add_if", "Map.add_raw", "Role.FromStr", "ResultFromClient.From<Result>", "ResultFromClient.From<GetTaskResult>", "ResultFromClient.From<GetTaskPayloadResult>", "ResultFromClient.From<CancelTaskResult>", "ResultFromClient.From<ListTasksResult>", "ResultFromClient.From<CreateMessageResult>", "ResultFromClient.From<ListRootsResult>", "ResultFromClient.From<ElicitResult>", "ResultFromClient.From<CreateTaskResult>", "MessageFromClient.From<Result>", "MessageFromClient.From<GetTaskResult>", "MessageFromClient.From<GetTaskPayloadResult>", "MessageFromClient.From<CancelTaskResult>", "MessageFromClient.From<ListTasksResult>", "MessageFromClient.From<CreateMessageResult>", "MessageFromClient.From<ListRootsResult>", "MessageFromClient.From<ElicitResult>", "MessageFromClient.From<CreateTaskResult>", "ServerJsonrpcRequest.From<PingRequest>", "ServerJsonrpcRequest.From<GetTaskRequest>", "ServerJsonrpcRequest.From<GetTaskPayloadRequest>", "ServerJsonrpcRequest.From<CancelTaskRequest>", "ServerJsonrpcRequest.From<ListTasksRequest>", "ServerJsonrpcRequest.From<CreateMessageRequest>", "ServerJsonrpcRequest.From<ListRootsRequest>", "ServerJsonrpcRequest.From<ElicitRequest>", "ClientJsonrpcRequest.From<InitializeRequest>", "ClientJsonrpcRequest.From<PingRequest>", "ClientJsonrpcRequest.From<ListResourcesRequest>", "ClientJsonrpcRequest.From<ListResourceTemplatesRequest>", "ClientJsonrpcRequest.From<ReadResourceRequest>", "ClientJsonrpcRequest.From<SubscribeRequest>", "ClientJsonrpcRequest.From<UnsubscribeRequest>", "ClientJsonrpcRequest.From<ListPromptsRequest>", "ClientJsonrpcRequest.From<GetPromptRequest>", "ClientJsonrpcRequest.From<ListToolsRequest>", "ClientJsonrpcRequest.From<CallToolRequest>", "ClientJsonrpcRequest.From<GetTaskRequest>", "ClientJsonrpcRequest.From<GetTaskPayloadRequest>", "ClientJsonrpcRequest.From<CancelTaskRequest>", "ClientJsonrpcRequest.From<ListTasksRequest>", "ClientJsonrpcRequest.From<SetLevelRequest>", "ClientJsonrpcRequest.From<CompleteRequest>", "i64.From<SdkErrorCodes>", "SdkError.Display", "SdkError.new", "SdkError.connection_closed", "SdkError.request_timeout", "SdkError.session_not_found", "SdkError.invalid_request", "SdkError.method_not_found", "SdkError.invalid_params", "SdkError.internal_error", "SdkError.parse_error", "SdkError.url_elicit_required", "SdkError.resource_not_found", "SdkError.bad_request", "SdkError.with_message", "SdkError.with_data", "i64.From<RpcErrorCodes>", "RpcError.new", "RpcError.method_not_found", "RpcError.url_elicit_required", "RpcError.invalid_params", "RpcError.invalid_request", "RpcError.internal_error", "RpcError.parse_error", "RpcError.with_message", "RpcError.with_data", "RpcError.Display", "RpcError.FromStr", "JsonrpcErrorResponse.create", "ResultFromServer.From<Result>", "ResultFromServer.From<InitializeResult>", "ResultFromServer.From<ListResourcesResult>", "ResultFromServer.From<ListResourceTemplatesResult>", "ResultFromServer.From<ReadResourceResult>", "ResultFromServer.From<ListPromptsResult>", "ResultFromServer.From<GetPromptResult>", "ResultFromServer.From<ListToolsResult>", "ResultFromServer.From<CallToolResult>", "ResultFromServer.From<GetTaskResult>", "ResultFromServer.From<GetTaskPayloadResult>", "ResultFromServer.From<CancelTaskResult>", "ResultFromServer.From<ListTasksResult>", "ResultFromServer.From<CompleteResult>", "ResultFromServer.From<CreateTaskResult>", "MessageFromServer.From<Result>", "MessageFromServer.From<InitializeResult>", "MessageFromServer.From<ListResourcesResult>", "MessageFromServer.From<ListResourceTemplatesResult>", "MessageFromServer.From<ReadResourceResult>", "MessageFromServer.From<ListPromptsResult>", "MessageFromServer.From<GetPromptResult>", "MessageFromServer.From<ListToolsResult>", "MessageFromServer.From<CallToolResult>", "MessageFromServer.From<GetTaskResult>", "MessageFromServer.From<GetTaskPayloadResult>", "MessageFromServer.From<CancelTaskResult>", "MessageFromServer.From<ListTasksResult>", "MessageFromServer.From<CompleteResult>", "MessageFromServer.From<CreateTaskResult>", "GenericResult.TryFrom<ResultFromClient>", "GetTaskResult.TryFrom<ResultFromClient>", "GetTaskPayloadResult.TryFrom<ResultFromClient>", "CancelTaskResult.TryFrom<ResultFromClient>", "ListTasksResult.TryFrom<ResultFromClient>", "CreateMessageResult.TryFrom<ResultFromClient>", "ListRootsResult.TryFrom<ResultFromClient>", "ElicitResult.TryFrom<ResultFromClient>", "CreateTaskResult.TryFrom<ResultFromClient>", "GenericResult.TryFrom<ResultFromServer>", "InitializeResult.TryFrom<ResultFromServer>", "ListResourcesResult.TryFrom<ResultFromServer>", "ListResourceTemplatesResult.TryFrom<ResultFromServer>", "ReadResourceResult.TryFrom<ResultFromServer>", "ListPromptsResult.TryFrom<ResultFromServer>", "GetPromptResult.TryFrom<ResultFromServer>", "ListToolsResult.TryFrom<ResultFromServer>", "CallToolResult.TryFrom<ResultFromServer>", "GetTaskResult.TryFrom<ResultFromServer>", "GetTaskPayloadResult.TryFrom<ResultFromServer>", "CancelTaskResult.TryFrom<ResultFromServer>", "ListTasksResult.TryFrom<ResultFromServer>", "CompleteResult.TryFrom<ResultFromServer>", "CreateTaskResult.TryFrom<ResultFromServer>", "ContentBlock.text_content", "ContentBlock.image_content", "ContentBlock.audio_content", "ContentBlock.resource_link", "ContentBlock.embedded_resource", "ContentBlock.content_type", "ContentBlock.as_text_content", "ContentBlock.as_image_content", "ContentBlock.as_audio_content", "ContentBlock.as_resource_link", "ContentBlock.as_embedded_resource", "CallToolResult.text_content", "CallToolResult.image_content", "CallToolResult.audio_content", "CallToolResult.resource_link", "CallToolResult.embedded_resource", "CallToolResult.with_error", "CallToolResult.with_meta", "CallToolResult.with_structured_content", "CallToolResult.from_content", "CallToolResult.add_content", "ServerRequest.request_id", "ClientRequest.request_id", "IconTheme.From<&str>", "ElicitResultContent.From<&str>", "ElicitResultContentPrimitive.From<&str>", "ElicitResultContentPrimitive.From<String>", "ElicitResultContent.From<String>", "ElicitResultContent.From<Vec<&str>>", "ElicitResultContent.From<i64>", "CallToolRequestParams.new", "CallToolRequestParams.with_arguments", "CallToolRequestParams.with_meta", "CallToolRequestParams.with_task", "Annotations.default", "CallToolMeta.default", "CancelledNotificationParams.default", "ClientCapabilities.default", "ClientElicitation.default", "ClientRoots.default", "ClientSampling.default", "ClientTaskElicitation.default", "ClientTaskRequest.default", "ClientTaskSampling.default", "ClientTasks.default", "CompleteRequestContext.default", "CompleteRequestMeta.default", "ElicitFormMeta.default", "ElicitUrlMeta.default", "GetPromptMeta.default", "GetTaskPayloadResult.default", "Icons.default", "InitializeMeta.default", "MessageMeta.default", "ModelHint.default", "ModelPreferences.default", "NotificationParams.default", "PaginatedMeta.default", "PaginatedRequestParams.default", "PaginatedResult.default", "ReadResourceMeta.default", "RequestParams.default", "RequestParamsMeta.default", "ResourceMeta.default", "Result.default", "ServerCapabilities.default", "ServerCapabilitiesPrompts.default", "ServerCapabilitiesResources.default", "ServerCapabilitiesTools.default", "ServerTaskRequest.default", "ServerTaskTools.default", "ServerTasks.default", "SetLevelMeta.default", "SubscribeMeta.default", "TaskAugmentedMeta.default", "TaskAugmentedRequestParams.default", "TaskMetadata.default", "ToolAnnotations.default", "ToolChoice.default", "ToolExecution.default", "UnsubscribeMeta.default", "RequestId.eq", "RequestId.find"];
pub const TYPES: &[&str] = &["Annotations", "AudioContent", "BaseMetadata", "BlobResourceContents", "BooleanSchema", "CallToolMeta", "CallToolRequest", "CallToolRequestParams", "CallToolResult", "CancelTaskParams", "CancelTaskRequest", "CancelTaskResult", "CancelledNotification", "CancelledNotificationParams", "ClientCapabilities", "ClientElicitation", "ClientNotification", "ClientRequest", "ClientResult", "ClientRoots", "ClientSampling", "ClientTaskElicitation", "ClientTaskRequest", "ClientTaskSampling", "ClientTasks", "CompleteRequest", "CompleteRequestArgument", "CompleteRequestContext", "CompleteRequestMeta", "CompleteRequestParams", "CompleteRequestRef", "CompleteResult", "CompleteResultCompletion", "ContentBlock", "CreateMessageContent", "CreateMessageRequest", "CreateMessageRequestParams", "CreateMessageResult", "CreateTaskResult", "Cursor", "ElicitCompleteParams", "ElicitFormMeta", "ElicitFormSchema", "ElicitRequest", "ElicitRequestFormParams", "ElicitRequestParams", "ElicitRequestUrlParams", "ElicitResult", "ElicitResultAction", "ElicitResultContent", "ElicitResultContentPrimitive", "ElicitUrlMeta", "ElicitationCompleteNotification", "EmbeddedResource", "EmbeddedResourceResource", "EmptyResult", "EnumSchema", "GetPromptMeta", "GetPromptRequest", "GetPromptRequestParams", "GetPromptResult", "GetTaskParams", "GetTaskPayloadParams", "GetTaskPayloadRequest", "GetTaskPayloadResult", "GetTaskRequest", "GetTaskResult", "Icon", "IconTheme", "Icons", "ImageContent", "Implementation", "IncludeContext", "InitializeMeta", "InitializeRequest", "InitializeRequestParams", "InitializeResult", "InitializedNotification", "JsonrpcErrorResponse", "JsonrpcMessage", "JsonrpcNotification", "JsonrpcRequest", "JsonrpcResponse", "JsonrpcResultResponse", "LegacyTitledEnumSchema", "ListPromptsRequest", "ListPromptsResult", "ListResourceTemplatesRequest", "ListResourceTemplatesResult", "ListResourcesRequest", "ListResourcesResult", "ListRootsRequest", "ListRootsResult", "ListTasksRequest", "ListTasksResult", "ListToolsRequest", "ListToolsResult", "LoggingLevel", "LoggingMessageNotification", "LoggingMessageNotificationParams", "MessageMeta", "ModelHint", "ModelPreferences", "MultiSelectEnumSchema", "Notification", "NotificationParams", "NumberSchema", "NumberSchemaType", "PaginatedMeta", "PaginatedRequest", "PaginatedRequestParams", "PaginatedResult", "PingRequest", "PrimitiveSchemaDefinition", "ProgressNotification", "ProgressNotificationParams", "ProgressToken", "Prompt", "PromptArgument", "PromptListChangedNotification", "PromptMessage", "PromptReference", "ReadResourceContent", "ReadResourceMeta", "ReadResourceRequest", "ReadResourceRequestParams", "ReadResourceResult", "RelatedTaskMetadata", "Request", "RequestId", "RequestParams", "RequestParamsMeta", "Resource", "ResourceContents", "ResourceLink", "ResourceListChangedNotification", "ResourceMeta", "ResourceRequestParams", "ResourceTemplate", "ResourceTemplateReference", "ResourceUpdatedNotification", "ResourceUpdatedNotificationParams", "Result", "Role", "Root", "RootsListChangedNotification", "RpcError", "SamplingMessage", "SamplingMessageContent", "SamplingMessageContentBlock", "ServerCapabilities", "ServerCapabilitiesPrompts", "ServerCapabilitiesResources", "ServerCapabilitiesTools", "ServerNotification", "ServerRequest", "ServerResult", "ServerTaskRequest", "ServerTaskTools", "ServerTasks", "SetLevelMeta", "SetLevelRequest", "SetLevelRequestParams", "SingleSelectEnumSchema", "StringSchema", "StringSchemaFormat", "SubscribeMeta", "SubscribeRequest", "SubscribeRequestParams", "Task", "TaskAugmentedMeta", "TaskAugmentedRequestParams", "TaskMetadata", "TaskStatus", "TaskStatusNotification", "TaskStatusNotificationParams", "TextContent", "TextResourceContents", "TitledMultiSelectEnumSchema", "TitledMultiSelectEnumSchemaItems", "TitledMultiSelectEnumSchemaItemsAnyOfItem", "TitledSingleSelectEnumSchema", "TitledSingleSelectEnumSchemaOneOfItem", "Tool", "ToolAnnotations", "ToolChoice", "ToolChoiceMode", "ToolExecution", "ToolExecutionTaskSupport", "ToolInputSchema", "ToolListChangedNotification", "ToolOutputSchema", "ToolResultContent", "ToolUseContent", "UnsubscribeMeta", "UnsubscribeRequest", "UnsubscribeRequestParams", "UntitledMultiSelectEnumSchema", "UntitledMultiSelectEnumSchemaItems", "UntitledSingleSelectEnumSchema", "UrlElicitError", "UrlElicitErrorData", "UrlElicitationRequiredError", "ClientMessage", "ClientJsonrpcRequest", "RequestFromClient", "ClientJsonrpcNotification", "NotificationFromClient", "ClientJsonrpcResponse", "ResultFromClient", "ClientTaskResult", "ServerMessage", "ServerJsonrpcRequest", "CustomRequest", "RequestFromServer", "ServerJsonrpcNotification", "NotificationFromServer", "ServerJsonrpcResponse", "ResultFromServer", "MessageFromServer", "MessageFromClient", "ClientMessages", "ServerMessages", "MessagesFromServer", "MessagesFromClient", "SdkError"];
