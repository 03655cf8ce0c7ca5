------------------------------- MODULE Schema -------------------------------
(* Protocol tables of MCP schema version 2025_11_25: one entry per wire type.                *)
(* Type expressions and field modes are explained in ../Codec.tla.                   *)
EXTENDS TLC
SchemaVersion == "2025_11_25"

T_Annotations == [k|->"struct",f|-><<[n|->"audience",r|->"audience",t|-><<"vec",<<"ref","Role">>>>,m|->"skip"],
    [n|->"lastModified",r|->"last_modified",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"priority",r|->"priority",t|-><<"opt",<<"f64">>>>,m|->"skip"]>>]
T_AudioContent == [k|->"struct",f|-><<[n|->"annotations",r|->"annotations",t|-><<"opt",<<"ref","Annotations">>>>,m|->"skip"],
    [n|->"data",r|->"data",t|-><<"str">>,m|->"req"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"mimeType",r|->"mime_type",t|-><<"str">>,m|->"req"],
    [n|->"type",r|->"type_",t|-><<"cs","audio">>,m|->"must"]>>]
T_BaseMetadata == [k|->"struct",f|-><<[n|->"name",r|->"name",t|-><<"str">>,m|->"req"],
    [n|->"title",r|->"title",t|-><<"opt",<<"str">>>>,m|->"skip"]>>]
T_BlobResourceContents == [k|->"struct",f|-><<[n|->"blob",r|->"blob",t|-><<"str">>,m|->"req"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"mimeType",r|->"mime_type",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"uri",r|->"uri",t|-><<"str">>,m|->"req"]>>]
T_BooleanSchema == [k|->"struct",f|-><<[n|->"default",r|->"default",t|-><<"opt",<<"bool">>>>,m|->"skip"],
    [n|->"description",r|->"description",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"title",r|->"title",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"type",r|->"type_",t|-><<"cs","boolean">>,m|->"must"]>>]
T_CallToolMeta == [k|->"struct",f|-><<[n|->"progressToken",r|->"progress_token",t|-><<"opt",<<"ref","ProgressToken">>>>,m|->"skip"],
    [n|->"extra",r|->"extra",t|-><<"opt",<<"map">>>>,m|->"flat"]>>]
T_CallToolRequest == [k|->"struct",f|-><<[n|->"id",r|->"id",t|-><<"ref","RequestId">>,m|->"req"],
    [n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"method",r|->"method",t|-><<"cs","tools/call">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"ref","CallToolRequestParams">>,m|->"req"]>>]
T_CallToolRequestParams == [k|->"struct",f|-><<[n|->"arguments",r|->"arguments",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"ref","CallToolMeta">>>>,m|->"skip"],
    [n|->"name",r|->"name",t|-><<"str">>,m|->"req"],
    [n|->"task",r|->"task",t|-><<"opt",<<"ref","TaskMetadata">>>>,m|->"skip"]>>]
T_CallToolResult == [k|->"struct",f|-><<[n|->"content",r|->"content",t|-><<"vec",<<"ref","ContentBlock">>>>,m|->"req"],
    [n|->"isError",r|->"is_error",t|-><<"opt",<<"bool">>>>,m|->"skip"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"structuredContent",r|->"structured_content",t|-><<"opt",<<"map">>>>,m|->"skip"]>>]
T_CancelTaskParams == [k|->"struct",f|-><<[n|->"taskId",r|->"task_id",t|-><<"str">>,m|->"req"]>>]
T_CancelTaskRequest == [k|->"struct",f|-><<[n|->"id",r|->"id",t|-><<"ref","RequestId">>,m|->"req"],
    [n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"method",r|->"method",t|-><<"cs","tasks/cancel">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"ref","CancelTaskParams">>,m|->"req"]>>]
T_CancelTaskResult == [k|->"struct",f|-><<[n|->"createdAt",r|->"created_at",t|-><<"str">>,m|->"req"],
    [n|->"lastUpdatedAt",r|->"last_updated_at",t|-><<"str">>,m|->"req"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"pollInterval",r|->"poll_interval",t|-><<"opt",<<"i64">>>>,m|->"skip"],
    [n|->"status",r|->"status",t|-><<"ref","TaskStatus">>,m|->"req"],
    [n|->"statusMessage",r|->"status_message",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"taskId",r|->"task_id",t|-><<"str">>,m|->"req"],
    [n|->"ttl",r|->"ttl",t|-><<"opt",<<"i64">>>>,m|->"req"],
    [n|->"extra",r|->"extra",t|-><<"opt",<<"map">>>>,m|->"flat"]>>]
T_CancelledNotification == [k|->"struct",f|-><<[n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"method",r|->"method",t|-><<"cs","notifications/cancelled">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"ref","CancelledNotificationParams">>,m|->"req"]>>]
T_CancelledNotificationParams == [k|->"struct",f|-><<[n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"reason",r|->"reason",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"requestId",r|->"request_id",t|-><<"opt",<<"ref","RequestId">>>>,m|->"skip"]>>]
T_ClientCapabilities == [k|->"struct",f|-><<[n|->"elicitation",r|->"elicitation",t|-><<"opt",<<"ref","ClientElicitation">>>>,m|->"skip"],
    [n|->"experimental",r|->"experimental",t|-><<"opt",<<"hmap",<<"map">>>>>>,m|->"skip"],
    [n|->"roots",r|->"roots",t|-><<"opt",<<"ref","ClientRoots">>>>,m|->"skip"],
    [n|->"sampling",r|->"sampling",t|-><<"opt",<<"ref","ClientSampling">>>>,m|->"skip"],
    [n|->"tasks",r|->"tasks",t|-><<"opt",<<"ref","ClientTasks">>>>,m|->"skip"]>>]
T_ClientElicitation == [k|->"struct",f|-><<[n|->"form",r|->"form",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"url",r|->"url",t|-><<"opt",<<"map">>>>,m|->"skip"]>>]
T_ClientNotification == [k|->"dispatch",v|-><<[m|->"notifications/cancelled",n|->"CancelledNotification",t|-><<"ref","CancelledNotification">>],
    [m|->"notifications/initialized",n|->"InitializedNotification",t|-><<"ref","InitializedNotification">>],
    [m|->"notifications/progress",n|->"ProgressNotification",t|-><<"ref","ProgressNotification">>],
    [m|->"notifications/tasks/status",n|->"TaskStatusNotification",t|-><<"ref","TaskStatusNotification">>],
    [m|->"notifications/roots/list_changed",n|->"RootsListChangedNotification",t|-><<"ref","RootsListChangedNotification">>]>>]
T_ClientRequest == [k|->"dispatch",v|-><<[m|->"initialize",n|->"InitializeRequest",t|-><<"ref","InitializeRequest">>],
    [m|->"ping",n|->"PingRequest",t|-><<"ref","PingRequest">>],
    [m|->"resources/list",n|->"ListResourcesRequest",t|-><<"ref","ListResourcesRequest">>],
    [m|->"resources/templates/list",n|->"ListResourceTemplatesRequest",t|-><<"ref","ListResourceTemplatesRequest">>],
    [m|->"resources/read",n|->"ReadResourceRequest",t|-><<"ref","ReadResourceRequest">>],
    [m|->"resources/subscribe",n|->"SubscribeRequest",t|-><<"ref","SubscribeRequest">>],
    [m|->"resources/unsubscribe",n|->"UnsubscribeRequest",t|-><<"ref","UnsubscribeRequest">>],
    [m|->"prompts/list",n|->"ListPromptsRequest",t|-><<"ref","ListPromptsRequest">>],
    [m|->"prompts/get",n|->"GetPromptRequest",t|-><<"ref","GetPromptRequest">>],
    [m|->"tools/list",n|->"ListToolsRequest",t|-><<"ref","ListToolsRequest">>],
    [m|->"tools/call",n|->"CallToolRequest",t|-><<"ref","CallToolRequest">>],
    [m|->"tasks/get",n|->"GetTaskRequest",t|-><<"ref","GetTaskRequest">>],
    [m|->"tasks/result",n|->"GetTaskPayloadRequest",t|-><<"ref","GetTaskPayloadRequest">>],
    [m|->"tasks/cancel",n|->"CancelTaskRequest",t|-><<"ref","CancelTaskRequest">>],
    [m|->"tasks/list",n|->"ListTasksRequest",t|-><<"ref","ListTasksRequest">>],
    [m|->"logging/setLevel",n|->"SetLevelRequest",t|-><<"ref","SetLevelRequest">>],
    [m|->"completion/complete",n|->"CompleteRequest",t|-><<"ref","CompleteRequest">>]>>]
T_ClientResult == [k|->"untag",v|-><<[n|->"GetTaskResult",k|->"nt",t|-><<"ref","GetTaskResult">>],
    [n|->"CancelTaskResult",k|->"nt",t|-><<"ref","CancelTaskResult">>],
    [n|->"ListTasksResult",k|->"nt",t|-><<"ref","ListTasksResult">>],
    [n|->"CreateMessageResult",k|->"nt",t|-><<"ref","CreateMessageResult">>],
    [n|->"ListRootsResult",k|->"nt",t|-><<"ref","ListRootsResult">>],
    [n|->"ElicitResult",k|->"nt",t|-><<"ref","ElicitResult">>],
    [n|->"Result",k|->"nt",t|-><<"ref","Result">>],
    [n|->"GetTaskPayloadResult",k|->"nt",t|-><<"ref","GetTaskPayloadResult">>]>>]
T_ClientRoots == [k|->"struct",f|-><<[n|->"listChanged",r|->"list_changed",t|-><<"opt",<<"bool">>>>,m|->"skip"]>>]
T_ClientSampling == [k|->"struct",f|-><<[n|->"context",r|->"context",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"tools",r|->"tools",t|-><<"opt",<<"map">>>>,m|->"skip"]>>]
T_ClientTaskElicitation == [k|->"struct",f|-><<[n|->"create",r|->"create",t|-><<"opt",<<"map">>>>,m|->"skip"]>>]
T_ClientTaskRequest == [k|->"struct",f|-><<[n|->"elicitation",r|->"elicitation",t|-><<"opt",<<"ref","ClientTaskElicitation">>>>,m|->"skip"],
    [n|->"sampling",r|->"sampling",t|-><<"opt",<<"ref","ClientTaskSampling">>>>,m|->"skip"]>>]
T_ClientTaskSampling == [k|->"struct",f|-><<[n|->"createMessage",r|->"create_message",t|-><<"opt",<<"map">>>>,m|->"skip"]>>]
T_ClientTasks == [k|->"struct",f|-><<[n|->"cancel",r|->"cancel",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"list",r|->"list",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"requests",r|->"requests",t|-><<"opt",<<"ref","ClientTaskRequest">>>>,m|->"skip"]>>]
T_CompleteRequest == [k|->"struct",f|-><<[n|->"id",r|->"id",t|-><<"ref","RequestId">>,m|->"req"],
    [n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"method",r|->"method",t|-><<"cs","completion/complete">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"ref","CompleteRequestParams">>,m|->"req"]>>]
T_CompleteRequestArgument == [k|->"struct",f|-><<[n|->"name",r|->"name",t|-><<"str">>,m|->"req"],
    [n|->"value",r|->"value",t|-><<"str">>,m|->"req"]>>]
T_CompleteRequestContext == [k|->"struct",f|-><<[n|->"arguments",r|->"arguments",t|-><<"opt",<<"hmap",<<"str">>>>>>,m|->"skip"]>>]
T_CompleteRequestMeta == [k|->"struct",f|-><<[n|->"progressToken",r|->"progress_token",t|-><<"opt",<<"ref","ProgressToken">>>>,m|->"skip"],
    [n|->"extra",r|->"extra",t|-><<"opt",<<"map">>>>,m|->"flat"]>>]
T_CompleteRequestParams == [k|->"struct",f|-><<[n|->"argument",r|->"argument",t|-><<"ref","CompleteRequestArgument">>,m|->"req"],
    [n|->"context",r|->"context",t|-><<"opt",<<"ref","CompleteRequestContext">>>>,m|->"skip"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"ref","CompleteRequestMeta">>>>,m|->"skip"],
    [n|->"ref",r|->"ref_",t|-><<"ref","CompleteRequestRef">>,m|->"req"]>>]
T_CompleteRequestRef == [k|->"untag",v|-><<[n|->"PromptReference",k|->"nt",t|-><<"ref","PromptReference">>],
    [n|->"ResourceTemplateReference",k|->"nt",t|-><<"ref","ResourceTemplateReference">>]>>]
T_CompleteResult == [k|->"struct",f|-><<[n|->"completion",r|->"completion",t|-><<"ref","CompleteResultCompletion">>,m|->"req"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"]>>]
T_CompleteResultCompletion == [k|->"struct",f|-><<[n|->"hasMore",r|->"has_more",t|-><<"opt",<<"bool">>>>,m|->"skip"],
    [n|->"total",r|->"total",t|-><<"opt",<<"i64">>>>,m|->"skip"],
    [n|->"values",r|->"values",t|-><<"vec",<<"str">>>>,m|->"req"]>>]
T_ContentBlock == [k|->"untag",v|-><<[n|->"TextContent",k|->"nt",t|-><<"ref","TextContent">>],
    [n|->"ImageContent",k|->"nt",t|-><<"ref","ImageContent">>],
    [n|->"AudioContent",k|->"nt",t|-><<"ref","AudioContent">>],
    [n|->"ResourceLink",k|->"nt",t|-><<"ref","ResourceLink">>],
    [n|->"EmbeddedResource",k|->"nt",t|-><<"ref","EmbeddedResource">>]>>]
T_CreateMessageContent == [k|->"untag",v|-><<[n|->"TextContent",k|->"nt",t|-><<"ref","TextContent">>],
    [n|->"ImageContent",k|->"nt",t|-><<"ref","ImageContent">>],
    [n|->"AudioContent",k|->"nt",t|-><<"ref","AudioContent">>],
    [n|->"ToolUseContent",k|->"nt",t|-><<"ref","ToolUseContent">>],
    [n|->"ToolResultContent",k|->"nt",t|-><<"ref","ToolResultContent">>],
    [n|->"SamplingMessageContentBlock",k|->"nt",t|-><<"vec",<<"ref","SamplingMessageContentBlock">>>>]>>]
T_CreateMessageRequest == [k|->"struct",f|-><<[n|->"id",r|->"id",t|-><<"ref","RequestId">>,m|->"req"],
    [n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"method",r|->"method",t|-><<"cs","sampling/createMessage">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"ref","CreateMessageRequestParams">>,m|->"req"]>>]
T_CreateMessageRequestParams == [k|->"struct",f|-><<[n|->"includeContext",r|->"include_context",t|-><<"opt",<<"ref","IncludeContext">>>>,m|->"skip"],
    [n|->"maxTokens",r|->"max_tokens",t|-><<"i64">>,m|->"req"],
    [n|->"messages",r|->"messages",t|-><<"vec",<<"ref","SamplingMessage">>>>,m|->"req"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"ref","MessageMeta">>>>,m|->"skip"],
    [n|->"metadata",r|->"metadata",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"modelPreferences",r|->"model_preferences",t|-><<"opt",<<"ref","ModelPreferences">>>>,m|->"skip"],
    [n|->"stopSequences",r|->"stop_sequences",t|-><<"vec",<<"str">>>>,m|->"skip"],
    [n|->"systemPrompt",r|->"system_prompt",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"task",r|->"task",t|-><<"opt",<<"ref","TaskMetadata">>>>,m|->"skip"],
    [n|->"temperature",r|->"temperature",t|-><<"opt",<<"f64">>>>,m|->"skip"],
    [n|->"toolChoice",r|->"tool_choice",t|-><<"opt",<<"ref","ToolChoice">>>>,m|->"skip"],
    [n|->"tools",r|->"tools",t|-><<"vec",<<"ref","Tool">>>>,m|->"skip"]>>]
T_CreateMessageResult == [k|->"struct",f|-><<[n|->"content",r|->"content",t|-><<"ref","CreateMessageContent">>,m|->"req"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"model",r|->"model",t|-><<"str">>,m|->"req"],
    [n|->"role",r|->"role",t|-><<"ref","Role">>,m|->"req"],
    [n|->"stopReason",r|->"stop_reason",t|-><<"opt",<<"str">>>>,m|->"skip"]>>]
T_CreateTaskResult == [k|->"struct",f|-><<[n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"task",r|->"task",t|-><<"ref","Task">>,m|->"req"]>>]
T_Cursor == [k|->"new",t|-><<"str">>]
T_ElicitCompleteParams == [k|->"struct",f|-><<[n|->"elicitationId",r|->"elicitation_id",t|-><<"str">>,m|->"req"]>>]
T_ElicitFormMeta == [k|->"struct",f|-><<[n|->"progressToken",r|->"progress_token",t|-><<"opt",<<"ref","ProgressToken">>>>,m|->"skip"],
    [n|->"extra",r|->"extra",t|-><<"opt",<<"map">>>>,m|->"flat"]>>]
T_ElicitFormSchema == [k|->"struct",f|-><<[n|->"properties",r|->"properties",t|-><<"hmap",<<"ref","PrimitiveSchemaDefinition">>>>,m|->"req"],
    [n|->"required",r|->"required",t|-><<"vec",<<"str">>>>,m|->"skip"],
    [n|->"$schema",r|->"schema",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"type",r|->"type_",t|-><<"cs","object">>,m|->"must"]>>]
T_ElicitRequest == [k|->"struct",f|-><<[n|->"id",r|->"id",t|-><<"ref","RequestId">>,m|->"req"],
    [n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"method",r|->"method",t|-><<"cs","elicitation/create">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"ref","ElicitRequestParams">>,m|->"req"]>>]
T_ElicitRequestFormParams == [k|->"struct",f|-><<[n|->"message",r|->"message",t|-><<"str">>,m|->"req"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"ref","ElicitFormMeta">>>>,m|->"skip"],
    [n|->"mode",r|->"mode",t|-><<"opt",<<"cs","form">>>>,m|->"skip"],
    [n|->"requestedSchema",r|->"requested_schema",t|-><<"ref","ElicitFormSchema">>,m|->"req"],
    [n|->"task",r|->"task",t|-><<"opt",<<"ref","TaskMetadata">>>>,m|->"skip"]>>]
T_ElicitRequestParams == [k|->"untag",v|-><<[n|->"UrlParams",k|->"nt",t|-><<"ref","ElicitRequestUrlParams">>],
    [n|->"FormParams",k|->"nt",t|-><<"ref","ElicitRequestFormParams">>]>>]
T_ElicitRequestUrlParams == [k|->"struct",f|-><<[n|->"elicitationId",r|->"elicitation_id",t|-><<"str">>,m|->"req"],
    [n|->"message",r|->"message",t|-><<"str">>,m|->"req"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"ref","ElicitUrlMeta">>>>,m|->"skip"],
    [n|->"mode",r|->"mode",t|-><<"cs","url">>,m|->"must"],
    [n|->"task",r|->"task",t|-><<"opt",<<"ref","TaskMetadata">>>>,m|->"skip"],
    [n|->"url",r|->"url",t|-><<"str">>,m|->"req"]>>]
T_ElicitResult == [k|->"struct",f|-><<[n|->"action",r|->"action",t|-><<"ref","ElicitResultAction">>,m|->"req"],
    [n|->"content",r|->"content",t|-><<"opt",<<"hmap",<<"ref","ElicitResultContent">>>>>>,m|->"skip"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"]>>]
T_ElicitResultAction == [k|->"unit",v|-><<<<"accept","Accept">>,<<"cancel","Cancel">>,<<"decline","Decline">>>>]
T_ElicitResultContent == [k|->"untag",v|-><<[n|->"StringArray",k|->"nt",t|-><<"vec",<<"str">>>>],
    [n|->"Primitive",k|->"nt",t|-><<"ref","ElicitResultContentPrimitive">>]>>]
T_ElicitResultContentPrimitive == [k|->"untag",v|-><<[n|->"Boolean",k|->"nt",t|-><<"bool">>],
    [n|->"String",k|->"nt",t|-><<"str">>],
    [n|->"Integer",k|->"nt",t|-><<"i64">>]>>]
T_ElicitUrlMeta == [k|->"struct",f|-><<[n|->"progressToken",r|->"progress_token",t|-><<"opt",<<"ref","ProgressToken">>>>,m|->"skip"],
    [n|->"extra",r|->"extra",t|-><<"opt",<<"map">>>>,m|->"flat"]>>]
T_ElicitationCompleteNotification == [k|->"struct",f|-><<[n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"method",r|->"method",t|-><<"cs","notifications/elicitation/complete">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"ref","ElicitCompleteParams">>,m|->"req"]>>]
T_EmbeddedResource == [k|->"struct",f|-><<[n|->"annotations",r|->"annotations",t|-><<"opt",<<"ref","Annotations">>>>,m|->"skip"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"resource",r|->"resource",t|-><<"ref","EmbeddedResourceResource">>,m|->"req"],
    [n|->"type",r|->"type_",t|-><<"cs","resource">>,m|->"must"]>>]
T_EmbeddedResourceResource == [k|->"untag",v|-><<[n|->"TextResourceContents",k|->"nt",t|-><<"ref","TextResourceContents">>],
    [n|->"BlobResourceContents",k|->"nt",t|-><<"ref","BlobResourceContents">>]>>]
T_EmptyResult == [k|->"new",t|-><<"ref","Result">>]
T_EnumSchema == [k|->"untag",v|-><<[n|->"UntitledSingleSelectEnumSchema",k|->"nt",t|-><<"ref","UntitledSingleSelectEnumSchema">>],
    [n|->"TitledSingleSelectEnumSchema",k|->"nt",t|-><<"ref","TitledSingleSelectEnumSchema">>],
    [n|->"UntitledMultiSelectEnumSchema",k|->"nt",t|-><<"ref","UntitledMultiSelectEnumSchema">>],
    [n|->"TitledMultiSelectEnumSchema",k|->"nt",t|-><<"ref","TitledMultiSelectEnumSchema">>],
    [n|->"LegacyTitledEnumSchema",k|->"nt",t|-><<"ref","LegacyTitledEnumSchema">>]>>]
T_GetPromptMeta == [k|->"struct",f|-><<[n|->"progressToken",r|->"progress_token",t|-><<"opt",<<"ref","ProgressToken">>>>,m|->"skip"],
    [n|->"extra",r|->"extra",t|-><<"opt",<<"map">>>>,m|->"flat"]>>]
T_GetPromptRequest == [k|->"struct",f|-><<[n|->"id",r|->"id",t|-><<"ref","RequestId">>,m|->"req"],
    [n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"method",r|->"method",t|-><<"cs","prompts/get">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"ref","GetPromptRequestParams">>,m|->"req"]>>]
T_GetPromptRequestParams == [k|->"struct",f|-><<[n|->"arguments",r|->"arguments",t|-><<"opt",<<"hmap",<<"str">>>>>>,m|->"skip"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"ref","GetPromptMeta">>>>,m|->"skip"],
    [n|->"name",r|->"name",t|-><<"str">>,m|->"req"]>>]
T_GetPromptResult == [k|->"struct",f|-><<[n|->"description",r|->"description",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"messages",r|->"messages",t|-><<"vec",<<"ref","PromptMessage">>>>,m|->"req"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"]>>]
T_GetTaskParams == [k|->"struct",f|-><<[n|->"taskId",r|->"task_id",t|-><<"str">>,m|->"req"]>>]
T_GetTaskPayloadParams == [k|->"struct",f|-><<[n|->"taskId",r|->"task_id",t|-><<"str">>,m|->"req"]>>]
T_GetTaskPayloadRequest == [k|->"struct",f|-><<[n|->"id",r|->"id",t|-><<"ref","RequestId">>,m|->"req"],
    [n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"method",r|->"method",t|-><<"cs","tasks/result">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"ref","GetTaskPayloadParams">>,m|->"req"]>>]
T_GetTaskPayloadResult == [k|->"struct",f|-><<[n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"extra",r|->"extra",t|-><<"opt",<<"map">>>>,m|->"flat"]>>]
T_GetTaskRequest == [k|->"struct",f|-><<[n|->"id",r|->"id",t|-><<"ref","RequestId">>,m|->"req"],
    [n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"method",r|->"method",t|-><<"cs","tasks/get">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"ref","GetTaskParams">>,m|->"req"]>>]
T_GetTaskResult == [k|->"struct",f|-><<[n|->"createdAt",r|->"created_at",t|-><<"str">>,m|->"req"],
    [n|->"lastUpdatedAt",r|->"last_updated_at",t|-><<"str">>,m|->"req"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"pollInterval",r|->"poll_interval",t|-><<"opt",<<"i64">>>>,m|->"skip"],
    [n|->"status",r|->"status",t|-><<"ref","TaskStatus">>,m|->"req"],
    [n|->"statusMessage",r|->"status_message",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"taskId",r|->"task_id",t|-><<"str">>,m|->"req"],
    [n|->"ttl",r|->"ttl",t|-><<"opt",<<"i64">>>>,m|->"req"],
    [n|->"extra",r|->"extra",t|-><<"opt",<<"map">>>>,m|->"flat"]>>]
T_Icon == [k|->"struct",f|-><<[n|->"mimeType",r|->"mime_type",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"sizes",r|->"sizes",t|-><<"vec",<<"str">>>>,m|->"skip"],
    [n|->"src",r|->"src",t|-><<"str">>,m|->"req"],
    [n|->"theme",r|->"theme",t|-><<"opt",<<"ref","IconTheme">>>>,m|->"skip"]>>]
T_IconTheme == [k|->"unit",v|-><<<<"dark","Dark">>,<<"light","Light">>>>]
T_Icons == [k|->"struct",f|-><<[n|->"icons",r|->"icons",t|-><<"vec",<<"ref","Icon">>>>,m|->"skip"]>>]
T_ImageContent == [k|->"struct",f|-><<[n|->"annotations",r|->"annotations",t|-><<"opt",<<"ref","Annotations">>>>,m|->"skip"],
    [n|->"data",r|->"data",t|-><<"str">>,m|->"req"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"mimeType",r|->"mime_type",t|-><<"str">>,m|->"req"],
    [n|->"type",r|->"type_",t|-><<"cs","image">>,m|->"must"]>>]
T_Implementation == [k|->"struct",f|-><<[n|->"description",r|->"description",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"icons",r|->"icons",t|-><<"vec",<<"ref","Icon">>>>,m|->"skip"],
    [n|->"name",r|->"name",t|-><<"str">>,m|->"req"],
    [n|->"title",r|->"title",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"version",r|->"version",t|-><<"str">>,m|->"req"],
    [n|->"websiteUrl",r|->"website_url",t|-><<"opt",<<"str">>>>,m|->"skip"]>>]
T_IncludeContext == [k|->"unit",v|-><<<<"allServers","AllServers">>,<<"none","None">>,<<"thisServer","ThisServer">>>>]
T_InitializeMeta == [k|->"struct",f|-><<[n|->"progressToken",r|->"progress_token",t|-><<"opt",<<"ref","ProgressToken">>>>,m|->"skip"],
    [n|->"extra",r|->"extra",t|-><<"opt",<<"map">>>>,m|->"flat"]>>]
T_InitializeRequest == [k|->"struct",f|-><<[n|->"id",r|->"id",t|-><<"ref","RequestId">>,m|->"req"],
    [n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"method",r|->"method",t|-><<"cs","initialize">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"ref","InitializeRequestParams">>,m|->"req"]>>]
T_InitializeRequestParams == [k|->"struct",f|-><<[n|->"capabilities",r|->"capabilities",t|-><<"ref","ClientCapabilities">>,m|->"req"],
    [n|->"clientInfo",r|->"client_info",t|-><<"ref","Implementation">>,m|->"req"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"ref","InitializeMeta">>>>,m|->"skip"],
    [n|->"protocolVersion",r|->"protocol_version",t|-><<"str">>,m|->"req"]>>]
T_InitializeResult == [k|->"struct",f|-><<[n|->"capabilities",r|->"capabilities",t|-><<"ref","ServerCapabilities">>,m|->"req"],
    [n|->"instructions",r|->"instructions",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"protocolVersion",r|->"protocol_version",t|-><<"str">>,m|->"req"],
    [n|->"serverInfo",r|->"server_info",t|-><<"ref","Implementation">>,m|->"req"]>>]
T_InitializedNotification == [k|->"struct",f|-><<[n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"method",r|->"method",t|-><<"cs","notifications/initialized">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"opt",<<"ref","NotificationParams">>>>,m|->"skip"]>>]
T_JsonrpcErrorResponse == [k|->"struct",f|-><<[n|->"error",r|->"error",t|-><<"ref","RpcError">>,m|->"req"],
    [n|->"id",r|->"id",t|-><<"opt",<<"ref","RequestId">>>>,m|->"skip"],
    [n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"]>>]
T_JsonrpcMessage == [k|->"untag",v|-><<[n|->"Request",k|->"nt",t|-><<"ref","JsonrpcRequest">>],
    [n|->"Notification",k|->"nt",t|-><<"ref","JsonrpcNotification">>],
    [n|->"ResultResponse",k|->"nt",t|-><<"ref","JsonrpcResultResponse">>],
    [n|->"ErrorResponse",k|->"nt",t|-><<"ref","JsonrpcErrorResponse">>]>>]
T_JsonrpcNotification == [k|->"struct",f|-><<[n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"method",r|->"method",t|-><<"str">>,m|->"req"],
    [n|->"params",r|->"params",t|-><<"opt",<<"map">>>>,m|->"skip"]>>]
T_JsonrpcRequest == [k|->"struct",f|-><<[n|->"id",r|->"id",t|-><<"ref","RequestId">>,m|->"req"],
    [n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"method",r|->"method",t|-><<"str">>,m|->"req"],
    [n|->"params",r|->"params",t|-><<"opt",<<"map">>>>,m|->"skip"]>>]
T_JsonrpcResponse == [k|->"untag",v|-><<[n|->"ResultResponse",k|->"nt",t|-><<"ref","JsonrpcResultResponse">>],
    [n|->"ErrorResponse",k|->"nt",t|-><<"ref","JsonrpcErrorResponse">>]>>]
T_JsonrpcResultResponse == [k|->"struct",f|-><<[n|->"id",r|->"id",t|-><<"ref","RequestId">>,m|->"req"],
    [n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"result",r|->"result",t|-><<"ref","Result">>,m|->"req"]>>]
T_LegacyTitledEnumSchema == [k|->"struct",f|-><<[n|->"default",r|->"default",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"description",r|->"description",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"enum",r|->"enum_",t|-><<"vec",<<"str">>>>,m|->"req"],
    [n|->"enumNames",r|->"enum_names",t|-><<"vec",<<"str">>>>,m|->"skip"],
    [n|->"title",r|->"title",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"type",r|->"type_",t|-><<"cs","string">>,m|->"must"]>>]
T_ListPromptsRequest == [k|->"struct",f|-><<[n|->"id",r|->"id",t|-><<"ref","RequestId">>,m|->"req"],
    [n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"method",r|->"method",t|-><<"cs","prompts/list">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"opt",<<"ref","PaginatedRequestParams">>>>,m|->"skip"]>>]
T_ListPromptsResult == [k|->"struct",f|-><<[n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"nextCursor",r|->"next_cursor",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"prompts",r|->"prompts",t|-><<"vec",<<"ref","Prompt">>>>,m|->"req"]>>]
T_ListResourceTemplatesRequest == [k|->"struct",f|-><<[n|->"id",r|->"id",t|-><<"ref","RequestId">>,m|->"req"],
    [n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"method",r|->"method",t|-><<"cs","resources/templates/list">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"opt",<<"ref","PaginatedRequestParams">>>>,m|->"skip"]>>]
T_ListResourceTemplatesResult == [k|->"struct",f|-><<[n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"nextCursor",r|->"next_cursor",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"resourceTemplates",r|->"resource_templates",t|-><<"vec",<<"ref","ResourceTemplate">>>>,m|->"req"]>>]
T_ListResourcesRequest == [k|->"struct",f|-><<[n|->"id",r|->"id",t|-><<"ref","RequestId">>,m|->"req"],
    [n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"method",r|->"method",t|-><<"cs","resources/list">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"opt",<<"ref","PaginatedRequestParams">>>>,m|->"skip"]>>]
T_ListResourcesResult == [k|->"struct",f|-><<[n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"nextCursor",r|->"next_cursor",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"resources",r|->"resources",t|-><<"vec",<<"ref","Resource">>>>,m|->"req"]>>]
T_ListRootsRequest == [k|->"struct",f|-><<[n|->"id",r|->"id",t|-><<"ref","RequestId">>,m|->"req"],
    [n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"method",r|->"method",t|-><<"cs","roots/list">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"opt",<<"ref","RequestParams">>>>,m|->"skip"]>>]
T_ListRootsResult == [k|->"struct",f|-><<[n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"roots",r|->"roots",t|-><<"vec",<<"ref","Root">>>>,m|->"req"]>>]
T_ListTasksRequest == [k|->"struct",f|-><<[n|->"id",r|->"id",t|-><<"ref","RequestId">>,m|->"req"],
    [n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"method",r|->"method",t|-><<"cs","tasks/list">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"opt",<<"ref","PaginatedRequestParams">>>>,m|->"skip"]>>]
T_ListTasksResult == [k|->"struct",f|-><<[n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"nextCursor",r|->"next_cursor",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"tasks",r|->"tasks",t|-><<"vec",<<"ref","Task">>>>,m|->"req"]>>]
T_ListToolsRequest == [k|->"struct",f|-><<[n|->"id",r|->"id",t|-><<"ref","RequestId">>,m|->"req"],
    [n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"method",r|->"method",t|-><<"cs","tools/list">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"opt",<<"ref","PaginatedRequestParams">>>>,m|->"skip"]>>]
T_ListToolsResult == [k|->"struct",f|-><<[n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"nextCursor",r|->"next_cursor",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"tools",r|->"tools",t|-><<"vec",<<"ref","Tool">>>>,m|->"req"]>>]
T_LoggingLevel == [k|->"unit",v|-><<<<"alert","Alert">>,<<"critical","Critical">>,<<"debug","Debug">>,<<"emergency","Emergency">>,<<"error","Error">>,<<"info","Info">>,<<"notice","Notice">>,<<"warning","Warning">>>>]
T_LoggingMessageNotification == [k|->"struct",f|-><<[n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"method",r|->"method",t|-><<"cs","notifications/message">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"ref","LoggingMessageNotificationParams">>,m|->"req"]>>]
T_LoggingMessageNotificationParams == [k|->"struct",f|-><<[n|->"data",r|->"data",t|-><<"val">>,m|->"req"],
    [n|->"level",r|->"level",t|-><<"ref","LoggingLevel">>,m|->"req"],
    [n|->"logger",r|->"logger",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"]>>]
T_MessageMeta == [k|->"struct",f|-><<[n|->"progressToken",r|->"progress_token",t|-><<"opt",<<"ref","ProgressToken">>>>,m|->"skip"],
    [n|->"extra",r|->"extra",t|-><<"opt",<<"map">>>>,m|->"flat"]>>]
T_ModelHint == [k|->"struct",f|-><<[n|->"name",r|->"name",t|-><<"opt",<<"str">>>>,m|->"skip"]>>]
T_ModelPreferences == [k|->"struct",f|-><<[n|->"costPriority",r|->"cost_priority",t|-><<"opt",<<"f64">>>>,m|->"skip"],
    [n|->"hints",r|->"hints",t|-><<"vec",<<"ref","ModelHint">>>>,m|->"skip"],
    [n|->"intelligencePriority",r|->"intelligence_priority",t|-><<"opt",<<"f64">>>>,m|->"skip"],
    [n|->"speedPriority",r|->"speed_priority",t|-><<"opt",<<"f64">>>>,m|->"skip"]>>]
T_MultiSelectEnumSchema == [k|->"untag",v|-><<[n|->"UntitledMultiSelectEnumSchema",k|->"nt",t|-><<"ref","UntitledMultiSelectEnumSchema">>],
    [n|->"TitledMultiSelectEnumSchema",k|->"nt",t|-><<"ref","TitledMultiSelectEnumSchema">>]>>]
T_Notification == [k|->"struct",f|-><<[n|->"method",r|->"method",t|-><<"str">>,m|->"req"],
    [n|->"params",r|->"params",t|-><<"opt",<<"map">>>>,m|->"skip"]>>]
T_NotificationParams == [k|->"struct",f|-><<[n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"]>>]
T_NumberSchema == [k|->"struct",f|-><<[n|->"default",r|->"default",t|-><<"opt",<<"f64">>>>,m|->"skip"],
    [n|->"description",r|->"description",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"maximum",r|->"maximum",t|-><<"opt",<<"f64">>>>,m|->"skip"],
    [n|->"minimum",r|->"minimum",t|-><<"opt",<<"f64">>>>,m|->"skip"],
    [n|->"title",r|->"title",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"type",r|->"type_",t|-><<"ref","NumberSchemaType">>,m|->"req"]>>]
T_NumberSchemaType == [k|->"unit",v|-><<<<"integer","Integer">>,<<"number","Number">>>>]
T_PaginatedMeta == [k|->"struct",f|-><<[n|->"progressToken",r|->"progress_token",t|-><<"opt",<<"ref","ProgressToken">>>>,m|->"skip"],
    [n|->"extra",r|->"extra",t|-><<"opt",<<"map">>>>,m|->"flat"]>>]
T_PaginatedRequest == [k|->"struct",f|-><<[n|->"id",r|->"id",t|-><<"ref","RequestId">>,m|->"req"],
    [n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"method",r|->"method",t|-><<"str">>,m|->"req"],
    [n|->"params",r|->"params",t|-><<"opt",<<"ref","PaginatedRequestParams">>>>,m|->"skip"]>>]
T_PaginatedRequestParams == [k|->"struct",f|-><<[n|->"cursor",r|->"cursor",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"ref","PaginatedMeta">>>>,m|->"skip"]>>]
T_PaginatedResult == [k|->"struct",f|-><<[n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"nextCursor",r|->"next_cursor",t|-><<"opt",<<"str">>>>,m|->"skip"]>>]
T_PingRequest == [k|->"struct",f|-><<[n|->"id",r|->"id",t|-><<"ref","RequestId">>,m|->"req"],
    [n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"method",r|->"method",t|-><<"cs","ping">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"opt",<<"ref","RequestParams">>>>,m|->"skip"]>>]
T_PrimitiveSchemaDefinition == [k|->"untag",v|-><<[n|->"UntitledSingleSelectEnumSchema",k|->"nt",t|-><<"ref","UntitledSingleSelectEnumSchema">>],
    [n|->"TitledSingleSelectEnumSchema",k|->"nt",t|-><<"ref","TitledSingleSelectEnumSchema">>],
    [n|->"UntitledMultiSelectEnumSchema",k|->"nt",t|-><<"ref","UntitledMultiSelectEnumSchema">>],
    [n|->"TitledMultiSelectEnumSchema",k|->"nt",t|-><<"ref","TitledMultiSelectEnumSchema">>],
    [n|->"LegacyTitledEnumSchema",k|->"nt",t|-><<"ref","LegacyTitledEnumSchema">>],
    [n|->"StringSchema",k|->"nt",t|-><<"ref","StringSchema">>],
    [n|->"NumberSchema",k|->"nt",t|-><<"ref","NumberSchema">>],
    [n|->"BooleanSchema",k|->"nt",t|-><<"ref","BooleanSchema">>]>>]
T_ProgressNotification == [k|->"struct",f|-><<[n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"method",r|->"method",t|-><<"cs","notifications/progress">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"ref","ProgressNotificationParams">>,m|->"req"]>>]
T_ProgressNotificationParams == [k|->"struct",f|-><<[n|->"message",r|->"message",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"progress",r|->"progress",t|-><<"f64">>,m|->"req"],
    [n|->"progressToken",r|->"progress_token",t|-><<"ref","ProgressToken">>,m|->"req"],
    [n|->"total",r|->"total",t|-><<"opt",<<"f64">>>>,m|->"skip"]>>]
T_ProgressToken == [k|->"untag",v|-><<[n|->"String",k|->"nt",t|-><<"str">>],
    [n|->"Integer",k|->"nt",t|-><<"i64">>]>>]
T_Prompt == [k|->"struct",f|-><<[n|->"arguments",r|->"arguments",t|-><<"vec",<<"ref","PromptArgument">>>>,m|->"skip"],
    [n|->"description",r|->"description",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"icons",r|->"icons",t|-><<"vec",<<"ref","Icon">>>>,m|->"skip"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"name",r|->"name",t|-><<"str">>,m|->"req"],
    [n|->"title",r|->"title",t|-><<"opt",<<"str">>>>,m|->"skip"]>>]
T_PromptArgument == [k|->"struct",f|-><<[n|->"description",r|->"description",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"name",r|->"name",t|-><<"str">>,m|->"req"],
    [n|->"required",r|->"required",t|-><<"opt",<<"bool">>>>,m|->"skip"],
    [n|->"title",r|->"title",t|-><<"opt",<<"str">>>>,m|->"skip"]>>]
T_PromptListChangedNotification == [k|->"struct",f|-><<[n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"method",r|->"method",t|-><<"cs","notifications/prompts/list_changed">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"opt",<<"ref","NotificationParams">>>>,m|->"skip"]>>]
T_PromptMessage == [k|->"struct",f|-><<[n|->"content",r|->"content",t|-><<"ref","ContentBlock">>,m|->"req"],
    [n|->"role",r|->"role",t|-><<"ref","Role">>,m|->"req"]>>]
T_PromptReference == [k|->"struct",f|-><<[n|->"name",r|->"name",t|-><<"str">>,m|->"req"],
    [n|->"title",r|->"title",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"type",r|->"type_",t|-><<"cs","ref/prompt">>,m|->"must"]>>]
T_ReadResourceContent == [k|->"untag",v|-><<[n|->"TextResourceContents",k|->"nt",t|-><<"ref","TextResourceContents">>],
    [n|->"BlobResourceContents",k|->"nt",t|-><<"ref","BlobResourceContents">>]>>]
T_ReadResourceMeta == [k|->"struct",f|-><<[n|->"progressToken",r|->"progress_token",t|-><<"opt",<<"ref","ProgressToken">>>>,m|->"skip"],
    [n|->"extra",r|->"extra",t|-><<"opt",<<"map">>>>,m|->"flat"]>>]
T_ReadResourceRequest == [k|->"struct",f|-><<[n|->"id",r|->"id",t|-><<"ref","RequestId">>,m|->"req"],
    [n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"method",r|->"method",t|-><<"cs","resources/read">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"ref","ReadResourceRequestParams">>,m|->"req"]>>]
T_ReadResourceRequestParams == [k|->"struct",f|-><<[n|->"_meta",r|->"meta",t|-><<"opt",<<"ref","ReadResourceMeta">>>>,m|->"skip"],
    [n|->"uri",r|->"uri",t|-><<"str">>,m|->"req"]>>]
T_ReadResourceResult == [k|->"struct",f|-><<[n|->"contents",r|->"contents",t|-><<"vec",<<"ref","ReadResourceContent">>>>,m|->"req"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"]>>]
T_RelatedTaskMetadata == [k|->"struct",f|-><<[n|->"taskId",r|->"task_id",t|-><<"str">>,m|->"req"]>>]
T_Request == [k|->"struct",f|-><<[n|->"method",r|->"method",t|-><<"str">>,m|->"req"],
    [n|->"params",r|->"params",t|-><<"opt",<<"map">>>>,m|->"skip"]>>]
T_RequestId == [k|->"untag",v|-><<[n|->"String",k|->"nt",t|-><<"str">>],
    [n|->"Integer",k|->"nt",t|-><<"i64">>]>>]
T_RequestParams == [k|->"struct",f|-><<[n|->"_meta",r|->"meta",t|-><<"opt",<<"ref","RequestParamsMeta">>>>,m|->"skip"]>>]
T_RequestParamsMeta == [k|->"struct",f|-><<[n|->"progressToken",r|->"progress_token",t|-><<"opt",<<"ref","ProgressToken">>>>,m|->"skip"],
    [n|->"extra",r|->"extra",t|-><<"opt",<<"map">>>>,m|->"flat"]>>]
T_Resource == [k|->"struct",f|-><<[n|->"annotations",r|->"annotations",t|-><<"opt",<<"ref","Annotations">>>>,m|->"skip"],
    [n|->"description",r|->"description",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"icons",r|->"icons",t|-><<"vec",<<"ref","Icon">>>>,m|->"skip"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"mimeType",r|->"mime_type",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"name",r|->"name",t|-><<"str">>,m|->"req"],
    [n|->"size",r|->"size",t|-><<"opt",<<"i64">>>>,m|->"skip"],
    [n|->"title",r|->"title",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"uri",r|->"uri",t|-><<"str">>,m|->"req"]>>]
T_ResourceContents == [k|->"struct",f|-><<[n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"mimeType",r|->"mime_type",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"uri",r|->"uri",t|-><<"str">>,m|->"req"]>>]
T_ResourceLink == [k|->"struct",f|-><<[n|->"annotations",r|->"annotations",t|-><<"opt",<<"ref","Annotations">>>>,m|->"skip"],
    [n|->"description",r|->"description",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"icons",r|->"icons",t|-><<"vec",<<"ref","Icon">>>>,m|->"skip"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"mimeType",r|->"mime_type",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"name",r|->"name",t|-><<"str">>,m|->"req"],
    [n|->"size",r|->"size",t|-><<"opt",<<"i64">>>>,m|->"skip"],
    [n|->"title",r|->"title",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"type",r|->"type_",t|-><<"cs","resource_link">>,m|->"must"],
    [n|->"uri",r|->"uri",t|-><<"str">>,m|->"req"]>>]
T_ResourceListChangedNotification == [k|->"struct",f|-><<[n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"method",r|->"method",t|-><<"cs","notifications/resources/list_changed">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"opt",<<"ref","NotificationParams">>>>,m|->"skip"]>>]
T_ResourceMeta == [k|->"struct",f|-><<[n|->"progressToken",r|->"progress_token",t|-><<"opt",<<"ref","ProgressToken">>>>,m|->"skip"],
    [n|->"extra",r|->"extra",t|-><<"opt",<<"map">>>>,m|->"flat"]>>]
T_ResourceRequestParams == [k|->"struct",f|-><<[n|->"_meta",r|->"meta",t|-><<"opt",<<"ref","ResourceMeta">>>>,m|->"skip"],
    [n|->"uri",r|->"uri",t|-><<"str">>,m|->"req"]>>]
T_ResourceTemplate == [k|->"struct",f|-><<[n|->"annotations",r|->"annotations",t|-><<"opt",<<"ref","Annotations">>>>,m|->"skip"],
    [n|->"description",r|->"description",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"icons",r|->"icons",t|-><<"vec",<<"ref","Icon">>>>,m|->"skip"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"mimeType",r|->"mime_type",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"name",r|->"name",t|-><<"str">>,m|->"req"],
    [n|->"title",r|->"title",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"uriTemplate",r|->"uri_template",t|-><<"str">>,m|->"req"]>>]
T_ResourceTemplateReference == [k|->"struct",f|-><<[n|->"type",r|->"type_",t|-><<"cs","ref/resource">>,m|->"must"],
    [n|->"uri",r|->"uri",t|-><<"str">>,m|->"req"]>>]
T_ResourceUpdatedNotification == [k|->"struct",f|-><<[n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"method",r|->"method",t|-><<"cs","notifications/resources/updated">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"ref","ResourceUpdatedNotificationParams">>,m|->"req"]>>]
T_ResourceUpdatedNotificationParams == [k|->"struct",f|-><<[n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"uri",r|->"uri",t|-><<"str">>,m|->"req"]>>]
T_Result == [k|->"struct",f|-><<[n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"extra",r|->"extra",t|-><<"opt",<<"map">>>>,m|->"flat"]>>]
T_Role == [k|->"unit",v|-><<<<"assistant","Assistant">>,<<"user","User">>>>]
T_Root == [k|->"struct",f|-><<[n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"name",r|->"name",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"uri",r|->"uri",t|-><<"str">>,m|->"req"]>>]
T_RootsListChangedNotification == [k|->"struct",f|-><<[n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"method",r|->"method",t|-><<"cs","notifications/roots/list_changed">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"opt",<<"ref","NotificationParams">>>>,m|->"skip"]>>]
T_RpcError == [k|->"struct",f|-><<[n|->"code",r|->"code",t|-><<"i64">>,m|->"req"],
    [n|->"data",r|->"data",t|-><<"opt",<<"val">>>>,m|->"skip"],
    [n|->"message",r|->"message",t|-><<"str">>,m|->"req"]>>]
T_SamplingMessage == [k|->"struct",f|-><<[n|->"content",r|->"content",t|-><<"ref","SamplingMessageContent">>,m|->"req"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"role",r|->"role",t|-><<"ref","Role">>,m|->"req"]>>]
T_SamplingMessageContent == [k|->"untag",v|-><<[n|->"TextContent",k|->"nt",t|-><<"ref","TextContent">>],
    [n|->"ImageContent",k|->"nt",t|-><<"ref","ImageContent">>],
    [n|->"AudioContent",k|->"nt",t|-><<"ref","AudioContent">>],
    [n|->"ToolUseContent",k|->"nt",t|-><<"ref","ToolUseContent">>],
    [n|->"ToolResultContent",k|->"nt",t|-><<"ref","ToolResultContent">>],
    [n|->"SamplingMessageContentBlock",k|->"nt",t|-><<"vec",<<"ref","SamplingMessageContentBlock">>>>]>>]
T_SamplingMessageContentBlock == [k|->"untag",v|-><<[n|->"TextContent",k|->"nt",t|-><<"ref","TextContent">>],
    [n|->"ImageContent",k|->"nt",t|-><<"ref","ImageContent">>],
    [n|->"AudioContent",k|->"nt",t|-><<"ref","AudioContent">>],
    [n|->"ToolUseContent",k|->"nt",t|-><<"ref","ToolUseContent">>],
    [n|->"ToolResultContent",k|->"nt",t|-><<"ref","ToolResultContent">>]>>]
T_ServerCapabilities == [k|->"struct",f|-><<[n|->"completions",r|->"completions",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"experimental",r|->"experimental",t|-><<"opt",<<"hmap",<<"map">>>>>>,m|->"skip"],
    [n|->"logging",r|->"logging",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"prompts",r|->"prompts",t|-><<"opt",<<"ref","ServerCapabilitiesPrompts">>>>,m|->"skip"],
    [n|->"resources",r|->"resources",t|-><<"opt",<<"ref","ServerCapabilitiesResources">>>>,m|->"skip"],
    [n|->"tasks",r|->"tasks",t|-><<"opt",<<"ref","ServerTasks">>>>,m|->"skip"],
    [n|->"tools",r|->"tools",t|-><<"opt",<<"ref","ServerCapabilitiesTools">>>>,m|->"skip"]>>]
T_ServerCapabilitiesPrompts == [k|->"struct",f|-><<[n|->"listChanged",r|->"list_changed",t|-><<"opt",<<"bool">>>>,m|->"skip"]>>]
T_ServerCapabilitiesResources == [k|->"struct",f|-><<[n|->"listChanged",r|->"list_changed",t|-><<"opt",<<"bool">>>>,m|->"skip"],
    [n|->"subscribe",r|->"subscribe",t|-><<"opt",<<"bool">>>>,m|->"skip"]>>]
T_ServerCapabilitiesTools == [k|->"struct",f|-><<[n|->"listChanged",r|->"list_changed",t|-><<"opt",<<"bool">>>>,m|->"skip"]>>]
T_ServerNotification == [k|->"dispatch",v|-><<[m|->"notifications/cancelled",n|->"CancelledNotification",t|-><<"ref","CancelledNotification">>],
    [m|->"notifications/progress",n|->"ProgressNotification",t|-><<"ref","ProgressNotification">>],
    [m|->"notifications/resources/list_changed",n|->"ResourceListChangedNotification",t|-><<"ref","ResourceListChangedNotification">>],
    [m|->"notifications/resources/updated",n|->"ResourceUpdatedNotification",t|-><<"ref","ResourceUpdatedNotification">>],
    [m|->"notifications/prompts/list_changed",n|->"PromptListChangedNotification",t|-><<"ref","PromptListChangedNotification">>],
    [m|->"notifications/tools/list_changed",n|->"ToolListChangedNotification",t|-><<"ref","ToolListChangedNotification">>],
    [m|->"notifications/tasks/status",n|->"TaskStatusNotification",t|-><<"ref","TaskStatusNotification">>],
    [m|->"notifications/message",n|->"LoggingMessageNotification",t|-><<"ref","LoggingMessageNotification">>],
    [m|->"notifications/elicitation/complete",n|->"ElicitationCompleteNotification",t|-><<"ref","ElicitationCompleteNotification">>]>>]
T_ServerRequest == [k|->"dispatch",v|-><<[m|->"ping",n|->"PingRequest",t|-><<"ref","PingRequest">>],
    [m|->"tasks/get",n|->"GetTaskRequest",t|-><<"ref","GetTaskRequest">>],
    [m|->"tasks/result",n|->"GetTaskPayloadRequest",t|-><<"ref","GetTaskPayloadRequest">>],
    [m|->"tasks/cancel",n|->"CancelTaskRequest",t|-><<"ref","CancelTaskRequest">>],
    [m|->"tasks/list",n|->"ListTasksRequest",t|-><<"ref","ListTasksRequest">>],
    [m|->"sampling/createMessage",n|->"CreateMessageRequest",t|-><<"ref","CreateMessageRequest">>],
    [m|->"roots/list",n|->"ListRootsRequest",t|-><<"ref","ListRootsRequest">>],
    [m|->"elicitation/create",n|->"ElicitRequest",t|-><<"ref","ElicitRequest">>]>>]
T_ServerResult == [k|->"untag",v|-><<[n|->"InitializeResult",k|->"nt",t|-><<"ref","InitializeResult">>],
    [n|->"ListResourcesResult",k|->"nt",t|-><<"ref","ListResourcesResult">>],
    [n|->"ListResourceTemplatesResult",k|->"nt",t|-><<"ref","ListResourceTemplatesResult">>],
    [n|->"ReadResourceResult",k|->"nt",t|-><<"ref","ReadResourceResult">>],
    [n|->"ListPromptsResult",k|->"nt",t|-><<"ref","ListPromptsResult">>],
    [n|->"GetPromptResult",k|->"nt",t|-><<"ref","GetPromptResult">>],
    [n|->"ListToolsResult",k|->"nt",t|-><<"ref","ListToolsResult">>],
    [n|->"CallToolResult",k|->"nt",t|-><<"ref","CallToolResult">>],
    [n|->"GetTaskResult",k|->"nt",t|-><<"ref","GetTaskResult">>],
    [n|->"CancelTaskResult",k|->"nt",t|-><<"ref","CancelTaskResult">>],
    [n|->"ListTasksResult",k|->"nt",t|-><<"ref","ListTasksResult">>],
    [n|->"CompleteResult",k|->"nt",t|-><<"ref","CompleteResult">>],
    [n|->"Result",k|->"nt",t|-><<"ref","Result">>],
    [n|->"GetTaskPayloadResult",k|->"nt",t|-><<"ref","GetTaskPayloadResult">>]>>]
T_ServerTaskRequest == [k|->"struct",f|-><<[n|->"tools",r|->"tools",t|-><<"opt",<<"ref","ServerTaskTools">>>>,m|->"skip"]>>]
T_ServerTaskTools == [k|->"struct",f|-><<[n|->"call",r|->"call",t|-><<"opt",<<"map">>>>,m|->"skip"]>>]
T_ServerTasks == [k|->"struct",f|-><<[n|->"cancel",r|->"cancel",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"list",r|->"list",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"requests",r|->"requests",t|-><<"opt",<<"ref","ServerTaskRequest">>>>,m|->"skip"]>>]
T_SetLevelMeta == [k|->"struct",f|-><<[n|->"progressToken",r|->"progress_token",t|-><<"opt",<<"ref","ProgressToken">>>>,m|->"skip"],
    [n|->"extra",r|->"extra",t|-><<"opt",<<"map">>>>,m|->"flat"]>>]
T_SetLevelRequest == [k|->"struct",f|-><<[n|->"id",r|->"id",t|-><<"ref","RequestId">>,m|->"req"],
    [n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"method",r|->"method",t|-><<"cs","logging/setLevel">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"ref","SetLevelRequestParams">>,m|->"req"]>>]
T_SetLevelRequestParams == [k|->"struct",f|-><<[n|->"level",r|->"level",t|-><<"ref","LoggingLevel">>,m|->"req"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"ref","SetLevelMeta">>>>,m|->"skip"]>>]
T_SingleSelectEnumSchema == [k|->"untag",v|-><<[n|->"UntitledSingleSelectEnumSchema",k|->"nt",t|-><<"ref","UntitledSingleSelectEnumSchema">>],
    [n|->"TitledSingleSelectEnumSchema",k|->"nt",t|-><<"ref","TitledSingleSelectEnumSchema">>]>>]
T_StringSchema == [k|->"struct",f|-><<[n|->"default",r|->"default",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"description",r|->"description",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"format",r|->"format",t|-><<"opt",<<"ref","StringSchemaFormat">>>>,m|->"skip"],
    [n|->"maxLength",r|->"max_length",t|-><<"opt",<<"i64">>>>,m|->"skip"],
    [n|->"minLength",r|->"min_length",t|-><<"opt",<<"i64">>>>,m|->"skip"],
    [n|->"title",r|->"title",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"type",r|->"type_",t|-><<"cs","string">>,m|->"must"]>>]
T_StringSchemaFormat == [k|->"unit",v|-><<<<"date","Date">>,<<"date-time","DateTime">>,<<"email","Email">>,<<"uri","Uri">>>>]
T_SubscribeMeta == [k|->"struct",f|-><<[n|->"progressToken",r|->"progress_token",t|-><<"opt",<<"ref","ProgressToken">>>>,m|->"skip"],
    [n|->"extra",r|->"extra",t|-><<"opt",<<"map">>>>,m|->"flat"]>>]
T_SubscribeRequest == [k|->"struct",f|-><<[n|->"id",r|->"id",t|-><<"ref","RequestId">>,m|->"req"],
    [n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"method",r|->"method",t|-><<"cs","resources/subscribe">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"ref","SubscribeRequestParams">>,m|->"req"]>>]
T_SubscribeRequestParams == [k|->"struct",f|-><<[n|->"_meta",r|->"meta",t|-><<"opt",<<"ref","SubscribeMeta">>>>,m|->"skip"],
    [n|->"uri",r|->"uri",t|-><<"str">>,m|->"req"]>>]
T_Task == [k|->"struct",f|-><<[n|->"createdAt",r|->"created_at",t|-><<"str">>,m|->"req"],
    [n|->"lastUpdatedAt",r|->"last_updated_at",t|-><<"str">>,m|->"req"],
    [n|->"pollInterval",r|->"poll_interval",t|-><<"opt",<<"i64">>>>,m|->"skip"],
    [n|->"status",r|->"status",t|-><<"ref","TaskStatus">>,m|->"req"],
    [n|->"statusMessage",r|->"status_message",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"taskId",r|->"task_id",t|-><<"str">>,m|->"req"],
    [n|->"ttl",r|->"ttl",t|-><<"nopt",<<"i64">>>>,m|->"skip"]>>]
T_TaskAugmentedMeta == [k|->"struct",f|-><<[n|->"progressToken",r|->"progress_token",t|-><<"opt",<<"ref","ProgressToken">>>>,m|->"skip"],
    [n|->"extra",r|->"extra",t|-><<"opt",<<"map">>>>,m|->"flat"]>>]
T_TaskAugmentedRequestParams == [k|->"struct",f|-><<[n|->"_meta",r|->"meta",t|-><<"opt",<<"ref","TaskAugmentedMeta">>>>,m|->"skip"],
    [n|->"task",r|->"task",t|-><<"opt",<<"ref","TaskMetadata">>>>,m|->"skip"]>>]
T_TaskMetadata == [k|->"struct",f|-><<[n|->"ttl",r|->"ttl",t|-><<"opt",<<"i64">>>>,m|->"skip"]>>]
T_TaskStatus == [k|->"unit",v|-><<<<"cancelled","Cancelled">>,<<"completed","Completed">>,<<"failed","Failed">>,<<"input_required","InputRequired">>,<<"working","Working">>>>]
T_TaskStatusNotification == [k|->"struct",f|-><<[n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"method",r|->"method",t|-><<"cs","notifications/tasks/status">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"ref","TaskStatusNotificationParams">>,m|->"req"]>>]
T_TaskStatusNotificationParams == [k|->"struct",f|-><<[n|->"createdAt",r|->"created_at",t|-><<"str">>,m|->"req"],
    [n|->"lastUpdatedAt",r|->"last_updated_at",t|-><<"str">>,m|->"req"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"pollInterval",r|->"poll_interval",t|-><<"opt",<<"i64">>>>,m|->"skip"],
    [n|->"status",r|->"status",t|-><<"ref","TaskStatus">>,m|->"req"],
    [n|->"statusMessage",r|->"status_message",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"taskId",r|->"task_id",t|-><<"str">>,m|->"req"],
    [n|->"ttl",r|->"ttl",t|-><<"nopt",<<"i64">>>>,m|->"skip"]>>]
T_TextContent == [k|->"struct",f|-><<[n|->"annotations",r|->"annotations",t|-><<"opt",<<"ref","Annotations">>>>,m|->"skip"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"text",r|->"text",t|-><<"str">>,m|->"req"],
    [n|->"type",r|->"type_",t|-><<"cs","text">>,m|->"must"]>>]
T_TextResourceContents == [k|->"struct",f|-><<[n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"mimeType",r|->"mime_type",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"text",r|->"text",t|-><<"str">>,m|->"req"],
    [n|->"uri",r|->"uri",t|-><<"str">>,m|->"req"]>>]
T_TitledMultiSelectEnumSchema == [k|->"struct",f|-><<[n|->"default",r|->"default",t|-><<"vec",<<"str">>>>,m|->"skip"],
    [n|->"description",r|->"description",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"items",r|->"items",t|-><<"ref","TitledMultiSelectEnumSchemaItems">>,m|->"req"],
    [n|->"maxItems",r|->"max_items",t|-><<"opt",<<"i64">>>>,m|->"skip"],
    [n|->"minItems",r|->"min_items",t|-><<"opt",<<"i64">>>>,m|->"skip"],
    [n|->"title",r|->"title",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"type",r|->"type_",t|-><<"cs","array">>,m|->"must"]>>]
T_TitledMultiSelectEnumSchemaItems == [k|->"struct",f|-><<[n|->"anyOf",r|->"any_of",t|-><<"vec",<<"ref","TitledMultiSelectEnumSchemaItemsAnyOfItem">>>>,m|->"req"]>>]
T_TitledMultiSelectEnumSchemaItemsAnyOfItem == [k|->"struct",f|-><<[n|->"const",r|->"const_",t|-><<"str">>,m|->"req"],
    [n|->"title",r|->"title",t|-><<"str">>,m|->"req"]>>]
T_TitledSingleSelectEnumSchema == [k|->"struct",f|-><<[n|->"default",r|->"default",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"description",r|->"description",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"oneOf",r|->"one_of",t|-><<"vec",<<"ref","TitledSingleSelectEnumSchemaOneOfItem">>>>,m|->"req"],
    [n|->"title",r|->"title",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"type",r|->"type_",t|-><<"cs","string">>,m|->"must"]>>]
T_TitledSingleSelectEnumSchemaOneOfItem == [k|->"struct",f|-><<[n|->"const",r|->"const_",t|-><<"str">>,m|->"req"],
    [n|->"title",r|->"title",t|-><<"str">>,m|->"req"]>>]
T_Tool == [k|->"struct",f|-><<[n|->"annotations",r|->"annotations",t|-><<"opt",<<"ref","ToolAnnotations">>>>,m|->"skip"],
    [n|->"description",r|->"description",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"execution",r|->"execution",t|-><<"opt",<<"ref","ToolExecution">>>>,m|->"skip"],
    [n|->"icons",r|->"icons",t|-><<"vec",<<"ref","Icon">>>>,m|->"skip"],
    [n|->"inputSchema",r|->"input_schema",t|-><<"ref","ToolInputSchema">>,m|->"req"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"name",r|->"name",t|-><<"str">>,m|->"req"],
    [n|->"outputSchema",r|->"output_schema",t|-><<"opt",<<"ref","ToolOutputSchema">>>>,m|->"skip"],
    [n|->"title",r|->"title",t|-><<"opt",<<"str">>>>,m|->"skip"]>>]
T_ToolAnnotations == [k|->"struct",f|-><<[n|->"destructiveHint",r|->"destructive_hint",t|-><<"opt",<<"bool">>>>,m|->"skip"],
    [n|->"idempotentHint",r|->"idempotent_hint",t|-><<"opt",<<"bool">>>>,m|->"skip"],
    [n|->"openWorldHint",r|->"open_world_hint",t|-><<"opt",<<"bool">>>>,m|->"skip"],
    [n|->"readOnlyHint",r|->"read_only_hint",t|-><<"opt",<<"bool">>>>,m|->"skip"],
    [n|->"title",r|->"title",t|-><<"opt",<<"str">>>>,m|->"skip"]>>]
T_ToolChoice == [k|->"struct",f|-><<[n|->"mode",r|->"mode",t|-><<"opt",<<"ref","ToolChoiceMode">>>>,m|->"skip"]>>]
T_ToolChoiceMode == [k|->"unit",v|-><<<<"auto","Auto">>,<<"none","None">>,<<"required","Required">>>>]
T_ToolExecution == [k|->"struct",f|-><<[n|->"taskSupport",r|->"task_support",t|-><<"opt",<<"ref","ToolExecutionTaskSupport">>>>,m|->"skip"]>>]
T_ToolExecutionTaskSupport == [k|->"unit",v|-><<<<"forbidden","Forbidden">>,<<"optional","Optional">>,<<"required","Required">>>>]
T_ToolInputSchema == [k|->"struct",f|-><<[n|->"properties",r|->"properties",t|-><<"opt",<<"hmap",<<"map">>>>>>,m|->"skip"],
    [n|->"required",r|->"required",t|-><<"vec",<<"str">>>>,m|->"skip"],
    [n|->"$schema",r|->"schema",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"type",r|->"type_",t|-><<"cs","object">>,m|->"must"]>>]
T_ToolListChangedNotification == [k|->"struct",f|-><<[n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"method",r|->"method",t|-><<"cs","notifications/tools/list_changed">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"opt",<<"ref","NotificationParams">>>>,m|->"skip"]>>]
T_ToolOutputSchema == [k|->"struct",f|-><<[n|->"properties",r|->"properties",t|-><<"opt",<<"hmap",<<"map">>>>>>,m|->"skip"],
    [n|->"required",r|->"required",t|-><<"vec",<<"str">>>>,m|->"skip"],
    [n|->"$schema",r|->"schema",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"type",r|->"type_",t|-><<"cs","object">>,m|->"must"]>>]
T_ToolResultContent == [k|->"struct",f|-><<[n|->"content",r|->"content",t|-><<"vec",<<"ref","ContentBlock">>>>,m|->"req"],
    [n|->"isError",r|->"is_error",t|-><<"opt",<<"bool">>>>,m|->"skip"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"structuredContent",r|->"structured_content",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"toolUseId",r|->"tool_use_id",t|-><<"str">>,m|->"req"],
    [n|->"type",r|->"type_",t|-><<"cs","tool_result">>,m|->"must"]>>]
T_ToolUseContent == [k|->"struct",f|-><<[n|->"id",r|->"id",t|-><<"str">>,m|->"req"],
    [n|->"input",r|->"input",t|-><<"map">>,m|->"req"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"name",r|->"name",t|-><<"str">>,m|->"req"],
    [n|->"type",r|->"type_",t|-><<"cs","tool_use">>,m|->"must"]>>]
T_UnsubscribeMeta == [k|->"struct",f|-><<[n|->"progressToken",r|->"progress_token",t|-><<"opt",<<"ref","ProgressToken">>>>,m|->"skip"],
    [n|->"extra",r|->"extra",t|-><<"opt",<<"map">>>>,m|->"flat"]>>]
T_UnsubscribeRequest == [k|->"struct",f|-><<[n|->"id",r|->"id",t|-><<"ref","RequestId">>,m|->"req"],
    [n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"method",r|->"method",t|-><<"cs","resources/unsubscribe">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"ref","UnsubscribeRequestParams">>,m|->"req"]>>]
T_UnsubscribeRequestParams == [k|->"struct",f|-><<[n|->"_meta",r|->"meta",t|-><<"opt",<<"ref","UnsubscribeMeta">>>>,m|->"skip"],
    [n|->"uri",r|->"uri",t|-><<"str">>,m|->"req"]>>]
T_UntitledMultiSelectEnumSchema == [k|->"struct",f|-><<[n|->"default",r|->"default",t|-><<"vec",<<"str">>>>,m|->"skip"],
    [n|->"description",r|->"description",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"items",r|->"items",t|-><<"ref","UntitledMultiSelectEnumSchemaItems">>,m|->"req"],
    [n|->"maxItems",r|->"max_items",t|-><<"opt",<<"i64">>>>,m|->"skip"],
    [n|->"minItems",r|->"min_items",t|-><<"opt",<<"i64">>>>,m|->"skip"],
    [n|->"title",r|->"title",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"type",r|->"type_",t|-><<"cs","array">>,m|->"must"]>>]
T_UntitledMultiSelectEnumSchemaItems == [k|->"struct",f|-><<[n|->"enum",r|->"enum_",t|-><<"vec",<<"str">>>>,m|->"req"],
    [n|->"type",r|->"type_",t|-><<"cs","string">>,m|->"must"]>>]
T_UntitledSingleSelectEnumSchema == [k|->"struct",f|-><<[n|->"default",r|->"default",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"description",r|->"description",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"enum",r|->"enum_",t|-><<"vec",<<"str">>>>,m|->"req"],
    [n|->"title",r|->"title",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"type",r|->"type_",t|-><<"cs","string">>,m|->"must"]>>]
T_UrlElicitError == [k|->"struct",f|-><<[n|->"code",r|->"code",t|-><<"ci","-32042">>,m|->"must"],
    [n|->"data",r|->"data",t|-><<"ref","UrlElicitErrorData">>,m|->"req"],
    [n|->"message",r|->"message",t|-><<"str">>,m|->"req"]>>]
T_UrlElicitErrorData == [k|->"struct",f|-><<[n|->"elicitations",r|->"elicitations",t|-><<"vec",<<"ref","ElicitRequestUrlParams">>>>,m|->"req"],
    [n|->"extra",r|->"extra",t|-><<"opt",<<"map">>>>,m|->"flat"]>>]
T_UrlElicitationRequiredError == [k|->"struct",f|-><<[n|->"error",r|->"error",t|-><<"ref","UrlElicitError">>,m|->"req"],
    [n|->"id",r|->"id",t|-><<"opt",<<"ref","RequestId">>>>,m|->"skip"],
    [n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"]>>]
T_ClientMessage == [k|->"untag",v|-><<[n|->"Request",k|->"nt",t|-><<"ref","ClientJsonrpcRequest">>],
    [n|->"Notification",k|->"noid",t|-><<"ref","ClientJsonrpcNotification">>],
    [n|->"Response",k|->"nt",t|-><<"ref","ClientJsonrpcResponse">>],
    [n|->"Error",k|->"nt",t|-><<"ref","JsonrpcErrorResponse">>]>>]
T_ClientJsonrpcRequest == [k|->"untag",v|-><<[n|->"InitializeRequest",k|->"nt",t|-><<"ref","InitializeRequest">>],
    [n|->"PingRequest",k|->"nt",t|-><<"ref","PingRequest">>],
    [n|->"ListResourcesRequest",k|->"nt",t|-><<"ref","ListResourcesRequest">>],
    [n|->"ListResourceTemplatesRequest",k|->"nt",t|-><<"ref","ListResourceTemplatesRequest">>],
    [n|->"ReadResourceRequest",k|->"nt",t|-><<"ref","ReadResourceRequest">>],
    [n|->"SubscribeRequest",k|->"nt",t|-><<"ref","SubscribeRequest">>],
    [n|->"UnsubscribeRequest",k|->"nt",t|-><<"ref","UnsubscribeRequest">>],
    [n|->"ListPromptsRequest",k|->"nt",t|-><<"ref","ListPromptsRequest">>],
    [n|->"GetPromptRequest",k|->"nt",t|-><<"ref","GetPromptRequest">>],
    [n|->"ListToolsRequest",k|->"nt",t|-><<"ref","ListToolsRequest">>],
    [n|->"CallToolRequest",k|->"nt",t|-><<"ref","CallToolRequest">>],
    [n|->"GetTaskRequest",k|->"nt",t|-><<"ref","GetTaskRequest">>],
    [n|->"GetTaskPayloadRequest",k|->"nt",t|-><<"ref","GetTaskPayloadRequest">>],
    [n|->"CancelTaskRequest",k|->"nt",t|-><<"ref","CancelTaskRequest">>],
    [n|->"ListTasksRequest",k|->"nt",t|-><<"ref","ListTasksRequest">>],
    [n|->"SetLevelRequest",k|->"nt",t|-><<"ref","SetLevelRequest">>],
    [n|->"CompleteRequest",k|->"nt",t|-><<"ref","CompleteRequest">>],
    [n|->"CustomRequest",k|->"nt",t|-><<"ref","JsonrpcRequest">>]>>]
T_RequestFromClient == [k|->"untag",v|-><<[n|->"InitializeRequest",k|->"nt",t|-><<"ref","InitializeRequestParams">>],
    [n|->"PingRequest",k|->"nt",t|-><<"opt",<<"ref","RequestParams">>>>],
    [n|->"ListResourcesRequest",k|->"nt",t|-><<"opt",<<"ref","PaginatedRequestParams">>>>],
    [n|->"ListResourceTemplatesRequest",k|->"nt",t|-><<"opt",<<"ref","PaginatedRequestParams">>>>],
    [n|->"ReadResourceRequest",k|->"nt",t|-><<"ref","ReadResourceRequestParams">>],
    [n|->"SubscribeRequest",k|->"nt",t|-><<"ref","SubscribeRequestParams">>],
    [n|->"UnsubscribeRequest",k|->"nt",t|-><<"ref","UnsubscribeRequestParams">>],
    [n|->"ListPromptsRequest",k|->"nt",t|-><<"opt",<<"ref","PaginatedRequestParams">>>>],
    [n|->"GetPromptRequest",k|->"nt",t|-><<"ref","GetPromptRequestParams">>],
    [n|->"ListToolsRequest",k|->"nt",t|-><<"opt",<<"ref","PaginatedRequestParams">>>>],
    [n|->"CallToolRequest",k|->"nt",t|-><<"ref","CallToolRequestParams">>],
    [n|->"GetTaskRequest",k|->"nt",t|-><<"ref","GetTaskParams">>],
    [n|->"GetTaskPayloadRequest",k|->"nt",t|-><<"ref","GetTaskPayloadParams">>],
    [n|->"CancelTaskRequest",k|->"nt",t|-><<"ref","CancelTaskParams">>],
    [n|->"ListTasksRequest",k|->"nt",t|-><<"opt",<<"ref","PaginatedRequestParams">>>>],
    [n|->"SetLevelRequest",k|->"nt",t|-><<"ref","SetLevelRequestParams">>],
    [n|->"CompleteRequest",k|->"nt",t|-><<"ref","CompleteRequestParams">>],
    [n|->"CustomRequest",k|->"nt",t|-><<"ref","CustomRequest">>]>>]
T_ClientJsonrpcNotification == [k|->"untag",v|-><<[n|->"CancelledNotification",k|->"nt",t|-><<"ref","CancelledNotification">>],
    [n|->"InitializedNotification",k|->"nt",t|-><<"ref","InitializedNotification">>],
    [n|->"ProgressNotification",k|->"nt",t|-><<"ref","ProgressNotification">>],
    [n|->"TaskStatusNotification",k|->"nt",t|-><<"ref","TaskStatusNotification">>],
    [n|->"RootsListChangedNotification",k|->"nt",t|-><<"ref","RootsListChangedNotification">>],
    [n|->"CustomNotification",k|->"nt",t|-><<"ref","JsonrpcNotification">>]>>]
T_NotificationFromClient == [k|->"untag",v|-><<[n|->"CancelledNotification",k|->"nt",t|-><<"ref","CancelledNotificationParams">>],
    [n|->"InitializedNotification",k|->"nt",t|-><<"opt",<<"ref","NotificationParams">>>>],
    [n|->"ProgressNotification",k|->"nt",t|-><<"ref","ProgressNotificationParams">>],
    [n|->"TaskStatusNotification",k|->"nt",t|-><<"ref","TaskStatusNotificationParams">>],
    [n|->"RootsListChangedNotification",k|->"nt",t|-><<"opt",<<"ref","NotificationParams">>>>],
    [n|->"CustomNotification",k|->"nt",t|-><<"ref","CustomRequest">>]>>]
T_ClientJsonrpcResponse == [k|->"envres",t|-><<"ref","ResultFromClient">>]
T_ResultFromClient == [k|->"untag",v|-><<[n|->"GetTaskResult",k|->"nt",t|-><<"ref","GetTaskResult">>],
    [n|->"CancelTaskResult",k|->"nt",t|-><<"ref","CancelTaskResult">>],
    [n|->"ListTasksResult",k|->"nt",t|-><<"ref","ListTasksResult">>],
    [n|->"CreateMessageResult",k|->"nt",t|-><<"ref","CreateMessageResult">>],
    [n|->"ListRootsResult",k|->"nt",t|-><<"ref","ListRootsResult">>],
    [n|->"ElicitResult",k|->"nt",t|-><<"ref","ElicitResult">>],
    [n|->"CreateTaskResult",k|->"nt",t|-><<"ref","CreateTaskResult">>],
    [n|->"Result",k|->"nt",t|-><<"ref","Result">>],
    [n|->"GetTaskPayloadResult",k|->"nt",t|-><<"ref","GetTaskPayloadResult">>]>>]
T_ClientTaskResult == [k|->"untag",v|-><<[n|->"ElicitResult",k|->"nt",t|-><<"ref","ElicitResult">>],
    [n|->"CreateMessageResult",k|->"nt",t|-><<"ref","CreateMessageResult">>]>>]
T_ServerMessage == [k|->"untag",v|-><<[n|->"Request",k|->"nt",t|-><<"ref","ServerJsonrpcRequest">>],
    [n|->"Notification",k|->"noid",t|-><<"ref","ServerJsonrpcNotification">>],
    [n|->"Response",k|->"nt",t|-><<"ref","ServerJsonrpcResponse">>],
    [n|->"Error",k|->"nt",t|-><<"ref","JsonrpcErrorResponse">>]>>]
T_ServerJsonrpcRequest == [k|->"untag",v|-><<[n|->"PingRequest",k|->"nt",t|-><<"ref","PingRequest">>],
    [n|->"GetTaskRequest",k|->"nt",t|-><<"ref","GetTaskRequest">>],
    [n|->"GetTaskPayloadRequest",k|->"nt",t|-><<"ref","GetTaskPayloadRequest">>],
    [n|->"CancelTaskRequest",k|->"nt",t|-><<"ref","CancelTaskRequest">>],
    [n|->"ListTasksRequest",k|->"nt",t|-><<"ref","ListTasksRequest">>],
    [n|->"CreateMessageRequest",k|->"nt",t|-><<"ref","CreateMessageRequest">>],
    [n|->"ListRootsRequest",k|->"nt",t|-><<"ref","ListRootsRequest">>],
    [n|->"ElicitRequest",k|->"nt",t|-><<"ref","ElicitRequest">>],
    [n|->"CustomRequest",k|->"nt",t|-><<"ref","JsonrpcRequest">>]>>]
T_CustomRequest == [k|->"struct",f|-><<[n|->"method",r|->"method",t|-><<"str">>,m|->"req"],
    [n|->"params",r|->"params",t|-><<"opt",<<"map">>>>,m|->"skip"]>>]
T_RequestFromServer == [k|->"untag",v|-><<[n|->"PingRequest",k|->"nt",t|-><<"opt",<<"ref","RequestParams">>>>],
    [n|->"GetTaskRequest",k|->"nt",t|-><<"ref","GetTaskParams">>],
    [n|->"GetTaskPayloadRequest",k|->"nt",t|-><<"ref","GetTaskPayloadParams">>],
    [n|->"CancelTaskRequest",k|->"nt",t|-><<"ref","CancelTaskParams">>],
    [n|->"ListTasksRequest",k|->"nt",t|-><<"opt",<<"ref","PaginatedRequestParams">>>>],
    [n|->"CreateMessageRequest",k|->"nt",t|-><<"ref","CreateMessageRequestParams">>],
    [n|->"ListRootsRequest",k|->"nt",t|-><<"opt",<<"ref","RequestParams">>>>],
    [n|->"ElicitRequest",k|->"nt",t|-><<"ref","ElicitRequestParams">>],
    [n|->"CustomRequest",k|->"nt",t|-><<"ref","CustomRequest">>]>>]
T_ServerJsonrpcNotification == [k|->"untag",v|-><<[n|->"CancelledNotification",k|->"nt",t|-><<"ref","CancelledNotification">>],
    [n|->"ProgressNotification",k|->"nt",t|-><<"ref","ProgressNotification">>],
    [n|->"ResourceListChangedNotification",k|->"nt",t|-><<"ref","ResourceListChangedNotification">>],
    [n|->"ResourceUpdatedNotification",k|->"nt",t|-><<"ref","ResourceUpdatedNotification">>],
    [n|->"PromptListChangedNotification",k|->"nt",t|-><<"ref","PromptListChangedNotification">>],
    [n|->"ToolListChangedNotification",k|->"nt",t|-><<"ref","ToolListChangedNotification">>],
    [n|->"TaskStatusNotification",k|->"nt",t|-><<"ref","TaskStatusNotification">>],
    [n|->"LoggingMessageNotification",k|->"nt",t|-><<"ref","LoggingMessageNotification">>],
    [n|->"ElicitationCompleteNotification",k|->"nt",t|-><<"ref","ElicitationCompleteNotification">>],
    [n|->"CustomNotification",k|->"nt",t|-><<"ref","JsonrpcNotification">>]>>]
T_NotificationFromServer == [k|->"untag",v|-><<[n|->"CancelledNotification",k|->"nt",t|-><<"ref","CancelledNotificationParams">>],
    [n|->"ProgressNotification",k|->"nt",t|-><<"ref","ProgressNotificationParams">>],
    [n|->"ResourceListChangedNotification",k|->"nt",t|-><<"opt",<<"ref","NotificationParams">>>>],
    [n|->"ResourceUpdatedNotification",k|->"nt",t|-><<"ref","ResourceUpdatedNotificationParams">>],
    [n|->"PromptListChangedNotification",k|->"nt",t|-><<"opt",<<"ref","NotificationParams">>>>],
    [n|->"ToolListChangedNotification",k|->"nt",t|-><<"opt",<<"ref","NotificationParams">>>>],
    [n|->"TaskStatusNotification",k|->"nt",t|-><<"ref","TaskStatusNotificationParams">>],
    [n|->"LoggingMessageNotification",k|->"nt",t|-><<"ref","LoggingMessageNotificationParams">>],
    [n|->"ElicitationCompleteNotification",k|->"nt",t|-><<"ref","ElicitCompleteParams">>],
    [n|->"CustomNotification",k|->"nt",t|-><<"ref","CustomRequest">>]>>]
T_ServerJsonrpcResponse == [k|->"envres",t|-><<"ref","ResultFromServer">>]
T_ResultFromServer == [k|->"untag",v|-><<[n|->"InitializeResult",k|->"nt",t|-><<"ref","InitializeResult">>],
    [n|->"ListResourcesResult",k|->"nt",t|-><<"ref","ListResourcesResult">>],
    [n|->"ListResourceTemplatesResult",k|->"nt",t|-><<"ref","ListResourceTemplatesResult">>],
    [n|->"ReadResourceResult",k|->"nt",t|-><<"ref","ReadResourceResult">>],
    [n|->"ListPromptsResult",k|->"nt",t|-><<"ref","ListPromptsResult">>],
    [n|->"GetPromptResult",k|->"nt",t|-><<"ref","GetPromptResult">>],
    [n|->"ListToolsResult",k|->"nt",t|-><<"ref","ListToolsResult">>],
    [n|->"CallToolResult",k|->"nt",t|-><<"ref","CallToolResult">>],
    [n|->"GetTaskResult",k|->"nt",t|-><<"ref","GetTaskResult">>],
    [n|->"CancelTaskResult",k|->"nt",t|-><<"ref","CancelTaskResult">>],
    [n|->"ListTasksResult",k|->"nt",t|-><<"ref","ListTasksResult">>],
    [n|->"CompleteResult",k|->"nt",t|-><<"ref","CompleteResult">>],
    [n|->"CreateTaskResult",k|->"nt",t|-><<"ref","CreateTaskResult">>],
    [n|->"Result",k|->"nt",t|-><<"ref","Result">>],
    [n|->"GetTaskPayloadResult",k|->"nt",t|-><<"ref","GetTaskPayloadResult">>]>>]
T_MessageFromServer == [k|->"untag",v|-><<[n|->"RequestFromServer",k|->"nt",t|-><<"ref","RequestFromServer">>],
    [n|->"ResultFromServer",k|->"nt",t|-><<"ref","ResultFromServer">>],
    [n|->"NotificationFromServer",k|->"nt",t|-><<"ref","NotificationFromServer">>],
    [n|->"Error",k|->"nt",t|-><<"ref","RpcError">>]>>]
T_MessageFromClient == [k|->"untag",v|-><<[n|->"RequestFromClient",k|->"nt",t|-><<"ref","RequestFromClient">>],
    [n|->"ResultFromClient",k|->"nt",t|-><<"ref","ResultFromClient">>],
    [n|->"NotificationFromClient",k|->"nt",t|-><<"ref","NotificationFromClient">>],
    [n|->"Error",k|->"nt",t|-><<"ref","RpcError">>]>>]
T_ClientMessages == [k|->"untag",v|-><<[n|->"Single",k|->"nt",t|-><<"ref","ClientMessage">>],
    [n|->"Batch",k|->"nt",t|-><<"vec",<<"ref","ClientMessage">>>>]>>]
T_ServerMessages == [k|->"untag",v|-><<[n|->"Single",k|->"nt",t|-><<"ref","ServerMessage">>],
    [n|->"Batch",k|->"nt",t|-><<"vec",<<"ref","ServerMessage">>>>]>>]
T_MessagesFromServer == [k|->"untag",v|-><<[n|->"Single",k|->"nt",t|-><<"ref","MessageFromServer">>],
    [n|->"Batch",k|->"nt",t|-><<"vec",<<"ref","MessageFromServer">>>>]>>]
T_MessagesFromClient == [k|->"untag",v|-><<[n|->"Single",k|->"nt",t|-><<"ref","MessageFromClient">>],
    [n|->"Batch",k|->"nt",t|-><<"vec",<<"ref","MessageFromClient">>>>]>>]
T_SdkError == [k|->"struct",f|-><<[n|->"code",r|->"code",t|-><<"i64">>,m|->"req"],
    [n|->"data",r|->"data",t|-><<"opt",<<"val">>>>,m|->"nullout"],
    [n|->"message",r|->"message",t|-><<"str">>,m|->"req"]>>]

Types == [Annotations |-> T_Annotations,
  AudioContent |-> T_AudioContent,
  BaseMetadata |-> T_BaseMetadata,
  BlobResourceContents |-> T_BlobResourceContents,
  BooleanSchema |-> T_BooleanSchema,
  CallToolMeta |-> T_CallToolMeta,
  CallToolRequest |-> T_CallToolRequest,
  CallToolRequestParams |-> T_CallToolRequestParams,
  CallToolResult |-> T_CallToolResult,
  CancelTaskParams |-> T_CancelTaskParams,
  CancelTaskRequest |-> T_CancelTaskRequest,
  CancelTaskResult |-> T_CancelTaskResult,
  CancelledNotification |-> T_CancelledNotification,
  CancelledNotificationParams |-> T_CancelledNotificationParams,
  ClientCapabilities |-> T_ClientCapabilities,
  ClientElicitation |-> T_ClientElicitation,
  ClientNotification |-> T_ClientNotification,
  ClientRequest |-> T_ClientRequest,
  ClientResult |-> T_ClientResult,
  ClientRoots |-> T_ClientRoots,
  ClientSampling |-> T_ClientSampling,
  ClientTaskElicitation |-> T_ClientTaskElicitation,
  ClientTaskRequest |-> T_ClientTaskRequest,
  ClientTaskSampling |-> T_ClientTaskSampling,
  ClientTasks |-> T_ClientTasks,
  CompleteRequest |-> T_CompleteRequest,
  CompleteRequestArgument |-> T_CompleteRequestArgument,
  CompleteRequestContext |-> T_CompleteRequestContext,
  CompleteRequestMeta |-> T_CompleteRequestMeta,
  CompleteRequestParams |-> T_CompleteRequestParams,
  CompleteRequestRef |-> T_CompleteRequestRef,
  CompleteResult |-> T_CompleteResult,
  CompleteResultCompletion |-> T_CompleteResultCompletion,
  ContentBlock |-> T_ContentBlock,
  CreateMessageContent |-> T_CreateMessageContent,
  CreateMessageRequest |-> T_CreateMessageRequest,
  CreateMessageRequestParams |-> T_CreateMessageRequestParams,
  CreateMessageResult |-> T_CreateMessageResult,
  CreateTaskResult |-> T_CreateTaskResult,
  Cursor |-> T_Cursor,
  ElicitCompleteParams |-> T_ElicitCompleteParams,
  ElicitFormMeta |-> T_ElicitFormMeta,
  ElicitFormSchema |-> T_ElicitFormSchema,
  ElicitRequest |-> T_ElicitRequest,
  ElicitRequestFormParams |-> T_ElicitRequestFormParams,
  ElicitRequestParams |-> T_ElicitRequestParams,
  ElicitRequestUrlParams |-> T_ElicitRequestUrlParams,
  ElicitResult |-> T_ElicitResult,
  ElicitResultAction |-> T_ElicitResultAction,
  ElicitResultContent |-> T_ElicitResultContent,
  ElicitResultContentPrimitive |-> T_ElicitResultContentPrimitive,
  ElicitUrlMeta |-> T_ElicitUrlMeta,
  ElicitationCompleteNotification |-> T_ElicitationCompleteNotification,
  EmbeddedResource |-> T_EmbeddedResource,
  EmbeddedResourceResource |-> T_EmbeddedResourceResource,
  EmptyResult |-> T_EmptyResult,
  EnumSchema |-> T_EnumSchema,
  GetPromptMeta |-> T_GetPromptMeta,
  GetPromptRequest |-> T_GetPromptRequest,
  GetPromptRequestParams |-> T_GetPromptRequestParams,
  GetPromptResult |-> T_GetPromptResult,
  GetTaskParams |-> T_GetTaskParams,
  GetTaskPayloadParams |-> T_GetTaskPayloadParams,
  GetTaskPayloadRequest |-> T_GetTaskPayloadRequest,
  GetTaskPayloadResult |-> T_GetTaskPayloadResult,
  GetTaskRequest |-> T_GetTaskRequest,
  GetTaskResult |-> T_GetTaskResult,
  Icon |-> T_Icon,
  IconTheme |-> T_IconTheme,
  Icons |-> T_Icons,
  ImageContent |-> T_ImageContent,
  Implementation |-> T_Implementation,
  IncludeContext |-> T_IncludeContext,
  InitializeMeta |-> T_InitializeMeta,
  InitializeRequest |-> T_InitializeRequest,
  InitializeRequestParams |-> T_InitializeRequestParams,
  InitializeResult |-> T_InitializeResult,
  InitializedNotification |-> T_InitializedNotification,
  JsonrpcErrorResponse |-> T_JsonrpcErrorResponse,
  JsonrpcMessage |-> T_JsonrpcMessage,
  JsonrpcNotification |-> T_JsonrpcNotification,
  JsonrpcRequest |-> T_JsonrpcRequest,
  JsonrpcResponse |-> T_JsonrpcResponse,
  JsonrpcResultResponse |-> T_JsonrpcResultResponse,
  LegacyTitledEnumSchema |-> T_LegacyTitledEnumSchema,
  ListPromptsRequest |-> T_ListPromptsRequest,
  ListPromptsResult |-> T_ListPromptsResult,
  ListResourceTemplatesRequest |-> T_ListResourceTemplatesRequest,
  ListResourceTemplatesResult |-> T_ListResourceTemplatesResult,
  ListResourcesRequest |-> T_ListResourcesRequest,
  ListResourcesResult |-> T_ListResourcesResult,
  ListRootsRequest |-> T_ListRootsRequest,
  ListRootsResult |-> T_ListRootsResult,
  ListTasksRequest |-> T_ListTasksRequest,
  ListTasksResult |-> T_ListTasksResult,
  ListToolsRequest |-> T_ListToolsRequest,
  ListToolsResult |-> T_ListToolsResult,
  LoggingLevel |-> T_LoggingLevel,
  LoggingMessageNotification |-> T_LoggingMessageNotification,
  LoggingMessageNotificationParams |-> T_LoggingMessageNotificationParams,
  MessageMeta |-> T_MessageMeta,
  ModelHint |-> T_ModelHint,
  ModelPreferences |-> T_ModelPreferences,
  MultiSelectEnumSchema |-> T_MultiSelectEnumSchema,
  Notification |-> T_Notification,
  NotificationParams |-> T_NotificationParams,
  NumberSchema |-> T_NumberSchema,
  NumberSchemaType |-> T_NumberSchemaType,
  PaginatedMeta |-> T_PaginatedMeta,
  PaginatedRequest |-> T_PaginatedRequest,
  PaginatedRequestParams |-> T_PaginatedRequestParams,
  PaginatedResult |-> T_PaginatedResult,
  PingRequest |-> T_PingRequest,
  PrimitiveSchemaDefinition |-> T_PrimitiveSchemaDefinition,
  ProgressNotification |-> T_ProgressNotification,
  ProgressNotificationParams |-> T_ProgressNotificationParams,
  ProgressToken |-> T_ProgressToken,
  Prompt |-> T_Prompt,
  PromptArgument |-> T_PromptArgument,
  PromptListChangedNotification |-> T_PromptListChangedNotification,
  PromptMessage |-> T_PromptMessage,
  PromptReference |-> T_PromptReference,
  ReadResourceContent |-> T_ReadResourceContent,
  ReadResourceMeta |-> T_ReadResourceMeta,
  ReadResourceRequest |-> T_ReadResourceRequest,
  ReadResourceRequestParams |-> T_ReadResourceRequestParams,
  ReadResourceResult |-> T_ReadResourceResult,
  RelatedTaskMetadata |-> T_RelatedTaskMetadata,
  Request |-> T_Request,
  RequestId |-> T_RequestId,
  RequestParams |-> T_RequestParams,
  RequestParamsMeta |-> T_RequestParamsMeta,
  Resource |-> T_Resource,
  ResourceContents |-> T_ResourceContents,
  ResourceLink |-> T_ResourceLink,
  ResourceListChangedNotification |-> T_ResourceListChangedNotification,
  ResourceMeta |-> T_ResourceMeta,
  ResourceRequestParams |-> T_ResourceRequestParams,
  ResourceTemplate |-> T_ResourceTemplate,
  ResourceTemplateReference |-> T_ResourceTemplateReference,
  ResourceUpdatedNotification |-> T_ResourceUpdatedNotification,
  ResourceUpdatedNotificationParams |-> T_ResourceUpdatedNotificationParams,
  Result |-> T_Result,
  Role |-> T_Role,
  Root |-> T_Root,
  RootsListChangedNotification |-> T_RootsListChangedNotification,
  RpcError |-> T_RpcError,
  SamplingMessage |-> T_SamplingMessage,
  SamplingMessageContent |-> T_SamplingMessageContent,
  SamplingMessageContentBlock |-> T_SamplingMessageContentBlock,
  ServerCapabilities |-> T_ServerCapabilities,
  ServerCapabilitiesPrompts |-> T_ServerCapabilitiesPrompts,
  ServerCapabilitiesResources |-> T_ServerCapabilitiesResources,
  ServerCapabilitiesTools |-> T_ServerCapabilitiesTools,
  ServerNotification |-> T_ServerNotification,
  ServerRequest |-> T_ServerRequest,
  ServerResult |-> T_ServerResult,
  ServerTaskRequest |-> T_ServerTaskRequest,
  ServerTaskTools |-> T_ServerTaskTools,
  ServerTasks |-> T_ServerTasks,
  SetLevelMeta |-> T_SetLevelMeta,
  SetLevelRequest |-> T_SetLevelRequest,
  SetLevelRequestParams |-> T_SetLevelRequestParams,
  SingleSelectEnumSchema |-> T_SingleSelectEnumSchema,
  StringSchema |-> T_StringSchema,
  StringSchemaFormat |-> T_StringSchemaFormat,
  SubscribeMeta |-> T_SubscribeMeta,
  SubscribeRequest |-> T_SubscribeRequest,
  SubscribeRequestParams |-> T_SubscribeRequestParams,
  Task |-> T_Task,
  TaskAugmentedMeta |-> T_TaskAugmentedMeta,
  TaskAugmentedRequestParams |-> T_TaskAugmentedRequestParams,
  TaskMetadata |-> T_TaskMetadata,
  TaskStatus |-> T_TaskStatus,
  TaskStatusNotification |-> T_TaskStatusNotification,
  TaskStatusNotificationParams |-> T_TaskStatusNotificationParams,
  TextContent |-> T_TextContent,
  TextResourceContents |-> T_TextResourceContents,
  TitledMultiSelectEnumSchema |-> T_TitledMultiSelectEnumSchema,
  TitledMultiSelectEnumSchemaItems |-> T_TitledMultiSelectEnumSchemaItems,
  TitledMultiSelectEnumSchemaItemsAnyOfItem |-> T_TitledMultiSelectEnumSchemaItemsAnyOfItem,
  TitledSingleSelectEnumSchema |-> T_TitledSingleSelectEnumSchema,
  TitledSingleSelectEnumSchemaOneOfItem |-> T_TitledSingleSelectEnumSchemaOneOfItem,
  Tool |-> T_Tool,
  ToolAnnotations |-> T_ToolAnnotations,
  ToolChoice |-> T_ToolChoice,
  ToolChoiceMode |-> T_ToolChoiceMode,
  ToolExecution |-> T_ToolExecution,
  ToolExecutionTaskSupport |-> T_ToolExecutionTaskSupport,
  ToolInputSchema |-> T_ToolInputSchema,
  ToolListChangedNotification |-> T_ToolListChangedNotification,
  ToolOutputSchema |-> T_ToolOutputSchema,
  ToolResultContent |-> T_ToolResultContent,
  ToolUseContent |-> T_ToolUseContent,
  UnsubscribeMeta |-> T_UnsubscribeMeta,
  UnsubscribeRequest |-> T_UnsubscribeRequest,
  UnsubscribeRequestParams |-> T_UnsubscribeRequestParams,
  UntitledMultiSelectEnumSchema |-> T_UntitledMultiSelectEnumSchema,
  UntitledMultiSelectEnumSchemaItems |-> T_UntitledMultiSelectEnumSchemaItems,
  UntitledSingleSelectEnumSchema |-> T_UntitledSingleSelectEnumSchema,
  UrlElicitError |-> T_UrlElicitError,
  UrlElicitErrorData |-> T_UrlElicitErrorData,
  UrlElicitationRequiredError |-> T_UrlElicitationRequiredError,
  ClientMessage |-> T_ClientMessage,
  ClientJsonrpcRequest |-> T_ClientJsonrpcRequest,
  RequestFromClient |-> T_RequestFromClient,
  ClientJsonrpcNotification |-> T_ClientJsonrpcNotification,
  NotificationFromClient |-> T_NotificationFromClient,
  ClientJsonrpcResponse |-> T_ClientJsonrpcResponse,
  ResultFromClient |-> T_ResultFromClient,
  ClientTaskResult |-> T_ClientTaskResult,
  ServerMessage |-> T_ServerMessage,
  ServerJsonrpcRequest |-> T_ServerJsonrpcRequest,
  CustomRequest |-> T_CustomRequest,
  RequestFromServer |-> T_RequestFromServer,
  ServerJsonrpcNotification |-> T_ServerJsonrpcNotification,
  NotificationFromServer |-> T_NotificationFromServer,
  ServerJsonrpcResponse |-> T_ServerJsonrpcResponse,
  ResultFromServer |-> T_ResultFromServer,
  MessageFromServer |-> T_MessageFromServer,
  MessageFromClient |-> T_MessageFromClient,
  ClientMessages |-> T_ClientMessages,
  ServerMessages |-> T_ServerMessages,
  MessagesFromServer |-> T_MessagesFromServer,
  MessagesFromClient |-> T_MessagesFromClient,
  SdkError |-> T_SdkError]

TypeNames == <<"Annotations","AudioContent","BaseMetadata","BlobResourceContents","BooleanSchema","CallToolMeta","CallToolRequest","CallToolRequestParams","CallToolResult","CancelTaskParams","CancelTaskRequest","CancelTaskResult","CancelledNotification","CancelledNotificationParams","ClientCapabilities","ClientElicitation","ClientNotification","ClientRequest","ClientResult","ClientRoots","ClientSampling","ClientTaskElicitation","ClientTaskRequest","ClientTaskSampling","ClientTasks","CompleteRequest","CompleteRequestArgument","CompleteRequestContext","CompleteRequestMeta","CompleteRequestParams","CompleteRequestRef","CompleteResult","CompleteResultCompletion","ContentBlock","CreateMessageContent","CreateMessageRequest","CreateMessageRequestParams","CreateMessageResult","CreateTaskResult","Cursor","ElicitCompleteParams","ElicitFormMeta","ElicitFormSchema","ElicitRequest","ElicitRequestFormParams","ElicitRequestParams","ElicitRequestUrlParams","ElicitResult","ElicitResultAction","ElicitResultContent","ElicitResultContentPrimitive","ElicitUrlMeta","ElicitationCompleteNotification","EmbeddedResource","EmbeddedResourceResource","EmptyResult","EnumSchema","GetPromptMeta","GetPromptRequest","GetPromptRequestParams","GetPromptResult","GetTaskParams","GetTaskPayloadParams","GetTaskPayloadRequest","GetTaskPayloadResult","GetTaskRequest","GetTaskResult","Icon","IconTheme","Icons","ImageContent","Implementation","IncludeContext","InitializeMeta","InitializeRequest","InitializeRequestParams","InitializeResult","InitializedNotification","JsonrpcErrorResponse","JsonrpcMessage","JsonrpcNotification","JsonrpcRequest","JsonrpcResponse","JsonrpcResultResponse","LegacyTitledEnumSchema","ListPromptsRequest","ListPromptsResult","ListResourceTemplatesRequest","ListResourceTemplatesResult","ListResourcesRequest","ListResourcesResult","ListRootsRequest","ListRootsResult","ListTasksRequest","ListTasksResult","ListToolsRequest","ListToolsResult","LoggingLevel","LoggingMessageNotification","LoggingMessageNotificationParams","MessageMeta","ModelHint","ModelPreferences","MultiSelectEnumSchema","Notification","NotificationParams","NumberSchema","NumberSchemaType","PaginatedMeta","PaginatedRequest","PaginatedRequestParams","PaginatedResult","PingRequest","PrimitiveSchemaDefinition","ProgressNotification","ProgressNotificationParams","ProgressToken","Prompt","PromptArgument","PromptListChangedNotification","PromptMessage","PromptReference","ReadResourceContent","ReadResourceMeta","ReadResourceRequest","ReadResourceRequestParams","ReadResourceResult","RelatedTaskMetadata","Request","RequestId","RequestParams","RequestParamsMeta","Resource","ResourceContents","ResourceLink","ResourceListChangedNotification","ResourceMeta","ResourceRequestParams","ResourceTemplate","ResourceTemplateReference","ResourceUpdatedNotification","ResourceUpdatedNotificationParams","Result","Role","Root","RootsListChangedNotification","RpcError","SamplingMessage","SamplingMessageContent","SamplingMessageContentBlock","ServerCapabilities","ServerCapabilitiesPrompts","ServerCapabilitiesResources","ServerCapabilitiesTools","ServerNotification","ServerRequest","ServerResult","ServerTaskRequest","ServerTaskTools","ServerTasks","SetLevelMeta","SetLevelRequest","SetLevelRequestParams","SingleSelectEnumSchema","StringSchema","StringSchemaFormat","SubscribeMeta","SubscribeRequest","SubscribeRequestParams","Task","TaskAugmentedMeta","TaskAugmentedRequestParams","TaskMetadata","TaskStatus","TaskStatusNotification","TaskStatusNotificationParams","TextContent","TextResourceContents","TitledMultiSelectEnumSchema","TitledMultiSelectEnumSchemaItems","TitledMultiSelectEnumSchemaItemsAnyOfItem","TitledSingleSelectEnumSchema","TitledSingleSelectEnumSchemaOneOfItem","Tool","ToolAnnotations","ToolChoice","ToolChoiceMode","ToolExecution","ToolExecutionTaskSupport","ToolInputSchema","ToolListChangedNotification","ToolOutputSchema","ToolResultContent","ToolUseContent","UnsubscribeMeta","UnsubscribeRequest","UnsubscribeRequestParams","UntitledMultiSelectEnumSchema","UntitledMultiSelectEnumSchemaItems","UntitledSingleSelectEnumSchema","UrlElicitError","UrlElicitErrorData","UrlElicitationRequiredError","ClientMessage","ClientJsonrpcRequest","RequestFromClient","ClientJsonrpcNotification","NotificationFromClient","ClientJsonrpcResponse","ResultFromClient","ClientTaskResult","ServerMessage","ServerJsonrpcRequest","CustomRequest","RequestFromServer","ServerJsonrpcNotification","NotificationFromServer","ServerJsonrpcResponse","ResultFromServer","MessageFromServer","MessageFromClient","ClientMessages","ServerMessages","MessagesFromServer","MessagesFromClient","SdkError">>
=============================================================================
