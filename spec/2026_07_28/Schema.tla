------------------------------- MODULE Schema -------------------------------
(* Protocol tables of MCP schema version 2026_07_28: one entry per wire type.                *)
(* Type expressions and field modes are explained in ../Codec.tla.                   *)
EXTENDS TLC
SchemaVersion == "2026_07_28"

T_Annotations == [k|->"struct",f|-><<[n|->"audience",r|->"audience",t|-><<"vec",<<"ref","Role">>>>,m|->"skip"],
    [n|->"lastModified",r|->"last_modified",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"priority",r|->"priority",t|-><<"opt",<<"f64">>>>,m|->"skip"]>>]
T_AudioContent == [k|->"struct",f|-><<[n|->"annotations",r|->"annotations",t|-><<"opt",<<"ref","Annotations">>>>,m|->"skip"],
    [n|->"data",r|->"data",t|-><<"str">>,m|->"req"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"ref","MetaObject">>>>,m|->"skip"],
    [n|->"mimeType",r|->"mime_type",t|-><<"str">>,m|->"req"],
    [n|->"type",r|->"type_",t|-><<"cs","audio">>,m|->"must"]>>]
T_BaseMetadata == [k|->"struct",f|-><<[n|->"name",r|->"name",t|-><<"str">>,m|->"req"],
    [n|->"title",r|->"title",t|-><<"opt",<<"str">>>>,m|->"skip"]>>]
T_BlobResourceContents == [k|->"struct",f|-><<[n|->"blob",r|->"blob",t|-><<"str">>,m|->"req"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"ref","MetaObject">>>>,m|->"skip"],
    [n|->"mimeType",r|->"mime_type",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"uri",r|->"uri",t|-><<"str">>,m|->"req"]>>]
T_BooleanSchema == [k|->"struct",f|-><<[n|->"default",r|->"default",t|-><<"opt",<<"bool">>>>,m|->"skip"],
    [n|->"description",r|->"description",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"title",r|->"title",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"type",r|->"type_",t|-><<"cs","boolean">>,m|->"must"]>>]
T_CacheableResult == [k|->"struct",f|-><<[n|->"cacheScope",r|->"cache_scope",t|-><<"ref","CacheableResultCacheScope">>,m|->"req"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"ref","ResultMetaObject">>>>,m|->"skip"],
    [n|->"resultType",r|->"result_type",t|-><<"str">>,m|->"req"],
    [n|->"ttlMs",r|->"ttl_ms",t|-><<"u64">>,m|->"req"]>>]
T_CacheableResultCacheScope == [k|->"unit",v|-><<<<"private","Private">>,<<"public","Public">>>>]
T_CallToolRequest == [k|->"struct",f|-><<[n|->"id",r|->"id",t|-><<"ref","RequestId">>,m|->"req"],
    [n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"method",r|->"method",t|-><<"cs","tools/call">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"ref","CallToolRequestParams">>,m|->"req"]>>]
T_CallToolRequestParams == [k|->"struct",f|-><<[n|->"arguments",r|->"arguments",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"inputResponses",r|->"input_responses",t|-><<"opt",<<"ref","InputResponses">>>>,m|->"skip"],
    [n|->"_meta",r|->"meta",t|-><<"ref","RequestMetaObject">>,m|->"req"],
    [n|->"name",r|->"name",t|-><<"str">>,m|->"req"],
    [n|->"requestState",r|->"request_state",t|-><<"opt",<<"str">>>>,m|->"skip"]>>]
T_CallToolResult == [k|->"struct",f|-><<[n|->"content",r|->"content",t|-><<"vec",<<"ref","ContentBlock">>>>,m|->"req"],
    [n|->"isError",r|->"is_error",t|-><<"opt",<<"bool">>>>,m|->"skip"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"ref","ResultMetaObject">>>>,m|->"skip"],
    [n|->"resultType",r|->"result_type",t|-><<"str">>,m|->"req"],
    [n|->"structuredContent",r|->"structured_content",t|-><<"opt",<<"val">>>>,m|->"skip"]>>]
T_CallToolResultResponse == [k|->"struct",f|-><<[n|->"id",r|->"id",t|-><<"ref","RequestId">>,m|->"req"],
    [n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"result",r|->"result",t|-><<"ref","CallToolResultResponseResult">>,m|->"req"]>>]
T_CallToolResultResponseResult == [k|->"untag",v|-><<[n|->"CallToolResult",k|->"nt",t|-><<"ref","CallToolResult">>],
    [n|->"InputRequiredResult",k|->"nt",t|-><<"ref","InputRequiredResult">>]>>]
T_CancelledNotification == [k|->"struct",f|-><<[n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"method",r|->"method",t|-><<"cs","notifications/cancelled">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"ref","CancelledNotificationParams">>,m|->"req"]>>]
T_CancelledNotificationParams == [k|->"struct",f|-><<[n|->"_meta",r|->"meta",t|-><<"opt",<<"ref","NotificationMetaObject">>>>,m|->"skip"],
    [n|->"reason",r|->"reason",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"requestId",r|->"request_id",t|-><<"ref","RequestId">>,m|->"req"]>>]
T_ClientCapabilities == [k|->"struct",f|-><<[n|->"elicitation",r|->"elicitation",t|-><<"opt",<<"ref","ClientElicitation">>>>,m|->"skip"],
    [n|->"experimental",r|->"experimental",t|-><<"opt",<<"hmap",<<"ref","JsonObject">>>>>>,m|->"skip"],
    [n|->"extensions",r|->"extensions",t|-><<"opt",<<"hmap",<<"ref","JsonObject">>>>>>,m|->"skip"],
    [n|->"roots",r|->"roots",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"sampling",r|->"sampling",t|-><<"opt",<<"ref","ClientSampling">>>>,m|->"skip"]>>]
T_ClientElicitation == [k|->"struct",f|-><<[n|->"form",r|->"form",t|-><<"opt",<<"ref","JsonObject">>>>,m|->"skip"],
    [n|->"url",r|->"url",t|-><<"opt",<<"ref","JsonObject">>>>,m|->"skip"]>>]
T_ClientNotification == [k|->"struct",f|-><<[n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"method",r|->"method",t|-><<"cs","notifications/cancelled">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"ref","CancelledNotificationParams">>,m|->"req"]>>]
T_ClientRequest == [k|->"dispatch",v|-><<[m|->"server/discover",n|->"DiscoverRequest",t|-><<"ref","DiscoverRequest">>],
    [m|->"resources/list",n|->"ListResourcesRequest",t|-><<"ref","ListResourcesRequest">>],
    [m|->"resources/templates/list",n|->"ListResourceTemplatesRequest",t|-><<"ref","ListResourceTemplatesRequest">>],
    [m|->"resources/read",n|->"ReadResourceRequest",t|-><<"ref","ReadResourceRequest">>],
    [m|->"subscriptions/listen",n|->"SubscriptionsListenRequest",t|-><<"ref","SubscriptionsListenRequest">>],
    [m|->"prompts/list",n|->"ListPromptsRequest",t|-><<"ref","ListPromptsRequest">>],
    [m|->"prompts/get",n|->"GetPromptRequest",t|-><<"ref","GetPromptRequest">>],
    [m|->"tools/list",n|->"ListToolsRequest",t|-><<"ref","ListToolsRequest">>],
    [m|->"tools/call",n|->"CallToolRequest",t|-><<"ref","CallToolRequest">>],
    [m|->"completion/complete",n|->"CompleteRequest",t|-><<"ref","CompleteRequest">>]>>]
T_ClientResult == [k|->"new",t|-><<"ref","Result">>]
T_ClientSampling == [k|->"struct",f|-><<[n|->"context",r|->"context",t|-><<"opt",<<"ref","JsonObject">>>>,m|->"skip"],
    [n|->"tools",r|->"tools",t|-><<"opt",<<"ref","JsonObject">>>>,m|->"skip"]>>]
T_CompleteRequest == [k|->"struct",f|-><<[n|->"id",r|->"id",t|-><<"ref","RequestId">>,m|->"req"],
    [n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"method",r|->"method",t|-><<"cs","completion/complete">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"ref","CompleteRequestParams">>,m|->"req"]>>]
T_CompleteRequestArgument == [k|->"struct",f|-><<[n|->"name",r|->"name",t|-><<"str">>,m|->"req"],
    [n|->"value",r|->"value",t|-><<"str">>,m|->"req"]>>]
T_CompleteRequestContext == [k|->"struct",f|-><<[n|->"arguments",r|->"arguments",t|-><<"opt",<<"hmap",<<"str">>>>>>,m|->"skip"]>>]
T_CompleteRequestParams == [k|->"struct",f|-><<[n|->"argument",r|->"argument",t|-><<"ref","CompleteRequestArgument">>,m|->"req"],
    [n|->"context",r|->"context",t|-><<"opt",<<"ref","CompleteRequestContext">>>>,m|->"skip"],
    [n|->"_meta",r|->"meta",t|-><<"ref","RequestMetaObject">>,m|->"req"],
    [n|->"ref",r|->"ref_",t|-><<"ref","CompleteRequestRef">>,m|->"req"]>>]
T_CompleteRequestRef == [k|->"untag",v|-><<[n|->"PromptReference",k|->"nt",t|-><<"ref","PromptReference">>],
    [n|->"ResourceTemplateReference",k|->"nt",t|-><<"ref","ResourceTemplateReference">>]>>]
T_CompleteResult == [k|->"struct",f|-><<[n|->"completion",r|->"completion",t|-><<"ref","CompleteResultCompletion">>,m|->"req"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"ref","ResultMetaObject">>>>,m|->"skip"],
    [n|->"resultType",r|->"result_type",t|-><<"str">>,m|->"req"]>>]
T_CompleteResultCompletion == [k|->"struct",f|-><<[n|->"hasMore",r|->"has_more",t|-><<"opt",<<"bool">>>>,m|->"skip"],
    [n|->"total",r|->"total",t|-><<"opt",<<"i64">>>>,m|->"skip"],
    [n|->"values",r|->"values",t|-><<"vec",<<"str">>>>,m|->"req"]>>]
T_CompleteResultResponse == [k|->"struct",f|-><<[n|->"id",r|->"id",t|-><<"ref","RequestId">>,m|->"req"],
    [n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"result",r|->"result",t|-><<"ref","CompleteResult">>,m|->"req"]>>]
T_ContentBlock == [k|->"untag",v|-><<[n|->"TextContent",k|->"nt",t|-><<"ref","TextContent">>],
    [n|->"ImageContent",k|->"nt",t|-><<"ref","ImageContent">>],
    [n|->"AudioContent",k|->"nt",t|-><<"ref","AudioContent">>],
    [n|->"ResourceLink",k|->"nt",t|-><<"ref","ResourceLink">>],
    [n|->"EmbeddedResource",k|->"nt",t|-><<"ref","EmbeddedResource">>]>>]
T_CreateMessageContent == [k|->"untag",v|-><<[n|->"TextContent",k|->"nt",t|-><<"ref","TextContent">>],
    [n|->"ImageContent",k|->"nt",t|-><<"ref","ImageContent">>],
    [n|->"AudioContent",k|->"nt",t|-><<"ref","AudioContent">>],
    [n|->"ToolUseContent",k|->"nt",t|-><<"ref","ToolUseContent">>],
    [n|->"ToolResultContent",k|->"nt",t|-><<"ref","ToolResultContent">>],
    [n|->"SamplingMessageContentBlock",k|->"nt",t|-><<"vec",<<"ref","SamplingMessageContentBlock">>>>]>>]
T_CreateMessageRequest == [k|->"struct",f|-><<[n|->"method",r|->"method",t|-><<"cs","sampling/createMessage">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"ref","CreateMessageRequestParams">>,m|->"req"]>>]
T_CreateMessageRequestParams == [k|->"struct",f|-><<[n|->"includeContext",r|->"include_context",t|-><<"opt",<<"ref","IncludeContext">>>>,m|->"skip"],
    [n|->"maxTokens",r|->"max_tokens",t|-><<"i64">>,m|->"req"],
    [n|->"messages",r|->"messages",t|-><<"vec",<<"ref","SamplingMessage">>>>,m|->"req"],
    [n|->"metadata",r|->"metadata",t|-><<"opt",<<"ref","JsonObject">>>>,m|->"skip"],
    [n|->"modelPreferences",r|->"model_preferences",t|-><<"opt",<<"ref","ModelPreferences">>>>,m|->"skip"],
    [n|->"stopSequences",r|->"stop_sequences",t|-><<"vec",<<"str">>>>,m|->"skip"],
    [n|->"systemPrompt",r|->"system_prompt",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"temperature",r|->"temperature",t|-><<"opt",<<"f64">>>>,m|->"skip"],
    [n|->"toolChoice",r|->"tool_choice",t|-><<"opt",<<"ref","ToolChoice">>>>,m|->"skip"],
    [n|->"tools",r|->"tools",t|-><<"vec",<<"ref","Tool">>>>,m|->"skip"]>>]
T_CreateMessageResult == [k|->"struct",f|-><<[n|->"content",r|->"content",t|-><<"ref","CreateMessageContent">>,m|->"req"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"ref","MetaObject">>>>,m|->"skip"],
    [n|->"model",r|->"model",t|-><<"str">>,m|->"req"],
    [n|->"role",r|->"role",t|-><<"ref","Role">>,m|->"req"],
    [n|->"stopReason",r|->"stop_reason",t|-><<"opt",<<"str">>>>,m|->"skip"]>>]
T_Cursor == [k|->"new",t|-><<"str">>]
T_DiscoverRequest == [k|->"struct",f|-><<[n|->"id",r|->"id",t|-><<"ref","RequestId">>,m|->"req"],
    [n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"method",r|->"method",t|-><<"cs","server/discover">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"ref","RequestParams">>,m|->"req"]>>]
T_DiscoverResult == [k|->"struct",f|-><<[n|->"cacheScope",r|->"cache_scope",t|-><<"ref","DiscoverResultCacheScope">>,m|->"req"],
    [n|->"capabilities",r|->"capabilities",t|-><<"ref","ServerCapabilities">>,m|->"req"],
    [n|->"instructions",r|->"instructions",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"ref","ResultMetaObject">>>>,m|->"skip"],
    [n|->"resultType",r|->"result_type",t|-><<"str">>,m|->"req"],
    [n|->"supportedVersions",r|->"supported_versions",t|-><<"vec",<<"str">>>>,m|->"req"],
    [n|->"ttlMs",r|->"ttl_ms",t|-><<"u64">>,m|->"req"]>>]
T_DiscoverResultCacheScope == [k|->"unit",v|-><<<<"private","Private">>,<<"public","Public">>>>]
T_DiscoverResultResponse == [k|->"struct",f|-><<[n|->"id",r|->"id",t|-><<"ref","RequestId">>,m|->"req"],
    [n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"result",r|->"result",t|-><<"ref","DiscoverResult">>,m|->"req"]>>]
T_ElicitRequest == [k|->"struct",f|-><<[n|->"method",r|->"method",t|-><<"cs","elicitation/create">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"ref","ElicitRequestParams">>,m|->"req"]>>]
T_ElicitRequestFormParams == [k|->"struct",f|-><<[n|->"message",r|->"message",t|-><<"str">>,m|->"req"],
    [n|->"mode",r|->"mode",t|-><<"opt",<<"cs","form">>>>,m|->"skip"],
    [n|->"requestedSchema",r|->"requested_schema",t|-><<"ref","ElicitRequestFormParamsRequestedSchema">>,m|->"req"]>>]
T_ElicitRequestFormParamsRequestedSchema == [k|->"struct",f|-><<[n|->"properties",r|->"properties",t|-><<"hmap",<<"ref","PrimitiveSchemaDefinition">>>>,m|->"req"],
    [n|->"required",r|->"required",t|-><<"vec",<<"str">>>>,m|->"skip"],
    [n|->"$schema",r|->"schema",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"type",r|->"type_",t|-><<"cs","object">>,m|->"must"]>>]
T_ElicitRequestParams == [k|->"untag",v|-><<[n|->"FormParams",k|->"nt",t|-><<"ref","ElicitRequestFormParams">>],
    [n|->"UrlParams",k|->"nt",t|-><<"ref","ElicitRequestUrlParams">>]>>]
T_ElicitRequestUrlParams == [k|->"struct",f|-><<[n|->"message",r|->"message",t|-><<"str">>,m|->"req"],
    [n|->"mode",r|->"mode",t|-><<"cs","url">>,m|->"must"],
    [n|->"url",r|->"url",t|-><<"str">>,m|->"req"]>>]
T_ElicitResult == [k|->"struct",f|-><<[n|->"action",r|->"action",t|-><<"ref","ElicitResultAction">>,m|->"req"],
    [n|->"content",r|->"content",t|-><<"opt",<<"hmap",<<"ref","ElicitResultContent">>>>>>,m|->"skip"]>>]
T_ElicitResultAction == [k|->"unit",v|-><<<<"accept","Accept">>,<<"cancel","Cancel">>,<<"decline","Decline">>>>]
T_ElicitResultContent == [k|->"untag",v|-><<[n|->"StringArray",k|->"nt",t|-><<"vec",<<"str">>>>],
    [n|->"Primitive",k|->"nt",t|-><<"ref","ElicitResultContentPrimitive">>]>>]
T_ElicitResultContentPrimitive == [k|->"untag",v|-><<[n|->"Boolean",k|->"nt",t|-><<"bool">>],
    [n|->"String",k|->"nt",t|-><<"str">>],
    [n|->"Integer",k|->"nt",t|-><<"i64">>]>>]
T_EmbeddedResource == [k|->"struct",f|-><<[n|->"annotations",r|->"annotations",t|-><<"opt",<<"ref","Annotations">>>>,m|->"skip"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"ref","MetaObject">>>>,m|->"skip"],
    [n|->"resource",r|->"resource",t|-><<"ref","EmbeddedResourceResource">>,m|->"req"],
    [n|->"type",r|->"type_",t|-><<"cs","resource">>,m|->"must"]>>]
T_EmbeddedResourceResource == [k|->"untag",v|-><<[n|->"TextResourceContents",k|->"nt",t|-><<"ref","TextResourceContents">>],
    [n|->"BlobResourceContents",k|->"nt",t|-><<"ref","BlobResourceContents">>]>>]
T_EmptyResult == [k|->"new",t|-><<"ref","Result">>]
T_EnumSchema == [k|->"untag",v|-><<[n|->"UntitledSingleSelectEnumSchema",k|->"nt",t|-><<"ref","UntitledSingleSelectEnumSchema">>],
    [n|->"TitledSingleSelectEnumSchema",k|->"nt",t|-><<"ref","TitledSingleSelectEnumSchema">>],
    [n|->"UntitledMultiSelectEnumSchema",k|->"nt",t|-><<"ref","UntitledMultiSelectEnumSchema">>],
    [n|->"TitledMultiSelectEnumSchema",k|->"nt",t|-><<"ref","TitledMultiSelectEnumSchema">>],
    [n|->"LegacyTitledEnumSchema",k|->"nt",t|-><<"ref","LegacyTitledEnumSchema">>]>>]
T_GetPromptRequest == [k|->"struct",f|-><<[n|->"id",r|->"id",t|-><<"ref","RequestId">>,m|->"req"],
    [n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"method",r|->"method",t|-><<"cs","prompts/get">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"ref","GetPromptRequestParams">>,m|->"req"]>>]
T_GetPromptRequestParams == [k|->"struct",f|-><<[n|->"arguments",r|->"arguments",t|-><<"opt",<<"hmap",<<"str">>>>>>,m|->"skip"],
    [n|->"inputResponses",r|->"input_responses",t|-><<"opt",<<"ref","InputResponses">>>>,m|->"skip"],
    [n|->"_meta",r|->"meta",t|-><<"ref","RequestMetaObject">>,m|->"req"],
    [n|->"name",r|->"name",t|-><<"str">>,m|->"req"],
    [n|->"requestState",r|->"request_state",t|-><<"opt",<<"str">>>>,m|->"skip"]>>]
T_GetPromptResult == [k|->"struct",f|-><<[n|->"description",r|->"description",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"messages",r|->"messages",t|-><<"vec",<<"ref","PromptMessage">>>>,m|->"req"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"ref","ResultMetaObject">>>>,m|->"skip"],
    [n|->"resultType",r|->"result_type",t|-><<"str">>,m|->"req"]>>]
T_GetPromptResultResponse == [k|->"struct",f|-><<[n|->"id",r|->"id",t|-><<"ref","RequestId">>,m|->"req"],
    [n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"result",r|->"result",t|-><<"ref","GetPromptResultResponseResult">>,m|->"req"]>>]
T_GetPromptResultResponseResult == [k|->"untag",v|-><<[n|->"GetPromptResult",k|->"nt",t|-><<"ref","GetPromptResult">>],
    [n|->"InputRequiredResult",k|->"nt",t|-><<"ref","InputRequiredResult">>]>>]
T_HeaderMismatchError == [k|->"struct",f|-><<[n|->"error",r|->"error",t|-><<"ref","RpcError">>,m|->"req"],
    [n|->"id",r|->"id",t|-><<"opt",<<"ref","RequestId">>>>,m|->"skip"],
    [n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"]>>]
T_Icon == [k|->"struct",f|-><<[n|->"mimeType",r|->"mime_type",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"sizes",r|->"sizes",t|-><<"vec",<<"str">>>>,m|->"skip"],
    [n|->"src",r|->"src",t|-><<"str">>,m|->"req"],
    [n|->"theme",r|->"theme",t|-><<"opt",<<"ref","IconTheme">>>>,m|->"skip"]>>]
T_IconTheme == [k|->"unit",v|-><<<<"dark","Dark">>,<<"light","Light">>>>]
T_Icons == [k|->"struct",f|-><<[n|->"icons",r|->"icons",t|-><<"vec",<<"ref","Icon">>>>,m|->"skip"]>>]
T_ImageContent == [k|->"struct",f|-><<[n|->"annotations",r|->"annotations",t|-><<"opt",<<"ref","Annotations">>>>,m|->"skip"],
    [n|->"data",r|->"data",t|-><<"str">>,m|->"req"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"ref","MetaObject">>>>,m|->"skip"],
    [n|->"mimeType",r|->"mime_type",t|-><<"str">>,m|->"req"],
    [n|->"type",r|->"type_",t|-><<"cs","image">>,m|->"must"]>>]
T_Implementation == [k|->"struct",f|-><<[n|->"description",r|->"description",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"icons",r|->"icons",t|-><<"vec",<<"ref","Icon">>>>,m|->"skip"],
    [n|->"name",r|->"name",t|-><<"str">>,m|->"req"],
    [n|->"title",r|->"title",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"version",r|->"version",t|-><<"str">>,m|->"req"],
    [n|->"websiteUrl",r|->"website_url",t|-><<"opt",<<"str">>>>,m|->"skip"]>>]
T_IncludeContext == [k|->"unit",v|-><<<<"allServers","AllServers">>,<<"none","None">>,<<"thisServer","ThisServer">>>>]
T_InputRequest == [k|->"untag",v|-><<[n|->"CreateMessageRequest",k|->"nt",t|-><<"ref","CreateMessageRequest">>],
    [n|->"ListRootsRequest",k|->"nt",t|-><<"ref","ListRootsRequest">>],
    [n|->"ElicitRequest",k|->"nt",t|-><<"ref","ElicitRequest">>]>>]
T_InputRequests == [k|->"new",t|-><<"hmap",<<"ref","InputRequest">>>>]
T_InputRequiredResult == [k|->"struct",f|-><<[n|->"inputRequests",r|->"input_requests",t|-><<"opt",<<"ref","InputRequests">>>>,m|->"skip"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"ref","ResultMetaObject">>>>,m|->"skip"],
    [n|->"requestState",r|->"request_state",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"resultType",r|->"result_type",t|-><<"str">>,m|->"req"]>>]
T_InputResponse == [k|->"untag",v|-><<[n|->"CreateMessageResult",k|->"nt",t|-><<"ref","CreateMessageResult">>],
    [n|->"ListRootsResult",k|->"nt",t|-><<"ref","ListRootsResult">>],
    [n|->"ElicitResult",k|->"nt",t|-><<"ref","ElicitResult">>]>>]
T_InputResponseRequestParams == [k|->"struct",f|-><<[n|->"inputResponses",r|->"input_responses",t|-><<"opt",<<"ref","InputResponses">>>>,m|->"skip"],
    [n|->"_meta",r|->"meta",t|-><<"ref","RequestMetaObject">>,m|->"req"],
    [n|->"requestState",r|->"request_state",t|-><<"opt",<<"str">>>>,m|->"skip"]>>]
T_InputResponses == [k|->"new",t|-><<"hmap",<<"ref","InputResponse">>>>]
T_InternalError == [k|->"struct",f|-><<[n|->"code",r|->"code",t|-><<"i64">>,m|->"req"],
    [n|->"data",r|->"data",t|-><<"opt",<<"val">>>>,m|->"skip"],
    [n|->"message",r|->"message",t|-><<"str">>,m|->"req"]>>]
T_InvalidParamsError == [k|->"struct",f|-><<[n|->"code",r|->"code",t|-><<"i64">>,m|->"req"],
    [n|->"data",r|->"data",t|-><<"opt",<<"val">>>>,m|->"skip"],
    [n|->"message",r|->"message",t|-><<"str">>,m|->"req"]>>]
T_InvalidRequestError == [k|->"struct",f|-><<[n|->"code",r|->"code",t|-><<"i64">>,m|->"req"],
    [n|->"data",r|->"data",t|-><<"opt",<<"val">>>>,m|->"skip"],
    [n|->"message",r|->"message",t|-><<"str">>,m|->"req"]>>]
T_JsonArray == [k|->"new",t|-><<"vec",<<"ref","JsonValue">>>>]
T_JsonObject == [k|->"new",t|-><<"hmap",<<"ref","JsonValue">>>>]
T_JsonValue == [k|->"untag",v|-><<[n|->"Variant0",k|->"nt",t|-><<"ref","JsonObject">>],
    [n|->"Variant1",k|->"nt",t|-><<"vec",<<"ref","JsonValue">>>>],
    [n|->"Variant2",k|->"nt",t|-><<"ref","JsonValueVariant2">>]>>]
T_JsonValueVariant2 == [k|->"untag",v|-><<[n|->"Boolean",k|->"nt",t|-><<"bool">>],
    [n|->"String",k|->"nt",t|-><<"str">>],
    [n|->"Integer",k|->"nt",t|-><<"i64">>]>>]
T_JsonrpcErrorResponse == [k|->"struct",f|-><<[n|->"error",r|->"error",t|-><<"ref","RpcError">>,m|->"req"],
    [n|->"id",r|->"id",t|-><<"opt",<<"ref","RequestId">>>>,m|->"skip"],
    [n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"]>>]
T_JsonrpcMessage == [k|->"untag",v|-><<[n|->"Request",k|->"nt",t|-><<"ref","JsonrpcRequest">>],
    [n|->"Notification",k|->"nt",t|-><<"ref","JsonrpcNotification">>],
    [n|->"ResultResponse",k|->"nt",t|-><<"ref","JsonrpcResultResponse">>],
    [n|->"ErrorResponse",k|->"nt",t|-><<"ref","JsonrpcErrorResponse">>]>>]
T_JsonrpcNotification == [k|->"struct",f|-><<[n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"method",r|->"method",t|-><<"str">>,m|->"req"],
    [n|->"params",r|->"params",t|-><<"opt",<<"map">>>>,m|->"skip"]>>]
T_JsonrpcRequest == [k|->"struct",f|-><<[n|->"id",r|->"id",t|-><<"ref","RequestId">>,m|->"req"],
    [n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"method",r|->"method",t|-><<"str">>,m|->"req"],
    [n|->"params",r|->"params",t|-><<"opt",<<"map">>>>,m|->"skip"]>>]
T_JsonrpcResponse == [k|->"untag",v|-><<[n|->"ResultResponse",k|->"nt",t|-><<"ref","JsonrpcResultResponse">>],
    [n|->"ErrorResponse",k|->"nt",t|-><<"ref","JsonrpcErrorResponse">>]>>]
T_JsonrpcResultResponse == [k|->"struct",f|-><<[n|->"id",r|->"id",t|-><<"ref","RequestId">>,m|->"req"],
    [n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"result",r|->"result",t|-><<"ref","Result">>,m|->"req"]>>]
T_LegacyTitledEnumSchema == [k|->"struct",f|-><<[n|->"default",r|->"default",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"description",r|->"description",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"enum",r|->"enum_",t|-><<"vec",<<"str">>>>,m|->"req"],
    [n|->"enumNames",r|->"enum_names",t|-><<"vec",<<"str">>>>,m|->"skip"],
    [n|->"title",r|->"title",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"type",r|->"type_",t|-><<"cs","string">>,m|->"must"]>>]
T_ListPromptsRequest == [k|->"struct",f|-><<[n|->"id",r|->"id",t|-><<"ref","RequestId">>,m|->"req"],
    [n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"method",r|->"method",t|-><<"cs","prompts/list">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"ref","PaginatedRequestParams">>,m|->"req"]>>]
T_ListPromptsResult == [k|->"struct",f|-><<[n|->"cacheScope",r|->"cache_scope",t|-><<"ref","ListPromptsResultCacheScope">>,m|->"req"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"ref","ResultMetaObject">>>>,m|->"skip"],
    [n|->"nextCursor",r|->"next_cursor",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"prompts",r|->"prompts",t|-><<"vec",<<"ref","Prompt">>>>,m|->"req"],
    [n|->"resultType",r|->"result_type",t|-><<"str">>,m|->"req"],
    [n|->"ttlMs",r|->"ttl_ms",t|-><<"u64">>,m|->"req"]>>]
T_ListPromptsResultCacheScope == [k|->"unit",v|-><<<<"private","Private">>,<<"public","Public">>>>]
T_ListPromptsResultResponse == [k|->"struct",f|-><<[n|->"id",r|->"id",t|-><<"ref","RequestId">>,m|->"req"],
    [n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"result",r|->"result",t|-><<"ref","ListPromptsResult">>,m|->"req"]>>]
T_ListResourceTemplatesRequest == [k|->"struct",f|-><<[n|->"id",r|->"id",t|-><<"ref","RequestId">>,m|->"req"],
    [n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"method",r|->"method",t|-><<"cs","resources/templates/list">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"ref","PaginatedRequestParams">>,m|->"req"]>>]
T_ListResourceTemplatesResult == [k|->"struct",f|-><<[n|->"cacheScope",r|->"cache_scope",t|-><<"ref","ListResourceTemplatesResultCacheScope">>,m|->"req"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"ref","ResultMetaObject">>>>,m|->"skip"],
    [n|->"nextCursor",r|->"next_cursor",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"resourceTemplates",r|->"resource_templates",t|-><<"vec",<<"ref","ResourceTemplate">>>>,m|->"req"],
    [n|->"resultType",r|->"result_type",t|-><<"str">>,m|->"req"],
    [n|->"ttlMs",r|->"ttl_ms",t|-><<"u64">>,m|->"req"]>>]
T_ListResourceTemplatesResultCacheScope == [k|->"unit",v|-><<<<"private","Private">>,<<"public","Public">>>>]
T_ListResourceTemplatesResultResponse == [k|->"struct",f|-><<[n|->"id",r|->"id",t|-><<"ref","RequestId">>,m|->"req"],
    [n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"result",r|->"result",t|-><<"ref","ListResourceTemplatesResult">>,m|->"req"]>>]
T_ListResourcesRequest == [k|->"struct",f|-><<[n|->"id",r|->"id",t|-><<"ref","RequestId">>,m|->"req"],
    [n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"method",r|->"method",t|-><<"cs","resources/list">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"ref","PaginatedRequestParams">>,m|->"req"]>>]
T_ListResourcesResult == [k|->"struct",f|-><<[n|->"cacheScope",r|->"cache_scope",t|-><<"ref","ListResourcesResultCacheScope">>,m|->"req"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"ref","ResultMetaObject">>>>,m|->"skip"],
    [n|->"nextCursor",r|->"next_cursor",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"resources",r|->"resources",t|-><<"vec",<<"ref","Resource">>>>,m|->"req"],
    [n|->"resultType",r|->"result_type",t|-><<"str">>,m|->"req"],
    [n|->"ttlMs",r|->"ttl_ms",t|-><<"u64">>,m|->"req"]>>]
T_ListResourcesResultCacheScope == [k|->"unit",v|-><<<<"private","Private">>,<<"public","Public">>>>]
T_ListResourcesResultResponse == [k|->"struct",f|-><<[n|->"id",r|->"id",t|-><<"ref","RequestId">>,m|->"req"],
    [n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"result",r|->"result",t|-><<"ref","ListResourcesResult">>,m|->"req"]>>]
T_ListRootsRequest == [k|->"struct",f|-><<[n|->"method",r|->"method",t|-><<"cs","roots/list">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"opt",<<"ref","ListRootsRequestParams">>>>,m|->"skip"]>>]
T_ListRootsRequestParams == [k|->"struct",f|-><<[n|->"_meta",r|->"meta",t|-><<"opt",<<"ref","MetaObject">>>>,m|->"skip"]>>]
T_ListRootsResult == [k|->"struct",f|-><<[n|->"roots",r|->"roots",t|-><<"vec",<<"ref","Root">>>>,m|->"req"]>>]
T_ListToolsRequest == [k|->"struct",f|-><<[n|->"id",r|->"id",t|-><<"ref","RequestId">>,m|->"req"],
    [n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"method",r|->"method",t|-><<"cs","tools/list">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"ref","PaginatedRequestParams">>,m|->"req"]>>]
T_ListToolsResult == [k|->"struct",f|-><<[n|->"cacheScope",r|->"cache_scope",t|-><<"ref","ListToolsResultCacheScope">>,m|->"req"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"ref","ResultMetaObject">>>>,m|->"skip"],
    [n|->"nextCursor",r|->"next_cursor",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"resultType",r|->"result_type",t|-><<"str">>,m|->"req"],
    [n|->"tools",r|->"tools",t|-><<"vec",<<"ref","Tool">>>>,m|->"req"],
    [n|->"ttlMs",r|->"ttl_ms",t|-><<"u64">>,m|->"req"]>>]
T_ListToolsResultCacheScope == [k|->"unit",v|-><<<<"private","Private">>,<<"public","Public">>>>]
T_ListToolsResultResponse == [k|->"struct",f|-><<[n|->"id",r|->"id",t|-><<"ref","RequestId">>,m|->"req"],
    [n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"result",r|->"result",t|-><<"ref","ListToolsResult">>,m|->"req"]>>]
T_LoggingLevel == [k|->"unit",v|-><<<<"alert","Alert">>,<<"critical","Critical">>,<<"debug","Debug">>,<<"emergency","Emergency">>,<<"error","Error">>,<<"info","Info">>,<<"notice","Notice">>,<<"warning","Warning">>>>]
T_LoggingMessageNotification == [k|->"struct",f|-><<[n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"method",r|->"method",t|-><<"cs","notifications/message">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"ref","LoggingMessageNotificationParams">>,m|->"req"]>>]
T_LoggingMessageNotificationParams == [k|->"struct",f|-><<[n|->"data",r|->"data",t|-><<"val">>,m|->"req"],
    [n|->"level",r|->"level",t|-><<"ref","LoggingLevel">>,m|->"req"],
    [n|->"logger",r|->"logger",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"ref","NotificationMetaObject">>>>,m|->"skip"]>>]
T_MetaObject == [k|->"new",t|-><<"map">>]
T_MethodNotFoundError == [k|->"struct",f|-><<[n|->"code",r|->"code",t|-><<"i64">>,m|->"req"],
    [n|->"data",r|->"data",t|-><<"opt",<<"val">>>>,m|->"skip"],
    [n|->"message",r|->"message",t|-><<"str">>,m|->"req"]>>]
T_MissingRequiredClientCapabilityError == [k|->"struct",f|-><<[n|->"error",r|->"error",t|-><<"ref","MissingRequiredClientCapabilityErrorError">>,m|->"req"],
    [n|->"id",r|->"id",t|-><<"opt",<<"ref","RequestId">>>>,m|->"skip"],
    [n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"]>>]
T_MissingRequiredClientCapabilityErrorError == [k|->"struct",f|-><<[n|->"code",r|->"code",t|-><<"i64">>,m|->"req"],
    [n|->"data",r|->"data",t|-><<"ref","MissingRequiredClientCapabilityErrorErrorData">>,m|->"req"],
    [n|->"message",r|->"message",t|-><<"str">>,m|->"req"]>>]
T_MissingRequiredClientCapabilityErrorErrorData == [k|->"struct",f|-><<[n|->"requiredCapabilities",r|->"required_capabilities",t|-><<"ref","ClientCapabilities">>,m|->"req"]>>]
T_ModelHint == [k|->"struct",f|-><<[n|->"name",r|->"name",t|-><<"opt",<<"str">>>>,m|->"skip"]>>]
T_ModelPreferences == [k|->"struct",f|-><<[n|->"costPriority",r|->"cost_priority",t|-><<"opt",<<"f64">>>>,m|->"skip"],
    [n|->"hints",r|->"hints",t|-><<"vec",<<"ref","ModelHint">>>>,m|->"skip"],
    [n|->"intelligencePriority",r|->"intelligence_priority",t|-><<"opt",<<"f64">>>>,m|->"skip"],
    [n|->"speedPriority",r|->"speed_priority",t|-><<"opt",<<"f64">>>>,m|->"skip"]>>]
T_MultiSelectEnumSchema == [k|->"untag",v|-><<[n|->"UntitledMultiSelectEnumSchema",k|->"nt",t|-><<"ref","UntitledMultiSelectEnumSchema">>],
    [n|->"TitledMultiSelectEnumSchema",k|->"nt",t|-><<"ref","TitledMultiSelectEnumSchema">>]>>]
T_Notification == [k|->"struct",f|-><<[n|->"method",r|->"method",t|-><<"str">>,m|->"req"],
    [n|->"params",r|->"params",t|-><<"opt",<<"map">>>>,m|->"skip"]>>]
T_NotificationMetaObject == [k|->"struct",f|-><<[n|->"io.modelcontextprotocol/subscriptionId",r|->"io_modelcontextprotocol_subscription_id",t|-><<"opt",<<"ref","RequestId">>>>,m|->"skip"],
    [n|->"extra",r|->"extra",t|-><<"opt",<<"map">>>>,m|->"flat"]>>]
T_NotificationParams == [k|->"struct",f|-><<[n|->"_meta",r|->"meta",t|-><<"opt",<<"ref","NotificationMetaObject">>>>,m|->"skip"]>>]
T_NumberSchema == [k|->"struct",f|-><<[n|->"default",r|->"default",t|-><<"opt",<<"f64">>>>,m|->"skip"],
    [n|->"description",r|->"description",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"maximum",r|->"maximum",t|-><<"opt",<<"f64">>>>,m|->"skip"],
    [n|->"minimum",r|->"minimum",t|-><<"opt",<<"f64">>>>,m|->"skip"],
    [n|->"title",r|->"title",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"type",r|->"type_",t|-><<"ref","NumberSchemaType">>,m|->"req"]>>]
T_NumberSchemaType == [k|->"unit",v|-><<<<"integer","Integer">>,<<"number","Number">>>>]
T_PaginatedRequest == [k|->"struct",f|-><<[n|->"id",r|->"id",t|-><<"ref","RequestId">>,m|->"req"],
    [n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"method",r|->"method",t|-><<"str">>,m|->"req"],
    [n|->"params",r|->"params",t|-><<"ref","PaginatedRequestParams">>,m|->"req"]>>]
T_PaginatedRequestParams == [k|->"struct",f|-><<[n|->"cursor",r|->"cursor",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"_meta",r|->"meta",t|-><<"ref","RequestMetaObject">>,m|->"req"]>>]
T_PaginatedResult == [k|->"struct",f|-><<[n|->"_meta",r|->"meta",t|-><<"opt",<<"ref","ResultMetaObject">>>>,m|->"skip"],
    [n|->"nextCursor",r|->"next_cursor",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"resultType",r|->"result_type",t|-><<"str">>,m|->"req"]>>]
T_ParseError == [k|->"struct",f|-><<[n|->"code",r|->"code",t|-><<"i64">>,m|->"req"],
    [n|->"data",r|->"data",t|-><<"opt",<<"val">>>>,m|->"skip"],
    [n|->"message",r|->"message",t|-><<"str">>,m|->"req"]>>]
T_PrimitiveSchemaDefinition == [k|->"untag",v|-><<[n|->"UntitledSingleSelectEnumSchema",k|->"nt",t|-><<"ref","UntitledSingleSelectEnumSchema">>],
    [n|->"TitledSingleSelectEnumSchema",k|->"nt",t|-><<"ref","TitledSingleSelectEnumSchema">>],
    [n|->"UntitledMultiSelectEnumSchema",k|->"nt",t|-><<"ref","UntitledMultiSelectEnumSchema">>],
    [n|->"TitledMultiSelectEnumSchema",k|->"nt",t|-><<"ref","TitledMultiSelectEnumSchema">>],
    [n|->"LegacyTitledEnumSchema",k|->"nt",t|-><<"ref","LegacyTitledEnumSchema">>],
    [n|->"StringSchema",k|->"nt",t|-><<"ref","StringSchema">>],
    [n|->"NumberSchema",k|->"nt",t|-><<"ref","NumberSchema">>],
    [n|->"BooleanSchema",k|->"nt",t|-><<"ref","BooleanSchema">>]>>]
T_ProgressNotification == [k|->"struct",f|-><<[n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"method",r|->"method",t|-><<"cs","notifications/progress">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"ref","ProgressNotificationParams">>,m|->"req"]>>]
T_ProgressNotificationParams == [k|->"struct",f|-><<[n|->"message",r|->"message",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"ref","NotificationMetaObject">>>>,m|->"skip"],
    [n|->"progress",r|->"progress",t|-><<"f64">>,m|->"req"],
    [n|->"progressToken",r|->"progress_token",t|-><<"ref","ProgressToken">>,m|->"req"],
    [n|->"total",r|->"total",t|-><<"opt",<<"f64">>>>,m|->"skip"]>>]
T_ProgressToken == [k|->"untag",v|-><<[n|->"String",k|->"nt",t|-><<"str">>],
    [n|->"Integer",k|->"nt",t|-><<"i64">>]>>]
T_Prompt == [k|->"struct",f|-><<[n|->"arguments",r|->"arguments",t|-><<"vec",<<"ref","PromptArgument">>>>,m|->"skip"],
    [n|->"description",r|->"description",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"icons",r|->"icons",t|-><<"vec",<<"ref","Icon">>>>,m|->"skip"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"ref","MetaObject">>>>,m|->"skip"],
    [n|->"name",r|->"name",t|-><<"str">>,m|->"req"],
    [n|->"title",r|->"title",t|-><<"opt",<<"str">>>>,m|->"skip"]>>]
T_PromptArgument == [k|->"struct",f|-><<[n|->"description",r|->"description",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"name",r|->"name",t|-><<"str">>,m|->"req"],
    [n|->"required",r|->"required",t|-><<"opt",<<"bool">>>>,m|->"skip"],
    [n|->"title",r|->"title",t|-><<"opt",<<"str">>>>,m|->"skip"]>>]
T_PromptListChangedNotification == [k|->"struct",f|-><<[n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"method",r|->"method",t|-><<"cs","notifications/prompts/list_changed">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"opt",<<"ref","NotificationParams">>>>,m|->"skip"]>>]
T_PromptMessage == [k|->"struct",f|-><<[n|->"content",r|->"content",t|-><<"ref","ContentBlock">>,m|->"req"],
    [n|->"role",r|->"role",t|-><<"ref","Role">>,m|->"req"]>>]
T_PromptReference == [k|->"struct",f|-><<[n|->"name",r|->"name",t|-><<"str">>,m|->"req"],
    [n|->"title",r|->"title",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"type",r|->"type_",t|-><<"cs","ref/prompt">>,m|->"must"]>>]
T_ReadResourceContent == [k|->"untag",v|-><<[n|->"TextResourceContents",k|->"nt",t|-><<"ref","TextResourceContents">>],
    [n|->"BlobResourceContents",k|->"nt",t|-><<"ref","BlobResourceContents">>]>>]
T_ReadResourceRequest == [k|->"struct",f|-><<[n|->"id",r|->"id",t|-><<"ref","RequestId">>,m|->"req"],
    [n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"method",r|->"method",t|-><<"cs","resources/read">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"ref","ReadResourceRequestParams">>,m|->"req"]>>]
T_ReadResourceRequestParams == [k|->"struct",f|-><<[n|->"inputResponses",r|->"input_responses",t|-><<"opt",<<"ref","InputResponses">>>>,m|->"skip"],
    [n|->"_meta",r|->"meta",t|-><<"ref","RequestMetaObject">>,m|->"req"],
    [n|->"requestState",r|->"request_state",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"uri",r|->"uri",t|-><<"str">>,m|->"req"]>>]
T_ReadResourceResult == [k|->"struct",f|-><<[n|->"cacheScope",r|->"cache_scope",t|-><<"ref","ReadResourceResultCacheScope">>,m|->"req"],
    [n|->"contents",r|->"contents",t|-><<"vec",<<"ref","ReadResourceContent">>>>,m|->"req"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"ref","ResultMetaObject">>>>,m|->"skip"],
    [n|->"resultType",r|->"result_type",t|-><<"str">>,m|->"req"],
    [n|->"ttlMs",r|->"ttl_ms",t|-><<"u64">>,m|->"req"]>>]
T_ReadResourceResultCacheScope == [k|->"unit",v|-><<<<"private","Private">>,<<"public","Public">>>>]
T_ReadResourceResultResponse == [k|->"struct",f|-><<[n|->"id",r|->"id",t|-><<"ref","RequestId">>,m|->"req"],
    [n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"result",r|->"result",t|-><<"ref","ReadResourceResultResponseResult">>,m|->"req"]>>]
T_ReadResourceResultResponseResult == [k|->"untag",v|-><<[n|->"ReadResourceResult",k|->"nt",t|-><<"ref","ReadResourceResult">>],
    [n|->"InputRequiredResult",k|->"nt",t|-><<"ref","InputRequiredResult">>]>>]
T_Request == [k|->"struct",f|-><<[n|->"method",r|->"method",t|-><<"str">>,m|->"req"],
    [n|->"params",r|->"params",t|-><<"opt",<<"map">>>>,m|->"skip"]>>]
T_RequestId == [k|->"untag",v|-><<[n|->"String",k|->"nt",t|-><<"str">>],
    [n|->"Integer",k|->"nt",t|-><<"i64">>]>>]
T_RequestMetaObject == [k|->"struct",f|-><<[n|->"io.modelcontextprotocol/clientCapabilities",r|->"client_capabilities",t|-><<"ref","ClientCapabilities">>,m|->"req"],
    [n|->"io.modelcontextprotocol/clientInfo",r|->"client_info",t|-><<"opt",<<"ref","Implementation">>>>,m|->"skip"],
    [n|->"io.modelcontextprotocol/logLevel",r|->"log_level",t|-><<"opt",<<"ref","LoggingLevel">>>>,m|->"skip"],
    [n|->"io.modelcontextprotocol/protocolVersion",r|->"protocol_version",t|-><<"str">>,m|->"req"],
    [n|->"progressToken",r|->"progress_token",t|-><<"opt",<<"ref","ProgressToken">>>>,m|->"skip"],
    [n|->"extra",r|->"extra",t|-><<"opt",<<"map">>>>,m|->"flat"]>>]
T_RequestParams == [k|->"struct",f|-><<[n|->"_meta",r|->"meta",t|-><<"ref","RequestMetaObject">>,m|->"req"]>>]
T_Resource == [k|->"struct",f|-><<[n|->"annotations",r|->"annotations",t|-><<"opt",<<"ref","Annotations">>>>,m|->"skip"],
    [n|->"description",r|->"description",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"icons",r|->"icons",t|-><<"vec",<<"ref","Icon">>>>,m|->"skip"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"ref","MetaObject">>>>,m|->"skip"],
    [n|->"mimeType",r|->"mime_type",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"name",r|->"name",t|-><<"str">>,m|->"req"],
    [n|->"size",r|->"size",t|-><<"opt",<<"i64">>>>,m|->"skip"],
    [n|->"title",r|->"title",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"uri",r|->"uri",t|-><<"str">>,m|->"req"]>>]
T_ResourceContents == [k|->"struct",f|-><<[n|->"_meta",r|->"meta",t|-><<"opt",<<"ref","MetaObject">>>>,m|->"skip"],
    [n|->"mimeType",r|->"mime_type",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"uri",r|->"uri",t|-><<"str">>,m|->"req"]>>]
T_ResourceLink == [k|->"struct",f|-><<[n|->"annotations",r|->"annotations",t|-><<"opt",<<"ref","Annotations">>>>,m|->"skip"],
    [n|->"description",r|->"description",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"icons",r|->"icons",t|-><<"vec",<<"ref","Icon">>>>,m|->"skip"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"ref","MetaObject">>>>,m|->"skip"],
    [n|->"mimeType",r|->"mime_type",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"name",r|->"name",t|-><<"str">>,m|->"req"],
    [n|->"size",r|->"size",t|-><<"opt",<<"i64">>>>,m|->"skip"],
    [n|->"title",r|->"title",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"type",r|->"type_",t|-><<"cs","resource_link">>,m|->"must"],
    [n|->"uri",r|->"uri",t|-><<"str">>,m|->"req"]>>]
T_ResourceListChangedNotification == [k|->"struct",f|-><<[n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"method",r|->"method",t|-><<"cs","notifications/resources/list_changed">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"opt",<<"ref","NotificationParams">>>>,m|->"skip"]>>]
T_ResourceRequestParams == [k|->"struct",f|-><<[n|->"_meta",r|->"meta",t|-><<"ref","RequestMetaObject">>,m|->"req"],
    [n|->"uri",r|->"uri",t|-><<"str">>,m|->"req"]>>]
T_ResourceTemplate == [k|->"struct",f|-><<[n|->"annotations",r|->"annotations",t|-><<"opt",<<"ref","Annotations">>>>,m|->"skip"],
    [n|->"description",r|->"description",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"icons",r|->"icons",t|-><<"vec",<<"ref","Icon">>>>,m|->"skip"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"ref","MetaObject">>>>,m|->"skip"],
    [n|->"mimeType",r|->"mime_type",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"name",r|->"name",t|-><<"str">>,m|->"req"],
    [n|->"title",r|->"title",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"uriTemplate",r|->"uri_template",t|-><<"str">>,m|->"req"]>>]
T_ResourceTemplateReference == [k|->"struct",f|-><<[n|->"type",r|->"type_",t|-><<"cs","ref/resource">>,m|->"must"],
    [n|->"uri",r|->"uri",t|-><<"str">>,m|->"req"]>>]
T_ResourceUpdatedNotification == [k|->"struct",f|-><<[n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"method",r|->"method",t|-><<"cs","notifications/resources/updated">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"ref","ResourceUpdatedNotificationParams">>,m|->"req"]>>]
T_ResourceUpdatedNotificationParams == [k|->"struct",f|-><<[n|->"_meta",r|->"meta",t|-><<"opt",<<"ref","NotificationMetaObject">>>>,m|->"skip"],
    [n|->"uri",r|->"uri",t|-><<"str">>,m|->"req"]>>]
T_Result == [k|->"struct",f|-><<[n|->"_meta",r|->"meta",t|-><<"opt",<<"ref","ResultMetaObject">>>>,m|->"skip"],
    [n|->"resultType",r|->"result_type",t|-><<"str">>,m|->"req"],
    [n|->"extra",r|->"extra",t|-><<"opt",<<"map">>>>,m|->"flat"]>>]
T_ResultMetaObject == [k|->"struct",f|-><<[n|->"io.modelcontextprotocol/serverInfo",r|->"io_modelcontextprotocol_server_info",t|-><<"opt",<<"ref","Implementation">>>>,m|->"skip"],
    [n|->"extra",r|->"extra",t|-><<"opt",<<"map">>>>,m|->"flat"]>>]
T_ResultType == [k|->"new",t|-><<"str">>]
T_Role == [k|->"unit",v|-><<<<"assistant","Assistant">>,<<"user","User">>>>]
T_Root == [k|->"struct",f|-><<[n|->"_meta",r|->"meta",t|-><<"opt",<<"ref","MetaObject">>>>,m|->"skip"],
    [n|->"name",r|->"name",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"uri",r|->"uri",t|-><<"str">>,m|->"req"]>>]
T_RpcError == [k|->"struct",f|-><<[n|->"code",r|->"code",t|-><<"i64">>,m|->"req"],
    [n|->"data",r|->"data",t|-><<"opt",<<"val">>>>,m|->"skip"],
    [n|->"message",r|->"message",t|-><<"str">>,m|->"req"]>>]
T_SamplingMessage == [k|->"struct",f|-><<[n|->"content",r|->"content",t|-><<"ref","SamplingMessageContent">>,m|->"req"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"ref","MetaObject">>>>,m|->"skip"],
    [n|->"role",r|->"role",t|-><<"ref","Role">>,m|->"req"]>>]
T_SamplingMessageContent == [k|->"untag",v|-><<[n|->"TextContent",k|->"nt",t|-><<"ref","TextContent">>],
    [n|->"ImageContent",k|->"nt",t|-><<"ref","ImageContent">>],
    [n|->"AudioContent",k|->"nt",t|-><<"ref","AudioContent">>],
    [n|->"ToolUseContent",k|->"nt",t|-><<"ref","ToolUseContent">>],
    [n|->"ToolResultContent",k|->"nt",t|-><<"ref","ToolResultContent">>],
    [n|->"SamplingMessageContentBlock",k|->"nt",t|-><<"vec",<<"ref","SamplingMessageContentBlock">>>>]>>]
T_SamplingMessageContentBlock == [k|->"untag",v|-><<[n|->"TextContent",k|->"nt",t|-><<"ref","TextContent">>],
    [n|->"ImageContent",k|->"nt",t|-><<"ref","ImageContent">>],
    [n|->"AudioContent",k|->"nt",t|-><<"ref","AudioContent">>],
    [n|->"ToolUseContent",k|->"nt",t|-><<"ref","ToolUseContent">>],
    [n|->"ToolResultContent",k|->"nt",t|-><<"ref","ToolResultContent">>]>>]
T_ServerCapabilities == [k|->"struct",f|-><<[n|->"completions",r|->"completions",t|-><<"opt",<<"ref","JsonObject">>>>,m|->"skip"],
    [n|->"experimental",r|->"experimental",t|-><<"opt",<<"hmap",<<"ref","JsonObject">>>>>>,m|->"skip"],
    [n|->"extensions",r|->"extensions",t|-><<"opt",<<"hmap",<<"ref","JsonObject">>>>>>,m|->"skip"],
    [n|->"logging",r|->"logging",t|-><<"opt",<<"ref","JsonObject">>>>,m|->"skip"],
    [n|->"prompts",r|->"prompts",t|-><<"opt",<<"ref","ServerCapabilitiesPrompts">>>>,m|->"skip"],
    [n|->"resources",r|->"resources",t|-><<"opt",<<"ref","ServerCapabilitiesResources">>>>,m|->"skip"],
    [n|->"tools",r|->"tools",t|-><<"opt",<<"ref","ServerCapabilitiesTools">>>>,m|->"skip"]>>]
T_ServerCapabilitiesPrompts == [k|->"struct",f|-><<[n|->"listChanged",r|->"list_changed",t|-><<"opt",<<"bool">>>>,m|->"skip"]>>]
T_ServerCapabilitiesResources == [k|->"struct",f|-><<[n|->"listChanged",r|->"list_changed",t|-><<"opt",<<"bool">>>>,m|->"skip"],
    [n|->"subscribe",r|->"subscribe",t|-><<"opt",<<"bool">>>>,m|->"skip"]>>]
T_ServerCapabilitiesTools == [k|->"struct",f|-><<[n|->"listChanged",r|->"list_changed",t|-><<"opt",<<"bool">>>>,m|->"skip"]>>]
T_ServerNotification == [k|->"dispatch",v|-><<[m|->"notifications/cancelled",n|->"CancelledNotification",t|-><<"ref","CancelledNotification">>],
    [m|->"notifications/progress",n|->"ProgressNotification",t|-><<"ref","ProgressNotification">>],
    [m|->"notifications/resources/list_changed",n|->"ResourceListChangedNotification",t|-><<"ref","ResourceListChangedNotification">>],
    [m|->"notifications/subscriptions/acknowledged",n|->"SubscriptionsAcknowledgedNotification",t|-><<"ref","SubscriptionsAcknowledgedNotification">>],
    [m|->"notifications/resources/updated",n|->"ResourceUpdatedNotification",t|-><<"ref","ResourceUpdatedNotification">>],
    [m|->"notifications/prompts/list_changed",n|->"PromptListChangedNotification",t|-><<"ref","PromptListChangedNotification">>],
    [m|->"notifications/tools/list_changed",n|->"ToolListChangedNotification",t|-><<"ref","ToolListChangedNotification">>],
    [m|->"notifications/message",n|->"LoggingMessageNotification",t|-><<"ref","LoggingMessageNotification">>]>>]
T_ServerResult == [k|->"rtype",v|-><<[n|->"DiscoverResult",k|->"nt",t|-><<"ref","DiscoverResult">>],
    [n|->"ListResourcesResult",k|->"nt",t|-><<"ref","ListResourcesResult">>],
    [n|->"ListResourceTemplatesResult",k|->"nt",t|-><<"ref","ListResourceTemplatesResult">>],
    [n|->"ReadResourceResult",k|->"nt",t|-><<"ref","ReadResourceResult">>],
    [n|->"SubscriptionsListenResult",k|->"nt",t|-><<"ref","SubscriptionsListenResult">>],
    [n|->"ListPromptsResult",k|->"nt",t|-><<"ref","ListPromptsResult">>],
    [n|->"GetPromptResult",k|->"nt",t|-><<"ref","GetPromptResult">>],
    [n|->"ListToolsResult",k|->"nt",t|-><<"ref","ListToolsResult">>],
    [n|->"CallToolResult",k|->"nt",t|-><<"ref","CallToolResult">>],
    [n|->"CompleteResult",k|->"nt",t|-><<"ref","CompleteResult">>],
    [n|->"Result",k|->"nt",t|-><<"ref","Result">>]>>]
T_SingleSelectEnumSchema == [k|->"untag",v|-><<[n|->"UntitledSingleSelectEnumSchema",k|->"nt",t|-><<"ref","UntitledSingleSelectEnumSchema">>],
    [n|->"TitledSingleSelectEnumSchema",k|->"nt",t|-><<"ref","TitledSingleSelectEnumSchema">>]>>]
T_StringSchema == [k|->"struct",f|-><<[n|->"default",r|->"default",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"description",r|->"description",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"format",r|->"format",t|-><<"opt",<<"ref","StringSchemaFormat">>>>,m|->"skip"],
    [n|->"maxLength",r|->"max_length",t|-><<"opt",<<"i64">>>>,m|->"skip"],
    [n|->"minLength",r|->"min_length",t|-><<"opt",<<"i64">>>>,m|->"skip"],
    [n|->"title",r|->"title",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"type",r|->"type_",t|-><<"cs","string">>,m|->"must"]>>]
T_StringSchemaFormat == [k|->"unit",v|-><<<<"date","Date">>,<<"date-time","DateTime">>,<<"email","Email">>,<<"uri","Uri">>>>]
T_SubscriptionFilter == [k|->"struct",f|-><<[n|->"promptsListChanged",r|->"prompts_list_changed",t|-><<"opt",<<"bool">>>>,m|->"skip"],
    [n|->"resourceSubscriptions",r|->"resource_subscriptions",t|-><<"vec",<<"str">>>>,m|->"skip"],
    [n|->"resourcesListChanged",r|->"resources_list_changed",t|-><<"opt",<<"bool">>>>,m|->"skip"],
    [n|->"toolsListChanged",r|->"tools_list_changed",t|-><<"opt",<<"bool">>>>,m|->"skip"]>>]
T_SubscriptionsAcknowledgedNotification == [k|->"struct",f|-><<[n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"method",r|->"method",t|-><<"cs","notifications/subscriptions/acknowledged">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"ref","SubscriptionsAcknowledgedNotificationParams">>,m|->"req"]>>]
T_SubscriptionsAcknowledgedNotificationParams == [k|->"struct",f|-><<[n|->"_meta",r|->"meta",t|-><<"opt",<<"ref","NotificationMetaObject">>>>,m|->"skip"],
    [n|->"notifications",r|->"notifications",t|-><<"ref","SubscriptionFilter">>,m|->"req"]>>]
T_SubscriptionsListenRequest == [k|->"struct",f|-><<[n|->"id",r|->"id",t|-><<"ref","RequestId">>,m|->"req"],
    [n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"method",r|->"method",t|-><<"cs","subscriptions/listen">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"ref","SubscriptionsListenRequestParams">>,m|->"req"]>>]
T_SubscriptionsListenRequestParams == [k|->"struct",f|-><<[n|->"_meta",r|->"meta",t|-><<"ref","RequestMetaObject">>,m|->"req"],
    [n|->"notifications",r|->"notifications",t|-><<"ref","SubscriptionFilter">>,m|->"req"]>>]
T_SubscriptionsListenResult == [k|->"struct",f|-><<[n|->"_meta",r|->"meta",t|-><<"ref","SubscriptionsListenResultMetaObject">>,m|->"req"],
    [n|->"resultType",r|->"result_type",t|-><<"str">>,m|->"req"]>>]
T_SubscriptionsListenResultMetaObject == [k|->"struct",f|-><<[n|->"io.modelcontextprotocol/serverInfo",r|->"io_modelcontextprotocol_server_info",t|-><<"opt",<<"ref","Implementation">>>>,m|->"skip"],
    [n|->"io.modelcontextprotocol/subscriptionId",r|->"io_modelcontextprotocol_subscription_id",t|-><<"ref","RequestId">>,m|->"req"],
    [n|->"extra",r|->"extra",t|-><<"opt",<<"map">>>>,m|->"flat"]>>]
T_SubscriptionsListenResultResponse == [k|->"struct",f|-><<[n|->"id",r|->"id",t|-><<"ref","RequestId">>,m|->"req"],
    [n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"result",r|->"result",t|-><<"ref","SubscriptionsListenResult">>,m|->"req"]>>]
T_TextContent == [k|->"struct",f|-><<[n|->"annotations",r|->"annotations",t|-><<"opt",<<"ref","Annotations">>>>,m|->"skip"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"ref","MetaObject">>>>,m|->"skip"],
    [n|->"text",r|->"text",t|-><<"str">>,m|->"req"],
    [n|->"type",r|->"type_",t|-><<"cs","text">>,m|->"must"]>>]
T_TextResourceContents == [k|->"struct",f|-><<[n|->"_meta",r|->"meta",t|-><<"opt",<<"ref","MetaObject">>>>,m|->"skip"],
    [n|->"mimeType",r|->"mime_type",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"text",r|->"text",t|-><<"str">>,m|->"req"],
    [n|->"uri",r|->"uri",t|-><<"str">>,m|->"req"]>>]
T_TitledMultiSelectEnumSchema == [k|->"struct",f|-><<[n|->"default",r|->"default",t|-><<"vec",<<"str">>>>,m|->"skip"],
    [n|->"description",r|->"description",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"items",r|->"items",t|-><<"ref","TitledMultiSelectEnumSchemaItems">>,m|->"req"],
    [n|->"maxItems",r|->"max_items",t|-><<"opt",<<"i64">>>>,m|->"skip"],
    [n|->"minItems",r|->"min_items",t|-><<"opt",<<"i64">>>>,m|->"skip"],
    [n|->"title",r|->"title",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"type",r|->"type_",t|-><<"cs","array">>,m|->"must"]>>]
T_TitledMultiSelectEnumSchemaItems == [k|->"struct",f|-><<[n|->"anyOf",r|->"any_of",t|-><<"vec",<<"ref","TitledMultiSelectEnumSchemaItemsAnyOfItem">>>>,m|->"req"]>>]
T_TitledMultiSelectEnumSchemaItemsAnyOfItem == [k|->"struct",f|-><<[n|->"const",r|->"const_",t|-><<"str">>,m|->"req"],
    [n|->"title",r|->"title",t|-><<"str">>,m|->"req"]>>]
T_TitledSingleSelectEnumSchema == [k|->"struct",f|-><<[n|->"default",r|->"default",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"description",r|->"description",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"oneOf",r|->"one_of",t|-><<"vec",<<"ref","TitledSingleSelectEnumSchemaOneOfItem">>>>,m|->"req"],
    [n|->"title",r|->"title",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"type",r|->"type_",t|-><<"cs","string">>,m|->"must"]>>]
T_TitledSingleSelectEnumSchemaOneOfItem == [k|->"struct",f|-><<[n|->"const",r|->"const_",t|-><<"str">>,m|->"req"],
    [n|->"title",r|->"title",t|-><<"str">>,m|->"req"]>>]
T_Tool == [k|->"struct",f|-><<[n|->"annotations",r|->"annotations",t|-><<"opt",<<"ref","ToolAnnotations">>>>,m|->"skip"],
    [n|->"description",r|->"description",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"icons",r|->"icons",t|-><<"vec",<<"ref","Icon">>>>,m|->"skip"],
    [n|->"inputSchema",r|->"input_schema",t|-><<"ref","ToolInputSchema">>,m|->"req"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"ref","MetaObject">>>>,m|->"skip"],
    [n|->"name",r|->"name",t|-><<"str">>,m|->"req"],
    [n|->"outputSchema",r|->"output_schema",t|-><<"opt",<<"ref","ToolOutputSchema">>>>,m|->"skip"],
    [n|->"title",r|->"title",t|-><<"opt",<<"str">>>>,m|->"skip"]>>]
T_ToolAnnotations == [k|->"struct",f|-><<[n|->"destructiveHint",r|->"destructive_hint",t|-><<"opt",<<"bool">>>>,m|->"skip"],
    [n|->"idempotentHint",r|->"idempotent_hint",t|-><<"opt",<<"bool">>>>,m|->"skip"],
    [n|->"openWorldHint",r|->"open_world_hint",t|-><<"opt",<<"bool">>>>,m|->"skip"],
    [n|->"readOnlyHint",r|->"read_only_hint",t|-><<"opt",<<"bool">>>>,m|->"skip"],
    [n|->"title",r|->"title",t|-><<"opt",<<"str">>>>,m|->"skip"]>>]
T_ToolChoice == [k|->"struct",f|-><<[n|->"mode",r|->"mode",t|-><<"opt",<<"ref","ToolChoiceMode">>>>,m|->"skip"]>>]
T_ToolChoiceMode == [k|->"unit",v|-><<<<"auto","Auto">>,<<"none","None">>,<<"required","Required">>>>]
T_ToolInputSchema == [k|->"struct",f|-><<[n|->"$schema",r|->"schema",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"type",r|->"type_",t|-><<"cs","object">>,m|->"must"],
    [n|->"extra",r|->"extra",t|-><<"opt",<<"map">>>>,m|->"flat"]>>]
T_ToolListChangedNotification == [k|->"struct",f|-><<[n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"method",r|->"method",t|-><<"cs","notifications/tools/list_changed">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"opt",<<"ref","NotificationParams">>>>,m|->"skip"]>>]
T_ToolOutputSchema == [k|->"struct",f|-><<[n|->"$schema",r|->"schema",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"extra",r|->"extra",t|-><<"opt",<<"map">>>>,m|->"flat"]>>]
T_ToolResultContent == [k|->"struct",f|-><<[n|->"content",r|->"content",t|-><<"vec",<<"ref","ContentBlock">>>>,m|->"req"],
    [n|->"isError",r|->"is_error",t|-><<"opt",<<"bool">>>>,m|->"skip"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"ref","MetaObject">>>>,m|->"skip"],
    [n|->"structuredContent",r|->"structured_content",t|-><<"opt",<<"val">>>>,m|->"skip"],
    [n|->"toolUseId",r|->"tool_use_id",t|-><<"str">>,m|->"req"],
    [n|->"type",r|->"type_",t|-><<"cs","tool_result">>,m|->"must"]>>]
T_ToolUseContent == [k|->"struct",f|-><<[n|->"id",r|->"id",t|-><<"str">>,m|->"req"],
    [n|->"input",r|->"input",t|-><<"map">>,m|->"req"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"ref","MetaObject">>>>,m|->"skip"],
    [n|->"name",r|->"name",t|-><<"str">>,m|->"req"],
    [n|->"type",r|->"type_",t|-><<"cs","tool_use">>,m|->"must"]>>]
T_UnsupportedProtocolVersionError == [k|->"struct",f|-><<[n|->"error",r|->"error",t|-><<"ref","UnsupportedProtocolVersionErrorError">>,m|->"req"],
    [n|->"id",r|->"id",t|-><<"opt",<<"ref","RequestId">>>>,m|->"skip"],
    [n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"]>>]
T_UnsupportedProtocolVersionErrorError == [k|->"struct",f|-><<[n|->"code",r|->"code",t|-><<"i64">>,m|->"req"],
    [n|->"data",r|->"data",t|-><<"ref","UnsupportedProtocolVersionErrorErrorData">>,m|->"req"],
    [n|->"message",r|->"message",t|-><<"str">>,m|->"req"]>>]
T_UnsupportedProtocolVersionErrorErrorData == [k|->"struct",f|-><<[n|->"requested",r|->"requested",t|-><<"str">>,m|->"req"],
    [n|->"supported",r|->"supported",t|-><<"vec",<<"str">>>>,m|->"req"]>>]
T_UntitledMultiSelectEnumSchema == [k|->"struct",f|-><<[n|->"default",r|->"default",t|-><<"vec",<<"str">>>>,m|->"skip"],
    [n|->"description",r|->"description",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"items",r|->"items",t|-><<"ref","UntitledMultiSelectEnumSchemaItems">>,m|->"req"],
    [n|->"maxItems",r|->"max_items",t|-><<"opt",<<"i64">>>>,m|->"skip"],
    [n|->"minItems",r|->"min_items",t|-><<"opt",<<"i64">>>>,m|->"skip"],
    [n|->"title",r|->"title",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"type",r|->"type_",t|-><<"cs","array">>,m|->"must"]>>]
T_UntitledMultiSelectEnumSchemaItems == [k|->"struct",f|-><<[n|->"enum",r|->"enum_",t|-><<"vec",<<"str">>>>,m|->"req"],
    [n|->"type",r|->"type_",t|-><<"cs","string">>,m|->"must"]>>]
T_UntitledSingleSelectEnumSchema == [k|->"struct",f|-><<[n|->"default",r|->"default",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"description",r|->"description",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"enum",r|->"enum_",t|-><<"vec",<<"str">>>>,m|->"req"],
    [n|->"title",r|->"title",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"type",r|->"type_",t|-><<"cs","string">>,m|->"must"]>>]
T_ClientMessage == [k|->"untag",v|-><<[n|->"Request",k|->"nt",t|-><<"ref","ClientJsonrpcRequest">>],
    [n|->"Notification",k|->"noid",t|-><<"ref","ClientJsonrpcNotification">>],
    [n|->"Response",k|->"nt",t|-><<"ref","ClientJsonrpcResponse">>],
    [n|->"Error",k|->"nt",t|-><<"ref","JsonrpcErrorResponse">>]>>]
T_ClientJsonrpcRequest == [k|->"untag",v|-><<[n|->"Standard",k|->"nt",t|-><<"ref","ClientRequest">>],
    [n|->"Custom",k|->"nt",t|-><<"ref","JsonrpcRequest">>]>>]
T_RequestFromClient == [k|->"untag",v|-><<[n|->"ListResourcesRequest",k|->"nt",t|-><<"ref","PaginatedRequestParams">>],
    [n|->"ListResourceTemplatesRequest",k|->"nt",t|-><<"ref","PaginatedRequestParams">>],
    [n|->"ReadResourceRequest",k|->"nt",t|-><<"ref","ReadResourceRequestParams">>],
    [n|->"ListPromptsRequest",k|->"nt",t|-><<"ref","PaginatedRequestParams">>],
    [n|->"GetPromptRequest",k|->"nt",t|-><<"ref","GetPromptRequestParams">>],
    [n|->"ListToolsRequest",k|->"nt",t|-><<"ref","PaginatedRequestParams">>],
    [n|->"CallToolRequest",k|->"nt",t|-><<"ref","CallToolRequestParams">>],
    [n|->"CompleteRequest",k|->"nt",t|-><<"ref","CompleteRequestParams">>],
    [n|->"DiscoverRequest",k|->"nt",t|-><<"ref","RequestParams">>],
    [n|->"SubscriptionsListenRequest",k|->"nt",t|-><<"ref","SubscriptionsListenRequestParams">>],
    [n|->"CustomRequest",k|->"nt",t|-><<"ref","CustomRequest">>]>>]
T_ClientJsonrpcNotification == [k|->"untag",v|-><<[n|->"CancelledNotification",k|->"nt",t|-><<"ref","CancelledNotification">>],
    [n|->"CustomNotification",k|->"nt",t|-><<"ref","JsonrpcNotification">>]>>]
T_NotificationFromClient == [k|->"untag",v|-><<[n|->"CancelledNotification",k|->"nt",t|-><<"ref","CancelledNotificationParams">>],
    [n|->"CustomNotification",k|->"nt",t|-><<"ref","CustomRequest">>]>>]
T_ClientJsonrpcResponse == [k|->"envres",t|-><<"ref","ResultFromClient">>]
T_ResultFromClient == [k|->"untag",v|-><<[n|->"CreateMessageResult",k|->"nt",t|-><<"ref","CreateMessageResult">>],
    [n|->"ListRootsResult",k|->"nt",t|-><<"ref","ListRootsResult">>],
    [n|->"ElicitResult",k|->"nt",t|-><<"ref","ElicitResult">>],
    [n|->"Result",k|->"nt",t|-><<"ref","Result">>]>>]
T_ServerMessage == [k|->"untag",v|-><<[n|->"Request",k|->"nt",t|-><<"ref","ServerJsonrpcRequest">>],
    [n|->"Notification",k|->"noid",t|-><<"ref","ServerJsonrpcNotification">>],
    [n|->"Response",k|->"nt",t|-><<"ref","ServerJsonrpcResponse">>],
    [n|->"Error",k|->"nt",t|-><<"ref","JsonrpcErrorResponse">>]>>]
T_ServerJsonrpcRequest == [k|->"untag",v|-><<[n|->"CreateMessageRequest",k|->"sv",f|-><<[n|->"id",r|->"id",t|-><<"ref","RequestId">>,m|->"req"],
    [n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"defconst"],
    [n|->"request",r|->"request",t|-><<"ref","CreateMessageRequest">>,m|->"flat"]>>],
    [n|->"ListRootsRequest",k|->"sv",f|-><<[n|->"id",r|->"id",t|-><<"ref","RequestId">>,m|->"req"],
    [n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"defconst"],
    [n|->"request",r|->"request",t|-><<"ref","ListRootsRequest">>,m|->"flat"]>>],
    [n|->"ElicitRequest",k|->"sv",f|-><<[n|->"id",r|->"id",t|-><<"ref","RequestId">>,m|->"req"],
    [n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"defconst"],
    [n|->"request",r|->"request",t|-><<"ref","ElicitRequest">>,m|->"flat"]>>],
    [n|->"CustomRequest",k|->"nt",t|-><<"ref","JsonrpcRequest">>]>>]
T_CustomRequest == [k|->"struct",f|-><<[n|->"method",r|->"method",t|-><<"str">>,m|->"req"],
    [n|->"params",r|->"params",t|-><<"opt",<<"map">>>>,m|->"skip"]>>]
T_RequestFromServer == [k|->"untag",v|-><<[n|->"CreateMessageRequest",k|->"nt",t|-><<"ref","CreateMessageRequestParams">>],
    [n|->"ListRootsRequest",k|->"nt",t|-><<"opt",<<"ref","ListRootsRequestParams">>>>],
    [n|->"ElicitRequest",k|->"nt",t|-><<"ref","ElicitRequestParams">>],
    [n|->"CustomRequest",k|->"nt",t|-><<"ref","CustomRequest">>]>>]
T_ServerJsonrpcNotification == [k|->"untag",v|-><<[n|->"Standard",k|->"nt",t|-><<"ref","ServerNotification">>],
    [n|->"Custom",k|->"nt",t|-><<"ref","JsonrpcNotification">>]>>]
T_NotificationFromServer == [k|->"untag",v|-><<[n|->"CancelledNotification",k|->"nt",t|-><<"ref","CancelledNotificationParams">>],
    [n|->"ProgressNotification",k|->"nt",t|-><<"ref","ProgressNotificationParams">>],
    [n|->"ResourceListChangedNotification",k|->"nt",t|-><<"opt",<<"ref","NotificationParams">>>>],
    [n|->"ResourceUpdatedNotification",k|->"nt",t|-><<"ref","ResourceUpdatedNotificationParams">>],
    [n|->"PromptListChangedNotification",k|->"nt",t|-><<"opt",<<"ref","NotificationParams">>>>],
    [n|->"ToolListChangedNotification",k|->"nt",t|-><<"opt",<<"ref","NotificationParams">>>>],
    [n|->"LoggingMessageNotification",k|->"nt",t|-><<"ref","LoggingMessageNotificationParams">>],
    [n|->"SubscriptionsAcknowledgedNotification",k|->"nt",t|-><<"ref","SubscriptionsAcknowledgedNotificationParams">>],
    [n|->"CustomNotification",k|->"nt",t|-><<"ref","CustomRequest">>]>>]
T_ServerJsonrpcResponse == [k|->"envres",t|-><<"ref","ServerResult">>]
T_MessageFromServer == [k|->"untag",v|-><<[n|->"RequestFromServer",k|->"nt",t|-><<"ref","RequestFromServer">>],
    [n|->"ServerResult",k|->"nt",t|-><<"ref","ServerResult">>],
    [n|->"NotificationFromServer",k|->"nt",t|-><<"ref","NotificationFromServer">>],
    [n|->"Error",k|->"nt",t|-><<"ref","RpcError">>]>>]
T_MessageFromClient == [k|->"untag",v|-><<[n|->"RequestFromClient",k|->"nt",t|-><<"ref","RequestFromClient">>],
    [n|->"ResultFromClient",k|->"nt",t|-><<"ref","ResultFromClient">>],
    [n|->"NotificationFromClient",k|->"nt",t|-><<"ref","NotificationFromClient">>],
    [n|->"Error",k|->"nt",t|-><<"ref","RpcError">>]>>]
T_ClientMessages == [k|->"untag",v|-><<[n|->"Single",k|->"nt",t|-><<"ref","ClientMessage">>],
    [n|->"Batch",k|->"nt",t|-><<"vec",<<"ref","ClientMessage">>>>]>>]
T_ServerMessages == [k|->"untag",v|-><<[n|->"Single",k|->"nt",t|-><<"ref","ServerMessage">>],
    [n|->"Batch",k|->"nt",t|-><<"vec",<<"ref","ServerMessage">>>>]>>]
T_MessagesFromServer == [k|->"untag",v|-><<[n|->"Single",k|->"nt",t|-><<"ref","MessageFromServer">>],
    [n|->"Batch",k|->"nt",t|-><<"vec",<<"ref","MessageFromServer">>>>]>>]
T_MessagesFromClient == [k|->"untag",v|-><<[n|->"Single",k|->"nt",t|-><<"ref","MessageFromClient">>],
    [n|->"Batch",k|->"nt",t|-><<"vec",<<"ref","MessageFromClient">>>>]>>]
T_SdkError == [k|->"struct",f|-><<[n|->"code",r|->"code",t|-><<"i64">>,m|->"req"],
    [n|->"data",r|->"data",t|-><<"opt",<<"val">>>>,m|->"nullout"],
    [n|->"message",r|->"message",t|-><<"str">>,m|->"req"]>>]

Types == [Annotations |-> T_Annotations,
  AudioContent |-> T_AudioContent,
  BaseMetadata |-> T_BaseMetadata,
  BlobResourceContents |-> T_BlobResourceContents,
  BooleanSchema |-> T_BooleanSchema,
  CacheableResult |-> T_CacheableResult,
  CacheableResultCacheScope |-> T_CacheableResultCacheScope,
  CallToolRequest |-> T_CallToolRequest,
  CallToolRequestParams |-> T_CallToolRequestParams,
  CallToolResult |-> T_CallToolResult,
  CallToolResultResponse |-> T_CallToolResultResponse,
  CallToolResultResponseResult |-> T_CallToolResultResponseResult,
  CancelledNotification |-> T_CancelledNotification,
  CancelledNotificationParams |-> T_CancelledNotificationParams,
  ClientCapabilities |-> T_ClientCapabilities,
  ClientElicitation |-> T_ClientElicitation,
  ClientNotification |-> T_ClientNotification,
  ClientRequest |-> T_ClientRequest,
  ClientResult |-> T_ClientResult,
  ClientSampling |-> T_ClientSampling,
  CompleteRequest |-> T_CompleteRequest,
  CompleteRequestArgument |-> T_CompleteRequestArgument,
  CompleteRequestContext |-> T_CompleteRequestContext,
  CompleteRequestParams |-> T_CompleteRequestParams,
  CompleteRequestRef |-> T_CompleteRequestRef,
  CompleteResult |-> T_CompleteResult,
  CompleteResultCompletion |-> T_CompleteResultCompletion,
  CompleteResultResponse |-> T_CompleteResultResponse,
  ContentBlock |-> T_ContentBlock,
  CreateMessageContent |-> T_CreateMessageContent,
  CreateMessageRequest |-> T_CreateMessageRequest,
  CreateMessageRequestParams |-> T_CreateMessageRequestParams,
  CreateMessageResult |-> T_CreateMessageResult,
  Cursor |-> T_Cursor,
  DiscoverRequest |-> T_DiscoverRequest,
  DiscoverResult |-> T_DiscoverResult,
  DiscoverResultCacheScope |-> T_DiscoverResultCacheScope,
  DiscoverResultResponse |-> T_DiscoverResultResponse,
  ElicitRequest |-> T_ElicitRequest,
  ElicitRequestFormParams |-> T_ElicitRequestFormParams,
  ElicitRequestFormParamsRequestedSchema |-> T_ElicitRequestFormParamsRequestedSchema,
  ElicitRequestParams |-> T_ElicitRequestParams,
  ElicitRequestUrlParams |-> T_ElicitRequestUrlParams,
  ElicitResult |-> T_ElicitResult,
  ElicitResultAction |-> T_ElicitResultAction,
  ElicitResultContent |-> T_ElicitResultContent,
  ElicitResultContentPrimitive |-> T_ElicitResultContentPrimitive,
  EmbeddedResource |-> T_EmbeddedResource,
  EmbeddedResourceResource |-> T_EmbeddedResourceResource,
  EmptyResult |-> T_EmptyResult,
  EnumSchema |-> T_EnumSchema,
  GetPromptRequest |-> T_GetPromptRequest,
  GetPromptRequestParams |-> T_GetPromptRequestParams,
  GetPromptResult |-> T_GetPromptResult,
  GetPromptResultResponse |-> T_GetPromptResultResponse,
  GetPromptResultResponseResult |-> T_GetPromptResultResponseResult,
  HeaderMismatchError |-> T_HeaderMismatchError,
  Icon |-> T_Icon,
  IconTheme |-> T_IconTheme,
  Icons |-> T_Icons,
  ImageContent |-> T_ImageContent,
  Implementation |-> T_Implementation,
  IncludeContext |-> T_IncludeContext,
  InputRequest |-> T_InputRequest,
  InputRequests |-> T_InputRequests,
  InputRequiredResult |-> T_InputRequiredResult,
  InputResponse |-> T_InputResponse,
  InputResponseRequestParams |-> T_InputResponseRequestParams,
  InputResponses |-> T_InputResponses,
  InternalError |-> T_InternalError,
  InvalidParamsError |-> T_InvalidParamsError,
  InvalidRequestError |-> T_InvalidRequestError,
  JsonArray |-> T_JsonArray,
  JsonObject |-> T_JsonObject,
  JsonValue |-> T_JsonValue,
  JsonValueVariant2 |-> T_JsonValueVariant2,
  JsonrpcErrorResponse |-> T_JsonrpcErrorResponse,
  JsonrpcMessage |-> T_JsonrpcMessage,
  JsonrpcNotification |-> T_JsonrpcNotification,
  JsonrpcRequest |-> T_JsonrpcRequest,
  JsonrpcResponse |-> T_JsonrpcResponse,
  JsonrpcResultResponse |-> T_JsonrpcResultResponse,
  LegacyTitledEnumSchema |-> T_LegacyTitledEnumSchema,
  ListPromptsRequest |-> T_ListPromptsRequest,
  ListPromptsResult |-> T_ListPromptsResult,
  ListPromptsResultCacheScope |-> T_ListPromptsResultCacheScope,
  ListPromptsResultResponse |-> T_ListPromptsResultResponse,
  ListResourceTemplatesRequest |-> T_ListResourceTemplatesRequest,
  ListResourceTemplatesResult |-> T_ListResourceTemplatesResult,
  ListResourceTemplatesResultCacheScope |-> T_ListResourceTemplatesResultCacheScope,
  ListResourceTemplatesResultResponse |-> T_ListResourceTemplatesResultResponse,
  ListResourcesRequest |-> T_ListResourcesRequest,
  ListResourcesResult |-> T_ListResourcesResult,
  ListResourcesResultCacheScope |-> T_ListResourcesResultCacheScope,
  ListResourcesResultResponse |-> T_ListResourcesResultResponse,
  ListRootsRequest |-> T_ListRootsRequest,
  ListRootsRequestParams |-> T_ListRootsRequestParams,
  ListRootsResult |-> T_ListRootsResult,
  ListToolsRequest |-> T_ListToolsRequest,
  ListToolsResult |-> T_ListToolsResult,
  ListToolsResultCacheScope |-> T_ListToolsResultCacheScope,
  ListToolsResultResponse |-> T_ListToolsResultResponse,
  LoggingLevel |-> T_LoggingLevel,
  LoggingMessageNotification |-> T_LoggingMessageNotification,
  LoggingMessageNotificationParams |-> T_LoggingMessageNotificationParams,
  MetaObject |-> T_MetaObject,
  MethodNotFoundError |-> T_MethodNotFoundError,
  MissingRequiredClientCapabilityError |-> T_MissingRequiredClientCapabilityError,
  MissingRequiredClientCapabilityErrorError |-> T_MissingRequiredClientCapabilityErrorError,
  MissingRequiredClientCapabilityErrorErrorData |-> T_MissingRequiredClientCapabilityErrorErrorData,
  ModelHint |-> T_ModelHint,
  ModelPreferences |-> T_ModelPreferences,
  MultiSelectEnumSchema |-> T_MultiSelectEnumSchema,
  Notification |-> T_Notification,
  NotificationMetaObject |-> T_NotificationMetaObject,
  NotificationParams |-> T_NotificationParams,
  NumberSchema |-> T_NumberSchema,
  NumberSchemaType |-> T_NumberSchemaType,
  PaginatedRequest |-> T_PaginatedRequest,
  PaginatedRequestParams |-> T_PaginatedRequestParams,
  PaginatedResult |-> T_PaginatedResult,
  ParseError |-> T_ParseError,
  PrimitiveSchemaDefinition |-> T_PrimitiveSchemaDefinition,
  ProgressNotification |-> T_ProgressNotification,
  ProgressNotificationParams |-> T_ProgressNotificationParams,
  ProgressToken |-> T_ProgressToken,
  Prompt |-> T_Prompt,
  PromptArgument |-> T_PromptArgument,
  PromptListChangedNotification |-> T_PromptListChangedNotification,
  PromptMessage |-> T_PromptMessage,
  PromptReference |-> T_PromptReference,
  ReadResourceContent |-> T_ReadResourceContent,
  ReadResourceRequest |-> T_ReadResourceRequest,
  ReadResourceRequestParams |-> T_ReadResourceRequestParams,
  ReadResourceResult |-> T_ReadResourceResult,
  ReadResourceResultCacheScope |-> T_ReadResourceResultCacheScope,
  ReadResourceResultResponse |-> T_ReadResourceResultResponse,
  ReadResourceResultResponseResult |-> T_ReadResourceResultResponseResult,
  Request |-> T_Request,
  RequestId |-> T_RequestId,
  RequestMetaObject |-> T_RequestMetaObject,
  RequestParams |-> T_RequestParams,
  Resource |-> T_Resource,
  ResourceContents |-> T_ResourceContents,
  ResourceLink |-> T_ResourceLink,
  ResourceListChangedNotification |-> T_ResourceListChangedNotification,
  ResourceRequestParams |-> T_ResourceRequestParams,
  ResourceTemplate |-> T_ResourceTemplate,
  ResourceTemplateReference |-> T_ResourceTemplateReference,
  ResourceUpdatedNotification |-> T_ResourceUpdatedNotification,
  ResourceUpdatedNotificationParams |-> T_ResourceUpdatedNotificationParams,
  Result |-> T_Result,
  ResultMetaObject |-> T_ResultMetaObject,
  ResultType |-> T_ResultType,
  Role |-> T_Role,
  Root |-> T_Root,
  RpcError |-> T_RpcError,
  SamplingMessage |-> T_SamplingMessage,
  SamplingMessageContent |-> T_SamplingMessageContent,
  SamplingMessageContentBlock |-> T_SamplingMessageContentBlock,
  ServerCapabilities |-> T_ServerCapabilities,
  ServerCapabilitiesPrompts |-> T_ServerCapabilitiesPrompts,
  ServerCapabilitiesResources |-> T_ServerCapabilitiesResources,
  ServerCapabilitiesTools |-> T_ServerCapabilitiesTools,
  ServerNotification |-> T_ServerNotification,
  ServerResult |-> T_ServerResult,
  SingleSelectEnumSchema |-> T_SingleSelectEnumSchema,
  StringSchema |-> T_StringSchema,
  StringSchemaFormat |-> T_StringSchemaFormat,
  SubscriptionFilter |-> T_SubscriptionFilter,
  SubscriptionsAcknowledgedNotification |-> T_SubscriptionsAcknowledgedNotification,
  SubscriptionsAcknowledgedNotificationParams |-> T_SubscriptionsAcknowledgedNotificationParams,
  SubscriptionsListenRequest |-> T_SubscriptionsListenRequest,
  SubscriptionsListenRequestParams |-> T_SubscriptionsListenRequestParams,
  SubscriptionsListenResult |-> T_SubscriptionsListenResult,
  SubscriptionsListenResultMetaObject |-> T_SubscriptionsListenResultMetaObject,
  SubscriptionsListenResultResponse |-> T_SubscriptionsListenResultResponse,
  TextContent |-> T_TextContent,
  TextResourceContents |-> T_TextResourceContents,
  TitledMultiSelectEnumSchema |-> T_TitledMultiSelectEnumSchema,
  TitledMultiSelectEnumSchemaItems |-> T_TitledMultiSelectEnumSchemaItems,
  TitledMultiSelectEnumSchemaItemsAnyOfItem |-> T_TitledMultiSelectEnumSchemaItemsAnyOfItem,
  TitledSingleSelectEnumSchema |-> T_TitledSingleSelectEnumSchema,
  TitledSingleSelectEnumSchemaOneOfItem |-> T_TitledSingleSelectEnumSchemaOneOfItem,
  Tool |-> T_Tool,
  ToolAnnotations |-> T_ToolAnnotations,
  ToolChoice |-> T_ToolChoice,
  ToolChoiceMode |-> T_ToolChoiceMode,
  ToolInputSchema |-> T_ToolInputSchema,
  ToolListChangedNotification |-> T_ToolListChangedNotification,
  ToolOutputSchema |-> T_ToolOutputSchema,
  ToolResultContent |-> T_ToolResultContent,
  ToolUseContent |-> T_ToolUseContent,
  UnsupportedProtocolVersionError |-> T_UnsupportedProtocolVersionError,
  UnsupportedProtocolVersionErrorError |-> T_UnsupportedProtocolVersionErrorError,
  UnsupportedProtocolVersionErrorErrorData |-> T_UnsupportedProtocolVersionErrorErrorData,
  UntitledMultiSelectEnumSchema |-> T_UntitledMultiSelectEnumSchema,
  UntitledMultiSelectEnumSchemaItems |-> T_UntitledMultiSelectEnumSchemaItems,
  UntitledSingleSelectEnumSchema |-> T_UntitledSingleSelectEnumSchema,
  ClientMessage |-> T_ClientMessage,
  ClientJsonrpcRequest |-> T_ClientJsonrpcRequest,
  RequestFromClient |-> T_RequestFromClient,
  ClientJsonrpcNotification |-> T_ClientJsonrpcNotification,
  NotificationFromClient |-> T_NotificationFromClient,
  ClientJsonrpcResponse |-> T_ClientJsonrpcResponse,
  ResultFromClient |-> T_ResultFromClient,
  ServerMessage |-> T_ServerMessage,
  ServerJsonrpcRequest |-> T_ServerJsonrpcRequest,
  CustomRequest |-> T_CustomRequest,
  RequestFromServer |-> T_RequestFromServer,
  ServerJsonrpcNotification |-> T_ServerJsonrpcNotification,
  NotificationFromServer |-> T_NotificationFromServer,
  ServerJsonrpcResponse |-> T_ServerJsonrpcResponse,
  MessageFromServer |-> T_MessageFromServer,
  MessageFromClient |-> T_MessageFromClient,
  ClientMessages |-> T_ClientMessages,
  ServerMessages |-> T_ServerMessages,
  MessagesFromServer |-> T_MessagesFromServer,
  MessagesFromClient |-> T_MessagesFromClient,
  SdkError |-> T_SdkError]

TypeNames == <<"Annotations","AudioContent","BaseMetadata","BlobResourceContents","BooleanSchema","CacheableResult","CacheableResultCacheScope","CallToolRequest","CallToolRequestParams","CallToolResult","CallToolResultResponse","CallToolResultResponseResult","CancelledNotification","CancelledNotificationParams","ClientCapabilities","ClientElicitation","ClientNotification","ClientRequest","ClientResult","ClientSampling","CompleteRequest","CompleteRequestArgument","CompleteRequestContext","CompleteRequestParams","CompleteRequestRef","CompleteResult","CompleteResultCompletion","CompleteResultResponse","ContentBlock","CreateMessageContent","CreateMessageRequest","CreateMessageRequestParams","CreateMessageResult","Cursor","DiscoverRequest","DiscoverResult","DiscoverResultCacheScope","DiscoverResultResponse","ElicitRequest","ElicitRequestFormParams","ElicitRequestFormParamsRequestedSchema","ElicitRequestParams","ElicitRequestUrlParams","ElicitResult","ElicitResultAction","ElicitResultContent","ElicitResultContentPrimitive","EmbeddedResource","EmbeddedResourceResource","EmptyResult","EnumSchema","GetPromptRequest","GetPromptRequestParams","GetPromptResult","GetPromptResultResponse","GetPromptResultResponseResult","HeaderMismatchError","Icon","IconTheme","Icons","ImageContent","Implementation","IncludeContext","InputRequest","InputRequests","InputRequiredResult","InputResponse","InputResponseRequestParams","InputResponses","InternalError","InvalidParamsError","InvalidRequestError","JsonArray","JsonObject","JsonValue","JsonValueVariant2","JsonrpcErrorResponse","JsonrpcMessage","JsonrpcNotification","JsonrpcRequest","JsonrpcResponse","JsonrpcResultResponse","LegacyTitledEnumSchema","ListPromptsRequest","ListPromptsResult","ListPromptsResultCacheScope","ListPromptsResultResponse","ListResourceTemplatesRequest","ListResourceTemplatesResult","ListResourceTemplatesResultCacheScope","ListResourceTemplatesResultResponse","ListResourcesRequest","ListResourcesResult","ListResourcesResultCacheScope","ListResourcesResultResponse","ListRootsRequest","ListRootsRequestParams","ListRootsResult","ListToolsRequest","ListToolsResult","ListToolsResultCacheScope","ListToolsResultResponse","LoggingLevel","LoggingMessageNotification","LoggingMessageNotificationParams","MetaObject","MethodNotFoundError","MissingRequiredClientCapabilityError","MissingRequiredClientCapabilityErrorError","MissingRequiredClientCapabilityErrorErrorData","ModelHint","ModelPreferences","MultiSelectEnumSchema","Notification","NotificationMetaObject","NotificationParams","NumberSchema","NumberSchemaType","PaginatedRequest","PaginatedRequestParams","PaginatedResult","ParseError","PrimitiveSchemaDefinition","ProgressNotification","ProgressNotificationParams","ProgressToken","Prompt","PromptArgument","PromptListChangedNotification","PromptMessage","PromptReference","ReadResourceContent","ReadResourceRequest","ReadResourceRequestParams","ReadResourceResult","ReadResourceResultCacheScope","ReadResourceResultResponse","ReadResourceResultResponseResult","Request","RequestId","RequestMetaObject","RequestParams","Resource","ResourceContents","ResourceLink","ResourceListChangedNotification","ResourceRequestParams","ResourceTemplate","ResourceTemplateReference","ResourceUpdatedNotification","ResourceUpdatedNotificationParams","Result","ResultMetaObject","ResultType","Role","Root","RpcError","SamplingMessage","SamplingMessageContent","SamplingMessageContentBlock","ServerCapabilities","ServerCapabilitiesPrompts","ServerCapabilitiesResources","ServerCapabilitiesTools","ServerNotification","ServerResult","SingleSelectEnumSchema","StringSchema","StringSchemaFormat","SubscriptionFilter","SubscriptionsAcknowledgedNotification","SubscriptionsAcknowledgedNotificationParams","SubscriptionsListenRequest","SubscriptionsListenRequestParams","SubscriptionsListenResult","SubscriptionsListenResultMetaObject","SubscriptionsListenResultResponse","TextContent","TextResourceContents","TitledMultiSelectEnumSchema","TitledMultiSelectEnumSchemaItems","TitledMultiSelectEnumSchemaItemsAnyOfItem","TitledSingleSelectEnumSchema","TitledSingleSelectEnumSchemaOneOfItem","Tool","ToolAnnotations","ToolChoice","ToolChoiceMode","ToolInputSchema","ToolListChangedNotification","ToolOutputSchema","ToolResultContent","ToolUseContent","UnsupportedProtocolVersionError","UnsupportedProtocolVersionErrorError","UnsupportedProtocolVersionErrorErrorData","UntitledMultiSelectEnumSchema","UntitledMultiSelectEnumSchemaItems","UntitledSingleSelectEnumSchema","ClientMessage","ClientJsonrpcRequest","RequestFromClient","ClientJsonrpcNotification","NotificationFromClient","ClientJsonrpcResponse","ResultFromClient","ServerMessage","ServerJsonrpcRequest","CustomRequest","RequestFromServer","ServerJsonrpcNotification","NotificationFromServer","ServerJsonrpcResponse","MessageFromServer","MessageFromClient","ClientMessages","ServerMessages","MessagesFromServer","MessagesFromClient","SdkError">>
=============================================================================
