------------------------------- MODULE Schema -------------------------------
(* Protocol tables of MCP schema version 2024_11_05: one entry per wire type.                *)
(* Type expressions and field modes are explained in ../Codec.tla.                   *)
EXTENDS TLC
SchemaVersion == "2024_11_05"

T_Annotated == [k|->"struct",f|-><<[n|->"annotations",r|->"annotations",t|-><<"opt",<<"ref","AnnotatedAnnotations">>>>,m|->"skip"]>>]
T_AnnotatedAnnotations == [k|->"struct",f|-><<[n|->"audience",r|->"audience",t|-><<"vec",<<"ref","Role">>>>,m|->"skip"],
    [n|->"priority",r|->"priority",t|-><<"opt",<<"f64">>>>,m|->"skip"]>>]
T_BlobResourceContents == [k|->"struct",f|-><<[n|->"blob",r|->"blob",t|-><<"str">>,m|->"req"],
    [n|->"mimeType",r|->"mime_type",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"uri",r|->"uri",t|-><<"str">>,m|->"req"]>>]
T_CallToolRequest == [k|->"struct",f|-><<[n|->"method",r|->"method",t|-><<"cs","tools/call">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"ref","CallToolRequestParams">>,m|->"req"]>>]
T_CallToolRequestParams == [k|->"struct",f|-><<[n|->"arguments",r|->"arguments",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"name",r|->"name",t|-><<"str">>,m|->"req"]>>]
T_CallToolResult == [k|->"struct",f|-><<[n|->"content",r|->"content",t|-><<"vec",<<"ref","CallToolResultContentItem">>>>,m|->"req"],
    [n|->"isError",r|->"is_error",t|-><<"opt",<<"bool">>>>,m|->"skip"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"]>>]
T_CallToolResultContentItem == [k|->"untag",v|-><<[n|->"TextContent",k|->"nt",t|-><<"ref","TextContent">>],
    [n|->"ImageContent",k|->"nt",t|-><<"ref","ImageContent">>],
    [n|->"EmbeddedResource",k|->"nt",t|-><<"ref","EmbeddedResource">>]>>]
T_CancelledNotification == [k|->"struct",f|-><<[n|->"method",r|->"method",t|-><<"cs","notifications/cancelled">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"ref","CancelledNotificationParams">>,m|->"req"]>>]
T_CancelledNotificationParams == [k|->"struct",f|-><<[n|->"reason",r|->"reason",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"requestId",r|->"request_id",t|-><<"ref","RequestId">>,m|->"req"]>>]
T_ClientCapabilities == [k|->"struct",f|-><<[n|->"experimental",r|->"experimental",t|-><<"opt",<<"hmap",<<"map">>>>>>,m|->"skip"],
    [n|->"roots",r|->"roots",t|-><<"opt",<<"ref","ClientRoots">>>>,m|->"skip"],
    [n|->"sampling",r|->"sampling",t|-><<"opt",<<"map">>>>,m|->"skip"]>>]
T_ClientNotification == [k|->"dispatch",v|-><<[m|->"notifications/cancelled",n|->"CancelledNotification",t|-><<"ref","CancelledNotification">>],
    [m|->"notifications/initialized",n|->"InitializedNotification",t|-><<"ref","InitializedNotification">>],
    [m|->"notifications/progress",n|->"ProgressNotification",t|-><<"ref","ProgressNotification">>],
    [m|->"notifications/roots/list_changed",n|->"RootsListChangedNotification",t|-><<"ref","RootsListChangedNotification">>]>>]
T_ClientRequest == [k|->"dispatch",v|-><<[m|->"initialize",n|->"InitializeRequest",t|-><<"ref","InitializeRequest">>],
    [m|->"ping",n|->"PingRequest",t|-><<"ref","PingRequest">>],
    [m|->"resources/list",n|->"ListResourcesRequest",t|-><<"ref","ListResourcesRequest">>],
    [m|->"resources/templates/list",n|->"ListResourceTemplatesRequest",t|-><<"ref","ListResourceTemplatesRequest">>],
    [m|->"resources/read",n|->"ReadResourceRequest",t|-><<"ref","ReadResourceRequest">>],
    [m|->"resources/subscribe",n|->"SubscribeRequest",t|-><<"ref","SubscribeRequest">>],
    [m|->"resources/unsubscribe",n|->"UnsubscribeRequest",t|-><<"ref","UnsubscribeRequest">>],
    [m|->"prompts/list",n|->"ListPromptsRequest",t|-><<"ref","ListPromptsRequest">>],
    [m|->"prompts/get",n|->"GetPromptRequest",t|-><<"ref","GetPromptRequest">>],
    [m|->"tools/list",n|->"ListToolsRequest",t|-><<"ref","ListToolsRequest">>],
    [m|->"tools/call",n|->"CallToolRequest",t|-><<"ref","CallToolRequest">>],
    [m|->"logging/setLevel",n|->"SetLevelRequest",t|-><<"ref","SetLevelRequest">>],
    [m|->"completion/complete",n|->"CompleteRequest",t|-><<"ref","CompleteRequest">>]>>]
T_ClientResult == [k|->"untag",v|-><<[n|->"CreateMessageResult",k|->"nt",t|-><<"ref","CreateMessageResult">>],
    [n|->"ListRootsResult",k|->"nt",t|-><<"ref","ListRootsResult">>],
    [n|->"Result",k|->"nt",t|-><<"ref","Result">>]>>]
T_ClientRoots == [k|->"struct",f|-><<[n|->"listChanged",r|->"list_changed",t|-><<"opt",<<"bool">>>>,m|->"skip"]>>]
T_CompleteRequest == [k|->"struct",f|-><<[n|->"method",r|->"method",t|-><<"cs","completion/complete">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"ref","CompleteRequestParams">>,m|->"req"]>>]
T_CompleteRequestArgument == [k|->"struct",f|-><<[n|->"name",r|->"name",t|-><<"str">>,m|->"req"],
    [n|->"value",r|->"value",t|-><<"str">>,m|->"req"]>>]
T_CompleteRequestParams == [k|->"struct",f|-><<[n|->"argument",r|->"argument",t|-><<"ref","CompleteRequestArgument">>,m|->"req"],
    [n|->"ref",r|->"ref_",t|-><<"ref","CompleteRequestRef">>,m|->"req"]>>]
T_CompleteRequestRef == [k|->"untag",v|-><<[n|->"PromptReference",k|->"nt",t|-><<"ref","PromptReference">>],
    [n|->"ResourceReference",k|->"nt",t|-><<"ref","ResourceReference">>]>>]
T_CompleteResult == [k|->"struct",f|-><<[n|->"completion",r|->"completion",t|-><<"ref","CompleteResultCompletion">>,m|->"req"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"]>>]
T_CompleteResultCompletion == [k|->"struct",f|-><<[n|->"hasMore",r|->"has_more",t|-><<"opt",<<"bool">>>>,m|->"skip"],
    [n|->"total",r|->"total",t|-><<"opt",<<"i64">>>>,m|->"skip"],
    [n|->"values",r|->"values",t|-><<"vec",<<"str">>>>,m|->"req"]>>]
T_CreateMessageRequest == [k|->"struct",f|-><<[n|->"method",r|->"method",t|-><<"cs","sampling/createMessage">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"ref","CreateMessageRequestParams">>,m|->"req"]>>]
T_CreateMessageRequestParams == [k|->"struct",f|-><<[n|->"includeContext",r|->"include_context",t|-><<"opt",<<"ref","IncludeContext">>>>,m|->"skip"],
    [n|->"maxTokens",r|->"max_tokens",t|-><<"i64">>,m|->"req"],
    [n|->"messages",r|->"messages",t|-><<"vec",<<"ref","SamplingMessage">>>>,m|->"req"],
    [n|->"metadata",r|->"metadata",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"modelPreferences",r|->"model_preferences",t|-><<"opt",<<"ref","ModelPreferences">>>>,m|->"skip"],
    [n|->"stopSequences",r|->"stop_sequences",t|-><<"vec",<<"str">>>>,m|->"skip"],
    [n|->"systemPrompt",r|->"system_prompt",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"temperature",r|->"temperature",t|-><<"opt",<<"f64">>>>,m|->"skip"]>>]
T_CreateMessageResult == [k|->"struct",f|-><<[n|->"content",r|->"content",t|-><<"ref","CreateMessageResultContent">>,m|->"req"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"model",r|->"model",t|-><<"str">>,m|->"req"],
    [n|->"role",r|->"role",t|-><<"ref","Role">>,m|->"req"],
    [n|->"stopReason",r|->"stop_reason",t|-><<"opt",<<"str">>>>,m|->"skip"]>>]
T_CreateMessageResultContent == [k|->"untag",v|-><<[n|->"TextContent",k|->"nt",t|-><<"ref","TextContent">>],
    [n|->"ImageContent",k|->"nt",t|-><<"ref","ImageContent">>]>>]
T_Cursor == [k|->"new",t|-><<"str">>]
T_EmbeddedResource == [k|->"struct",f|-><<[n|->"annotations",r|->"annotations",t|-><<"opt",<<"ref","EmbeddedResourceAnnotations">>>>,m|->"skip"],
    [n|->"resource",r|->"resource",t|-><<"ref","EmbeddedResourceResource">>,m|->"req"],
    [n|->"type",r|->"type_",t|-><<"cs","resource">>,m|->"must"]>>]
T_EmbeddedResourceAnnotations == [k|->"struct",f|-><<[n|->"audience",r|->"audience",t|-><<"vec",<<"ref","Role">>>>,m|->"skip"],
    [n|->"priority",r|->"priority",t|-><<"opt",<<"f64">>>>,m|->"skip"]>>]
T_EmbeddedResourceResource == [k|->"untag",v|-><<[n|->"TextResourceContents",k|->"nt",t|-><<"ref","TextResourceContents">>],
    [n|->"BlobResourceContents",k|->"nt",t|-><<"ref","BlobResourceContents">>]>>]
T_EmptyResult == [k|->"new",t|-><<"ref","Result">>]
T_GetPromptRequest == [k|->"struct",f|-><<[n|->"method",r|->"method",t|-><<"cs","prompts/get">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"ref","GetPromptRequestParams">>,m|->"req"]>>]
T_GetPromptRequestParams == [k|->"struct",f|-><<[n|->"arguments",r|->"arguments",t|-><<"opt",<<"hmap",<<"str">>>>>>,m|->"skip"],
    [n|->"name",r|->"name",t|-><<"str">>,m|->"req"]>>]
T_GetPromptResult == [k|->"struct",f|-><<[n|->"description",r|->"description",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"messages",r|->"messages",t|-><<"vec",<<"ref","PromptMessage">>>>,m|->"req"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"]>>]
T_ImageContent == [k|->"struct",f|-><<[n|->"annotations",r|->"annotations",t|-><<"opt",<<"ref","ImageContentAnnotations">>>>,m|->"skip"],
    [n|->"data",r|->"data",t|-><<"str">>,m|->"req"],
    [n|->"mimeType",r|->"mime_type",t|-><<"str">>,m|->"req"],
    [n|->"type",r|->"type_",t|-><<"cs","image">>,m|->"must"]>>]
T_ImageContentAnnotations == [k|->"struct",f|-><<[n|->"audience",r|->"audience",t|-><<"vec",<<"ref","Role">>>>,m|->"skip"],
    [n|->"priority",r|->"priority",t|-><<"opt",<<"f64">>>>,m|->"skip"]>>]
T_Implementation == [k|->"struct",f|-><<[n|->"name",r|->"name",t|-><<"str">>,m|->"req"],
    [n|->"version",r|->"version",t|-><<"str">>,m|->"req"]>>]
T_IncludeContext == [k|->"unit",v|-><<<<"allServers","AllServers">>,<<"none","None">>,<<"thisServer","ThisServer">>>>]
T_InitializeRequest == [k|->"struct",f|-><<[n|->"method",r|->"method",t|-><<"cs","initialize">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"ref","InitializeRequestParams">>,m|->"req"]>>]
T_InitializeRequestParams == [k|->"struct",f|-><<[n|->"capabilities",r|->"capabilities",t|-><<"ref","ClientCapabilities">>,m|->"req"],
    [n|->"clientInfo",r|->"client_info",t|-><<"ref","Implementation">>,m|->"req"],
    [n|->"protocolVersion",r|->"protocol_version",t|-><<"str">>,m|->"req"]>>]
T_InitializeResult == [k|->"struct",f|-><<[n|->"capabilities",r|->"capabilities",t|-><<"ref","ServerCapabilities">>,m|->"req"],
    [n|->"instructions",r|->"instructions",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"protocolVersion",r|->"protocol_version",t|-><<"str">>,m|->"req"],
    [n|->"serverInfo",r|->"server_info",t|-><<"ref","Implementation">>,m|->"req"]>>]
T_InitializedNotification == [k|->"struct",f|-><<[n|->"method",r|->"method",t|-><<"cs","notifications/initialized">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"opt",<<"ref","InitializedNotificationParams">>>>,m|->"skip"]>>]
T_InitializedNotificationParams == [k|->"struct",f|-><<[n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"extra",r|->"extra",t|-><<"opt",<<"map">>>>,m|->"flat"]>>]
T_JsonrpcError == [k|->"struct",f|-><<[n|->"error",r|->"error",t|-><<"ref","RpcError">>,m|->"req"],
    [n|->"id",r|->"id",t|-><<"ref","RequestId">>,m|->"req"],
    [n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"]>>]
T_JsonrpcMessage == [k|->"untag",v|-><<[n|->"Request",k|->"nt",t|-><<"ref","JsonrpcRequest">>],
    [n|->"Notification",k|->"nt",t|-><<"ref","JsonrpcNotification">>],
    [n|->"Response",k|->"nt",t|-><<"ref","JsonrpcResponse">>],
    [n|->"Error",k|->"nt",t|-><<"ref","JsonrpcError">>]>>]
T_JsonrpcNotification == [k|->"struct",f|-><<[n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"method",r|->"method",t|-><<"str">>,m|->"req"],
    [n|->"params",r|->"params",t|-><<"opt",<<"ref","JsonrpcNotificationParams">>>>,m|->"skip"]>>]
T_JsonrpcNotificationParams == [k|->"struct",f|-><<[n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"extra",r|->"extra",t|-><<"opt",<<"map">>>>,m|->"flat"]>>]
T_JsonrpcRequest == [k|->"struct",f|-><<[n|->"id",r|->"id",t|-><<"ref","RequestId">>,m|->"req"],
    [n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"method",r|->"method",t|-><<"str">>,m|->"req"],
    [n|->"params",r|->"params",t|-><<"opt",<<"ref","JsonrpcRequestParams">>>>,m|->"skip"]>>]
T_JsonrpcRequestParams == [k|->"struct",f|-><<[n|->"_meta",r|->"meta",t|-><<"opt",<<"ref","JsonrpcRequestParamsMeta">>>>,m|->"skip"],
    [n|->"extra",r|->"extra",t|-><<"opt",<<"map">>>>,m|->"flat"]>>]
T_JsonrpcRequestParamsMeta == [k|->"struct",f|-><<[n|->"progressToken",r|->"progress_token",t|-><<"opt",<<"ref","ProgressToken">>>>,m|->"skip"]>>]
T_JsonrpcResponse == [k|->"struct",f|-><<[n|->"id",r|->"id",t|-><<"ref","RequestId">>,m|->"req"],
    [n|->"jsonrpc",r|->"jsonrpc",t|-><<"cs","2.0">>,m|->"must"],
    [n|->"result",r|->"result",t|-><<"ref","Result">>,m|->"req"]>>]
T_ListPromptsRequest == [k|->"struct",f|-><<[n|->"method",r|->"method",t|-><<"cs","prompts/list">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"opt",<<"ref","ListPromptsRequestParams">>>>,m|->"skip"]>>]
T_ListPromptsRequestParams == [k|->"struct",f|-><<[n|->"cursor",r|->"cursor",t|-><<"opt",<<"str">>>>,m|->"skip"]>>]
T_ListPromptsResult == [k|->"struct",f|-><<[n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"nextCursor",r|->"next_cursor",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"prompts",r|->"prompts",t|-><<"vec",<<"ref","Prompt">>>>,m|->"req"]>>]
T_ListResourceTemplatesRequest == [k|->"struct",f|-><<[n|->"method",r|->"method",t|-><<"cs","resources/templates/list">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"opt",<<"ref","ListResourceTemplatesRequestParams">>>>,m|->"skip"]>>]
T_ListResourceTemplatesRequestParams == [k|->"struct",f|-><<[n|->"cursor",r|->"cursor",t|-><<"opt",<<"str">>>>,m|->"skip"]>>]
T_ListResourceTemplatesResult == [k|->"struct",f|-><<[n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"nextCursor",r|->"next_cursor",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"resourceTemplates",r|->"resource_templates",t|-><<"vec",<<"ref","ResourceTemplate">>>>,m|->"req"]>>]
T_ListResourcesRequest == [k|->"struct",f|-><<[n|->"method",r|->"method",t|-><<"cs","resources/list">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"opt",<<"ref","ListResourcesRequestParams">>>>,m|->"skip"]>>]
T_ListResourcesRequestParams == [k|->"struct",f|-><<[n|->"cursor",r|->"cursor",t|-><<"opt",<<"str">>>>,m|->"skip"]>>]
T_ListResourcesResult == [k|->"struct",f|-><<[n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"nextCursor",r|->"next_cursor",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"resources",r|->"resources",t|-><<"vec",<<"ref","Resource">>>>,m|->"req"]>>]
T_ListRootsRequest == [k|->"struct",f|-><<[n|->"method",r|->"method",t|-><<"cs","roots/list">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"opt",<<"ref","ListRootsRequestParams">>>>,m|->"skip"]>>]
T_ListRootsRequestParams == [k|->"struct",f|-><<[n|->"_meta",r|->"meta",t|-><<"opt",<<"ref","ListRootsRequestParamsMeta">>>>,m|->"skip"],
    [n|->"extra",r|->"extra",t|-><<"opt",<<"map">>>>,m|->"flat"]>>]
T_ListRootsRequestParamsMeta == [k|->"struct",f|-><<[n|->"progressToken",r|->"progress_token",t|-><<"opt",<<"ref","ProgressToken">>>>,m|->"skip"]>>]
T_ListRootsResult == [k|->"struct",f|-><<[n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"roots",r|->"roots",t|-><<"vec",<<"ref","Root">>>>,m|->"req"]>>]
T_ListToolsRequest == [k|->"struct",f|-><<[n|->"method",r|->"method",t|-><<"cs","tools/list">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"opt",<<"ref","ListToolsRequestParams">>>>,m|->"skip"]>>]
T_ListToolsRequestParams == [k|->"struct",f|-><<[n|->"cursor",r|->"cursor",t|-><<"opt",<<"str">>>>,m|->"skip"]>>]
T_ListToolsResult == [k|->"struct",f|-><<[n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"nextCursor",r|->"next_cursor",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"tools",r|->"tools",t|-><<"vec",<<"ref","Tool">>>>,m|->"req"]>>]
T_LoggingLevel == [k|->"unit",v|-><<<<"alert","Alert">>,<<"critical","Critical">>,<<"debug","Debug">>,<<"emergency","Emergency">>,<<"error","Error">>,<<"info","Info">>,<<"notice","Notice">>,<<"warning","Warning">>>>]
T_LoggingMessageNotification == [k|->"struct",f|-><<[n|->"method",r|->"method",t|-><<"cs","notifications/message">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"ref","LoggingMessageNotificationParams">>,m|->"req"]>>]
T_LoggingMessageNotificationParams == [k|->"struct",f|-><<[n|->"data",r|->"data",t|-><<"val">>,m|->"req"],
    [n|->"level",r|->"level",t|-><<"ref","LoggingLevel">>,m|->"req"],
    [n|->"logger",r|->"logger",t|-><<"opt",<<"str">>>>,m|->"skip"]>>]
T_ModelHint == [k|->"struct",f|-><<[n|->"name",r|->"name",t|-><<"opt",<<"str">>>>,m|->"skip"]>>]
T_ModelPreferences == [k|->"struct",f|-><<[n|->"costPriority",r|->"cost_priority",t|-><<"opt",<<"f64">>>>,m|->"skip"],
    [n|->"hints",r|->"hints",t|-><<"vec",<<"ref","ModelHint">>>>,m|->"skip"],
    [n|->"intelligencePriority",r|->"intelligence_priority",t|-><<"opt",<<"f64">>>>,m|->"skip"],
    [n|->"speedPriority",r|->"speed_priority",t|-><<"opt",<<"f64">>>>,m|->"skip"]>>]
T_Notification == [k|->"struct",f|-><<[n|->"method",r|->"method",t|-><<"str">>,m|->"req"],
    [n|->"params",r|->"params",t|-><<"opt",<<"ref","NotificationParams">>>>,m|->"skip"]>>]
T_NotificationParams == [k|->"struct",f|-><<[n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"extra",r|->"extra",t|-><<"opt",<<"map">>>>,m|->"flat"]>>]
T_PaginatedRequest == [k|->"struct",f|-><<[n|->"method",r|->"method",t|-><<"str">>,m|->"req"],
    [n|->"params",r|->"params",t|-><<"opt",<<"ref","PaginatedRequestParams">>>>,m|->"skip"]>>]
T_PaginatedRequestParams == [k|->"struct",f|-><<[n|->"cursor",r|->"cursor",t|-><<"opt",<<"str">>>>,m|->"skip"]>>]
T_PaginatedResult == [k|->"struct",f|-><<[n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"nextCursor",r|->"next_cursor",t|-><<"opt",<<"str">>>>,m|->"skip"]>>]
T_PingRequest == [k|->"struct",f|-><<[n|->"method",r|->"method",t|-><<"cs","ping">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"opt",<<"ref","PingRequestParams">>>>,m|->"skip"]>>]
T_PingRequestParams == [k|->"struct",f|-><<[n|->"_meta",r|->"meta",t|-><<"opt",<<"ref","PingRequestParamsMeta">>>>,m|->"skip"],
    [n|->"extra",r|->"extra",t|-><<"opt",<<"map">>>>,m|->"flat"]>>]
T_PingRequestParamsMeta == [k|->"struct",f|-><<[n|->"progressToken",r|->"progress_token",t|-><<"opt",<<"ref","ProgressToken">>>>,m|->"skip"]>>]
T_ProgressNotification == [k|->"struct",f|-><<[n|->"method",r|->"method",t|-><<"cs","notifications/progress">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"ref","ProgressNotificationParams">>,m|->"req"]>>]
T_ProgressNotificationParams == [k|->"struct",f|-><<[n|->"progress",r|->"progress",t|-><<"f64">>,m|->"req"],
    [n|->"progressToken",r|->"progress_token",t|-><<"ref","ProgressToken">>,m|->"req"],
    [n|->"total",r|->"total",t|-><<"opt",<<"f64">>>>,m|->"skip"]>>]
T_ProgressToken == [k|->"untag",v|-><<[n|->"String",k|->"nt",t|-><<"str">>],
    [n|->"Integer",k|->"nt",t|-><<"i64">>]>>]
T_Prompt == [k|->"struct",f|-><<[n|->"arguments",r|->"arguments",t|-><<"vec",<<"ref","PromptArgument">>>>,m|->"skip"],
    [n|->"description",r|->"description",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"name",r|->"name",t|-><<"str">>,m|->"req"]>>]
T_PromptArgument == [k|->"struct",f|-><<[n|->"description",r|->"description",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"name",r|->"name",t|-><<"str">>,m|->"req"],
    [n|->"required",r|->"required",t|-><<"opt",<<"bool">>>>,m|->"skip"]>>]
T_PromptListChangedNotification == [k|->"struct",f|-><<[n|->"method",r|->"method",t|-><<"cs","notifications/prompts/list_changed">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"opt",<<"ref","PromptListChangedNotificationParams">>>>,m|->"skip"]>>]
T_PromptListChangedNotificationParams == [k|->"struct",f|-><<[n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"extra",r|->"extra",t|-><<"opt",<<"map">>>>,m|->"flat"]>>]
T_PromptMessage == [k|->"struct",f|-><<[n|->"content",r|->"content",t|-><<"ref","PromptMessageContent">>,m|->"req"],
    [n|->"role",r|->"role",t|-><<"ref","Role">>,m|->"req"]>>]
T_PromptMessageContent == [k|->"untag",v|-><<[n|->"TextContent",k|->"nt",t|-><<"ref","TextContent">>],
    [n|->"ImageContent",k|->"nt",t|-><<"ref","ImageContent">>],
    [n|->"EmbeddedResource",k|->"nt",t|-><<"ref","EmbeddedResource">>]>>]
T_PromptReference == [k|->"struct",f|-><<[n|->"name",r|->"name",t|-><<"str">>,m|->"req"],
    [n|->"type",r|->"type_",t|-><<"cs","ref/prompt">>,m|->"must"]>>]
T_ReadResourceContent == [k|->"untag",v|-><<[n|->"TextResourceContents",k|->"nt",t|-><<"ref","TextResourceContents">>],
    [n|->"BlobResourceContents",k|->"nt",t|-><<"ref","BlobResourceContents">>]>>]
T_ReadResourceRequest == [k|->"struct",f|-><<[n|->"method",r|->"method",t|-><<"cs","resources/read">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"ref","ReadResourceRequestParams">>,m|->"req"]>>]
T_ReadResourceRequestParams == [k|->"struct",f|-><<[n|->"uri",r|->"uri",t|-><<"str">>,m|->"req"]>>]
T_ReadResourceResult == [k|->"struct",f|-><<[n|->"contents",r|->"contents",t|-><<"vec",<<"ref","ReadResourceContent">>>>,m|->"req"],
    [n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"]>>]
T_Request == [k|->"struct",f|-><<[n|->"method",r|->"method",t|-><<"str">>,m|->"req"],
    [n|->"params",r|->"params",t|-><<"opt",<<"ref","RequestParams">>>>,m|->"skip"]>>]
T_RequestId == [k|->"untag",v|-><<[n|->"String",k|->"nt",t|-><<"str">>],
    [n|->"Integer",k|->"nt",t|-><<"i64">>]>>]
T_RequestParams == [k|->"struct",f|-><<[n|->"_meta",r|->"meta",t|-><<"opt",<<"ref","RequestParamsMeta">>>>,m|->"skip"],
    [n|->"extra",r|->"extra",t|-><<"opt",<<"map">>>>,m|->"flat"]>>]
T_RequestParamsMeta == [k|->"struct",f|-><<[n|->"progressToken",r|->"progress_token",t|-><<"opt",<<"ref","ProgressToken">>>>,m|->"skip"]>>]
T_Resource == [k|->"struct",f|-><<[n|->"annotations",r|->"annotations",t|-><<"opt",<<"ref","ResourceAnnotations">>>>,m|->"skip"],
    [n|->"description",r|->"description",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"mimeType",r|->"mime_type",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"name",r|->"name",t|-><<"str">>,m|->"req"],
    [n|->"size",r|->"size",t|-><<"opt",<<"i64">>>>,m|->"skip"],
    [n|->"uri",r|->"uri",t|-><<"str">>,m|->"req"]>>]
T_ResourceAnnotations == [k|->"struct",f|-><<[n|->"audience",r|->"audience",t|-><<"vec",<<"ref","Role">>>>,m|->"skip"],
    [n|->"priority",r|->"priority",t|-><<"opt",<<"f64">>>>,m|->"skip"]>>]
T_ResourceContents == [k|->"struct",f|-><<[n|->"mimeType",r|->"mime_type",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"uri",r|->"uri",t|-><<"str">>,m|->"req"]>>]
T_ResourceListChangedNotification == [k|->"struct",f|-><<[n|->"method",r|->"method",t|-><<"cs","notifications/resources/list_changed">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"opt",<<"ref","ResourceListChangedNotificationParams">>>>,m|->"skip"]>>]
T_ResourceListChangedNotificationParams == [k|->"struct",f|-><<[n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"extra",r|->"extra",t|-><<"opt",<<"map">>>>,m|->"flat"]>>]
T_ResourceReference == [k|->"struct",f|-><<[n|->"type",r|->"type_",t|-><<"cs","ref/resource">>,m|->"must"],
    [n|->"uri",r|->"uri",t|-><<"str">>,m|->"req"]>>]
T_ResourceTemplate == [k|->"struct",f|-><<[n|->"annotations",r|->"annotations",t|-><<"opt",<<"ref","ResourceTemplateAnnotations">>>>,m|->"skip"],
    [n|->"description",r|->"description",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"mimeType",r|->"mime_type",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"name",r|->"name",t|-><<"str">>,m|->"req"],
    [n|->"uriTemplate",r|->"uri_template",t|-><<"str">>,m|->"req"]>>]
T_ResourceTemplateAnnotations == [k|->"struct",f|-><<[n|->"audience",r|->"audience",t|-><<"vec",<<"ref","Role">>>>,m|->"skip"],
    [n|->"priority",r|->"priority",t|-><<"opt",<<"f64">>>>,m|->"skip"]>>]
T_ResourceUpdatedNotification == [k|->"struct",f|-><<[n|->"method",r|->"method",t|-><<"cs","notifications/resources/updated">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"ref","ResourceUpdatedNotificationParams">>,m|->"req"]>>]
T_ResourceUpdatedNotificationParams == [k|->"struct",f|-><<[n|->"uri",r|->"uri",t|-><<"str">>,m|->"req"]>>]
T_Result == [k|->"struct",f|-><<[n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"extra",r|->"extra",t|-><<"opt",<<"map">>>>,m|->"flat"]>>]
T_Role == [k|->"unit",v|-><<<<"assistant","Assistant">>,<<"user","User">>>>]
T_Root == [k|->"struct",f|-><<[n|->"name",r|->"name",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"uri",r|->"uri",t|-><<"str">>,m|->"req"]>>]
T_RootsListChangedNotification == [k|->"struct",f|-><<[n|->"method",r|->"method",t|-><<"cs","notifications/roots/list_changed">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"opt",<<"ref","RootsListChangedNotificationParams">>>>,m|->"skip"]>>]
T_RootsListChangedNotificationParams == [k|->"struct",f|-><<[n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"extra",r|->"extra",t|-><<"opt",<<"map">>>>,m|->"flat"]>>]
T_RpcError == [k|->"struct",f|-><<[n|->"code",r|->"code",t|-><<"i64">>,m|->"req"],
    [n|->"data",r|->"data",t|-><<"opt",<<"val">>>>,m|->"skip"],
    [n|->"message",r|->"message",t|-><<"str">>,m|->"req"]>>]
T_SamplingMessage == [k|->"struct",f|-><<[n|->"content",r|->"content",t|-><<"ref","SamplingMessageContent">>,m|->"req"],
    [n|->"role",r|->"role",t|-><<"ref","Role">>,m|->"req"]>>]
T_SamplingMessageContent == [k|->"untag",v|-><<[n|->"TextContent",k|->"nt",t|-><<"ref","TextContent">>],
    [n|->"ImageContent",k|->"nt",t|-><<"ref","ImageContent">>]>>]
T_ServerCapabilities == [k|->"struct",f|-><<[n|->"experimental",r|->"experimental",t|-><<"opt",<<"hmap",<<"map">>>>>>,m|->"skip"],
    [n|->"logging",r|->"logging",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"prompts",r|->"prompts",t|-><<"opt",<<"ref","ServerCapabilitiesPrompts">>>>,m|->"skip"],
    [n|->"resources",r|->"resources",t|-><<"opt",<<"ref","ServerCapabilitiesResources">>>>,m|->"skip"],
    [n|->"tools",r|->"tools",t|-><<"opt",<<"ref","ServerCapabilitiesTools">>>>,m|->"skip"]>>]
T_ServerCapabilitiesPrompts == [k|->"struct",f|-><<[n|->"listChanged",r|->"list_changed",t|-><<"opt",<<"bool">>>>,m|->"skip"]>>]
T_ServerCapabilitiesResources == [k|->"struct",f|-><<[n|->"listChanged",r|->"list_changed",t|-><<"opt",<<"bool">>>>,m|->"skip"],
    [n|->"subscribe",r|->"subscribe",t|-><<"opt",<<"bool">>>>,m|->"skip"]>>]
T_ServerCapabilitiesTools == [k|->"struct",f|-><<[n|->"listChanged",r|->"list_changed",t|-><<"opt",<<"bool">>>>,m|->"skip"]>>]
T_ServerNotification == [k|->"dispatch",v|-><<[m|->"notifications/cancelled",n|->"CancelledNotification",t|-><<"ref","CancelledNotification">>],
    [m|->"notifications/progress",n|->"ProgressNotification",t|-><<"ref","ProgressNotification">>],
    [m|->"notifications/resources/list_changed",n|->"ResourceListChangedNotification",t|-><<"ref","ResourceListChangedNotification">>],
    [m|->"notifications/resources/updated",n|->"ResourceUpdatedNotification",t|-><<"ref","ResourceUpdatedNotification">>],
    [m|->"notifications/prompts/list_changed",n|->"PromptListChangedNotification",t|-><<"ref","PromptListChangedNotification">>],
    [m|->"notifications/tools/list_changed",n|->"ToolListChangedNotification",t|-><<"ref","ToolListChangedNotification">>],
    [m|->"notifications/message",n|->"LoggingMessageNotification",t|-><<"ref","LoggingMessageNotification">>]>>]
T_ServerRequest == [k|->"dispatch",v|-><<[m|->"ping",n|->"PingRequest",t|-><<"ref","PingRequest">>],
    [m|->"sampling/createMessage",n|->"CreateMessageRequest",t|-><<"ref","CreateMessageRequest">>],
    [m|->"roots/list",n|->"ListRootsRequest",t|-><<"ref","ListRootsRequest">>]>>]
T_ServerResult == [k|->"untag",v|-><<[n|->"InitializeResult",k|->"nt",t|-><<"ref","InitializeResult">>],
    [n|->"ListResourcesResult",k|->"nt",t|-><<"ref","ListResourcesResult">>],
    [n|->"ListResourceTemplatesResult",k|->"nt",t|-><<"ref","ListResourceTemplatesResult">>],
    [n|->"ReadResourceResult",k|->"nt",t|-><<"ref","ReadResourceResult">>],
    [n|->"ListPromptsResult",k|->"nt",t|-><<"ref","ListPromptsResult">>],
    [n|->"GetPromptResult",k|->"nt",t|-><<"ref","GetPromptResult">>],
    [n|->"ListToolsResult",k|->"nt",t|-><<"ref","ListToolsResult">>],
    [n|->"CallToolResult",k|->"nt",t|-><<"ref","CallToolResult">>],
    [n|->"CompleteResult",k|->"nt",t|-><<"ref","CompleteResult">>],
    [n|->"Result",k|->"nt",t|-><<"ref","Result">>]>>]
T_SetLevelRequest == [k|->"struct",f|-><<[n|->"method",r|->"method",t|-><<"cs","logging/setLevel">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"ref","SetLevelRequestParams">>,m|->"req"]>>]
T_SetLevelRequestParams == [k|->"struct",f|-><<[n|->"level",r|->"level",t|-><<"ref","LoggingLevel">>,m|->"req"]>>]
T_SubscribeRequest == [k|->"struct",f|-><<[n|->"method",r|->"method",t|-><<"cs","resources/subscribe">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"ref","SubscribeRequestParams">>,m|->"req"]>>]
T_SubscribeRequestParams == [k|->"struct",f|-><<[n|->"uri",r|->"uri",t|-><<"str">>,m|->"req"]>>]
T_TextContent == [k|->"struct",f|-><<[n|->"annotations",r|->"annotations",t|-><<"opt",<<"ref","TextContentAnnotations">>>>,m|->"skip"],
    [n|->"text",r|->"text",t|-><<"str">>,m|->"req"],
    [n|->"type",r|->"type_",t|-><<"cs","text">>,m|->"must"]>>]
T_TextContentAnnotations == [k|->"struct",f|-><<[n|->"audience",r|->"audience",t|-><<"vec",<<"ref","Role">>>>,m|->"skip"],
    [n|->"priority",r|->"priority",t|-><<"opt",<<"f64">>>>,m|->"skip"]>>]
T_TextResourceContents == [k|->"struct",f|-><<[n|->"mimeType",r|->"mime_type",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"text",r|->"text",t|-><<"str">>,m|->"req"],
    [n|->"uri",r|->"uri",t|-><<"str">>,m|->"req"]>>]
T_Tool == [k|->"struct",f|-><<[n|->"description",r|->"description",t|-><<"opt",<<"str">>>>,m|->"skip"],
    [n|->"inputSchema",r|->"input_schema",t|-><<"ref","ToolInputSchema">>,m|->"req"],
    [n|->"name",r|->"name",t|-><<"str">>,m|->"req"]>>]
T_ToolInputSchema == [k|->"struct",f|-><<[n|->"properties",r|->"properties",t|-><<"opt",<<"hmap",<<"map">>>>>>,m|->"skip"],
    [n|->"required",r|->"required",t|-><<"vec",<<"str">>>>,m|->"skip"],
    [n|->"type",r|->"type_",t|-><<"cs","object">>,m|->"must"]>>]
T_ToolListChangedNotification == [k|->"struct",f|-><<[n|->"method",r|->"method",t|-><<"cs","notifications/tools/list_changed">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"opt",<<"ref","ToolListChangedNotificationParams">>>>,m|->"skip"]>>]
T_ToolListChangedNotificationParams == [k|->"struct",f|-><<[n|->"_meta",r|->"meta",t|-><<"opt",<<"map">>>>,m|->"skip"],
    [n|->"extra",r|->"extra",t|-><<"opt",<<"map">>>>,m|->"flat"]>>]
T_UnsubscribeRequest == [k|->"struct",f|-><<[n|->"method",r|->"method",t|-><<"cs","resources/unsubscribe">>,m|->"must"],
    [n|->"params",r|->"params",t|-><<"ref","UnsubscribeRequestParams">>,m|->"req"]>>]
T_UnsubscribeRequestParams == [k|->"struct",f|-><<[n|->"uri",r|->"uri",t|-><<"str">>,m|->"req"]>>]
T_ClientMessage == [k|->"untag",v|-><<[n|->"Request",k|->"nt",t|-><<"ref","ClientJsonrpcRequest">>],
    [n|->"Notification",k|->"nt",t|-><<"ref","ClientJsonrpcNotification">>],
    [n|->"Response",k|->"nt",t|-><<"ref","ClientJsonrpcResponse">>],
    [n|->"Error",k|->"nt",t|-><<"ref","JsonrpcError">>]>>]
T_ClientJsonrpcRequest == [k|->"envreq",t|-><<"ref","RequestFromClient">>]
T_RequestFromClient == [k|->"orelse",t|-><<"ref","ClientRequest">>,n|->"ClientRequest",c|->"CustomRequest"]
T_ClientJsonrpcNotification == [k|->"envnot",t|-><<"ref","NotificationFromClient">>]
T_NotificationFromClient == [k|->"orelse",t|-><<"ref","ClientNotification">>,n|->"ClientNotification",c|->"CustomNotification"]
T_ClientJsonrpcResponse == [k|->"envres",t|-><<"ref","ResultFromClient">>]
T_ResultFromClient == [k|->"orelse",t|-><<"ref","ClientResult">>,n|->"ClientResult",c|->"CustomResult"]
T_ServerMessage == [k|->"untag",v|-><<[n|->"Request",k|->"nt",t|-><<"ref","ServerJsonrpcRequest">>],
    [n|->"Notification",k|->"nt",t|-><<"ref","ServerJsonrpcNotification">>],
    [n|->"Response",k|->"nt",t|-><<"ref","ServerJsonrpcResponse">>],
    [n|->"Error",k|->"nt",t|-><<"ref","JsonrpcError">>]>>]
T_ServerJsonrpcRequest == [k|->"envreq",t|-><<"ref","RequestFromServer">>]
T_RequestFromServer == [k|->"orelse",t|-><<"ref","ServerRequest">>,n|->"ServerRequest",c|->"CustomRequest"]
T_ServerJsonrpcNotification == [k|->"envnot",t|-><<"ref","NotificationFromServer">>]
T_NotificationFromServer == [k|->"orelse",t|-><<"ref","ServerNotification">>,n|->"ServerNotification",c|->"CustomNotification"]
T_ServerJsonrpcResponse == [k|->"envres",t|-><<"ref","ResultFromServer">>]
T_ResultFromServer == [k|->"orelse",t|-><<"ref","ServerResult">>,n|->"ServerResult",c|->"CustomResult"]
T_MessageFromServer == [k|->"untag",v|-><<[n|->"RequestFromServer",k|->"nt",t|-><<"ref","RequestFromServer">>],
    [n|->"ResultFromServer",k|->"nt",t|-><<"ref","ResultFromServer">>],
    [n|->"NotificationFromServer",k|->"nt",t|-><<"ref","NotificationFromServer">>],
    [n|->"Error",k|->"nt",t|-><<"ref","RpcError">>]>>]
T_MessageFromClient == [k|->"untag",v|-><<[n|->"RequestFromClient",k|->"nt",t|-><<"ref","RequestFromClient">>],
    [n|->"ResultFromClient",k|->"nt",t|-><<"ref","ResultFromClient">>],
    [n|->"NotificationFromClient",k|->"nt",t|-><<"ref","NotificationFromClient">>],
    [n|->"Error",k|->"nt",t|-><<"ref","RpcError">>]>>]
T_ClientMessages == [k|->"untag",v|-><<[n|->"Single",k|->"nt",t|-><<"ref","ClientMessage">>],
    [n|->"Batch",k|->"nt",t|-><<"vec",<<"ref","ClientMessage">>>>]>>]
T_ServerMessages == [k|->"untag",v|-><<[n|->"Single",k|->"nt",t|-><<"ref","ServerMessage">>],
    [n|->"Batch",k|->"nt",t|-><<"vec",<<"ref","ServerMessage">>>>]>>]
T_MessagesFromServer == [k|->"untag",v|-><<[n|->"Single",k|->"nt",t|-><<"ref","MessageFromServer">>],
    [n|->"Batch",k|->"nt",t|-><<"vec",<<"ref","MessageFromServer">>>>]>>]
T_MessagesFromClient == [k|->"untag",v|-><<[n|->"Single",k|->"nt",t|-><<"ref","MessageFromClient">>],
    [n|->"Batch",k|->"nt",t|-><<"vec",<<"ref","MessageFromClient">>>>]>>]
T_SdkError == [k|->"struct",f|-><<[n|->"code",r|->"code",t|-><<"i64">>,m|->"req"],
    [n|->"data",r|->"data",t|-><<"opt",<<"val">>>>,m|->"nullout"],
    [n|->"message",r|->"message",t|-><<"str">>,m|->"req"]>>]

Types == [Annotated |-> T_Annotated,
  AnnotatedAnnotations |-> T_AnnotatedAnnotations,
  BlobResourceContents |-> T_BlobResourceContents,
  CallToolRequest |-> T_CallToolRequest,
  CallToolRequestParams |-> T_CallToolRequestParams,
  CallToolResult |-> T_CallToolResult,
  CallToolResultContentItem |-> T_CallToolResultContentItem,
  CancelledNotification |-> T_CancelledNotification,
  CancelledNotificationParams |-> T_CancelledNotificationParams,
  ClientCapabilities |-> T_ClientCapabilities,
  ClientNotification |-> T_ClientNotification,
  ClientRequest |-> T_ClientRequest,
  ClientResult |-> T_ClientResult,
  ClientRoots |-> T_ClientRoots,
  CompleteRequest |-> T_CompleteRequest,
  CompleteRequestArgument |-> T_CompleteRequestArgument,
  CompleteRequestParams |-> T_CompleteRequestParams,
  CompleteRequestRef |-> T_CompleteRequestRef,
  CompleteResult |-> T_CompleteResult,
  CompleteResultCompletion |-> T_CompleteResultCompletion,
  CreateMessageRequest |-> T_CreateMessageRequest,
  CreateMessageRequestParams |-> T_CreateMessageRequestParams,
  CreateMessageResult |-> T_CreateMessageResult,
  CreateMessageResultContent |-> T_CreateMessageResultContent,
  Cursor |-> T_Cursor,
  EmbeddedResource |-> T_EmbeddedResource,
  EmbeddedResourceAnnotations |-> T_EmbeddedResourceAnnotations,
  EmbeddedResourceResource |-> T_EmbeddedResourceResource,
  EmptyResult |-> T_EmptyResult,
  GetPromptRequest |-> T_GetPromptRequest,
  GetPromptRequestParams |-> T_GetPromptRequestParams,
  GetPromptResult |-> T_GetPromptResult,
  ImageContent |-> T_ImageContent,
  ImageContentAnnotations |-> T_ImageContentAnnotations,
  Implementation |-> T_Implementation,
  IncludeContext |-> T_IncludeContext,
  InitializeRequest |-> T_InitializeRequest,
  InitializeRequestParams |-> T_InitializeRequestParams,
  InitializeResult |-> T_InitializeResult,
  InitializedNotification |-> T_InitializedNotification,
  InitializedNotificationParams |-> T_InitializedNotificationParams,
  JsonrpcError |-> T_JsonrpcError,
  JsonrpcMessage |-> T_JsonrpcMessage,
  JsonrpcNotification |-> T_JsonrpcNotification,
  JsonrpcNotificationParams |-> T_JsonrpcNotificationParams,
  JsonrpcRequest |-> T_JsonrpcRequest,
  JsonrpcRequestParams |-> T_JsonrpcRequestParams,
  JsonrpcRequestParamsMeta |-> T_JsonrpcRequestParamsMeta,
  JsonrpcResponse |-> T_JsonrpcResponse,
  ListPromptsRequest |-> T_ListPromptsRequest,
  ListPromptsRequestParams |-> T_ListPromptsRequestParams,
  ListPromptsResult |-> T_ListPromptsResult,
  ListResourceTemplatesRequest |-> T_ListResourceTemplatesRequest,
  ListResourceTemplatesRequestParams |-> T_ListResourceTemplatesRequestParams,
  ListResourceTemplatesResult |-> T_ListResourceTemplatesResult,
  ListResourcesRequest |-> T_ListResourcesRequest,
  ListResourcesRequestParams |-> T_ListResourcesRequestParams,
  ListResourcesResult |-> T_ListResourcesResult,
  ListRootsRequest |-> T_ListRootsRequest,
  ListRootsRequestParams |-> T_ListRootsRequestParams,
  ListRootsRequestParamsMeta |-> T_ListRootsRequestParamsMeta,
  ListRootsResult |-> T_ListRootsResult,
  ListToolsRequest |-> T_ListToolsRequest,
  ListToolsRequestParams |-> T_ListToolsRequestParams,
  ListToolsResult |-> T_ListToolsResult,
  LoggingLevel |-> T_LoggingLevel,
  LoggingMessageNotification |-> T_LoggingMessageNotification,
  LoggingMessageNotificationParams |-> T_LoggingMessageNotificationParams,
  ModelHint |-> T_ModelHint,
  ModelPreferences |-> T_ModelPreferences,
  Notification |-> T_Notification,
  NotificationParams |-> T_NotificationParams,
  PaginatedRequest |-> T_PaginatedRequest,
  PaginatedRequestParams |-> T_PaginatedRequestParams,
  PaginatedResult |-> T_PaginatedResult,
  PingRequest |-> T_PingRequest,
  PingRequestParams |-> T_PingRequestParams,
  PingRequestParamsMeta |-> T_PingRequestParamsMeta,
  ProgressNotification |-> T_ProgressNotification,
  ProgressNotificationParams |-> T_ProgressNotificationParams,
  ProgressToken |-> T_ProgressToken,
  Prompt |-> T_Prompt,
  PromptArgument |-> T_PromptArgument,
  PromptListChangedNotification |-> T_PromptListChangedNotification,
  PromptListChangedNotificationParams |-> T_PromptListChangedNotificationParams,
  PromptMessage |-> T_PromptMessage,
  PromptMessageContent |-> T_PromptMessageContent,
  PromptReference |-> T_PromptReference,
  ReadResourceContent |-> T_ReadResourceContent,
  ReadResourceRequest |-> T_ReadResourceRequest,
  ReadResourceRequestParams |-> T_ReadResourceRequestParams,
  ReadResourceResult |-> T_ReadResourceResult,
  Request |-> T_Request,
  RequestId |-> T_RequestId,
  RequestParams |-> T_RequestParams,
  RequestParamsMeta |-> T_RequestParamsMeta,
  Resource |-> T_Resource,
  ResourceAnnotations |-> T_ResourceAnnotations,
  ResourceContents |-> T_ResourceContents,
  ResourceListChangedNotification |-> T_ResourceListChangedNotification,
  ResourceListChangedNotificationParams |-> T_ResourceListChangedNotificationParams,
  ResourceReference |-> T_ResourceReference,
  ResourceTemplate |-> T_ResourceTemplate,
  ResourceTemplateAnnotations |-> T_ResourceTemplateAnnotations,
  ResourceUpdatedNotification |-> T_ResourceUpdatedNotification,
  ResourceUpdatedNotificationParams |-> T_ResourceUpdatedNotificationParams,
  Result |-> T_Result,
  Role |-> T_Role,
  Root |-> T_Root,
  RootsListChangedNotification |-> T_RootsListChangedNotification,
  RootsListChangedNotificationParams |-> T_RootsListChangedNotificationParams,
  RpcError |-> T_RpcError,
  SamplingMessage |-> T_SamplingMessage,
  SamplingMessageContent |-> T_SamplingMessageContent,
  ServerCapabilities |-> T_ServerCapabilities,
  ServerCapabilitiesPrompts |-> T_ServerCapabilitiesPrompts,
  ServerCapabilitiesResources |-> T_ServerCapabilitiesResources,
  ServerCapabilitiesTools |-> T_ServerCapabilitiesTools,
  ServerNotification |-> T_ServerNotification,
  ServerRequest |-> T_ServerRequest,
  ServerResult |-> T_ServerResult,
  SetLevelRequest |-> T_SetLevelRequest,
  SetLevelRequestParams |-> T_SetLevelRequestParams,
  SubscribeRequest |-> T_SubscribeRequest,
  SubscribeRequestParams |-> T_SubscribeRequestParams,
  TextContent |-> T_TextContent,
  TextContentAnnotations |-> T_TextContentAnnotations,
  TextResourceContents |-> T_TextResourceContents,
  Tool |-> T_Tool,
  ToolInputSchema |-> T_ToolInputSchema,
  ToolListChangedNotification |-> T_ToolListChangedNotification,
  ToolListChangedNotificationParams |-> T_ToolListChangedNotificationParams,
  UnsubscribeRequest |-> T_UnsubscribeRequest,
  UnsubscribeRequestParams |-> T_UnsubscribeRequestParams,
  ClientMessage |-> T_ClientMessage,
  ClientJsonrpcRequest |-> T_ClientJsonrpcRequest,
  RequestFromClient |-> T_RequestFromClient,
  ClientJsonrpcNotification |-> T_ClientJsonrpcNotification,
  NotificationFromClient |-> T_NotificationFromClient,
  ClientJsonrpcResponse |-> T_ClientJsonrpcResponse,
  ResultFromClient |-> T_ResultFromClient,
  ServerMessage |-> T_ServerMessage,
  ServerJsonrpcRequest |-> T_ServerJsonrpcRequest,
  RequestFromServer |-> T_RequestFromServer,
  ServerJsonrpcNotification |-> T_ServerJsonrpcNotification,
  NotificationFromServer |-> T_NotificationFromServer,
  ServerJsonrpcResponse |-> T_ServerJsonrpcResponse,
  ResultFromServer |-> T_ResultFromServer,
  MessageFromServer |-> T_MessageFromServer,
  MessageFromClient |-> T_MessageFromClient,
  ClientMessages |-> T_ClientMessages,
  ServerMessages |-> T_ServerMessages,
  MessagesFromServer |-> T_MessagesFromServer,
  MessagesFromClient |-> T_MessagesFromClient,
  SdkError |-> T_SdkError]

TypeNames == <<"Annotated","AnnotatedAnnotations","BlobResourceContents","CallToolRequest","CallToolRequestParams","CallToolResult","CallToolResultContentItem","CancelledNotification","CancelledNotificationParams","ClientCapabilities","ClientNotification","ClientRequest","ClientResult","ClientRoots","CompleteRequest","CompleteRequestArgument","CompleteRequestParams","CompleteRequestRef","CompleteResult","CompleteResultCompletion","CreateMessageRequest","CreateMessageRequestParams","CreateMessageResult","CreateMessageResultContent","Cursor","EmbeddedResource","EmbeddedResourceAnnotations","EmbeddedResourceResource","EmptyResult","GetPromptRequest","GetPromptRequestParams","GetPromptResult","ImageContent","ImageContentAnnotations","Implementation","IncludeContext","InitializeRequest","InitializeRequestParams","InitializeResult","InitializedNotification","InitializedNotificationParams","JsonrpcError","JsonrpcMessage","JsonrpcNotification","JsonrpcNotificationParams","JsonrpcRequest","JsonrpcRequestParams","JsonrpcRequestParamsMeta","JsonrpcResponse","ListPromptsRequest","ListPromptsRequestParams","ListPromptsResult","ListResourceTemplatesRequest","ListResourceTemplatesRequestParams","ListResourceTemplatesResult","ListResourcesRequest","ListResourcesRequestParams","ListResourcesResult","ListRootsRequest","ListRootsRequestParams","ListRootsRequestParamsMeta","ListRootsResult","ListToolsRequest","ListToolsRequestParams","ListToolsResult","LoggingLevel","LoggingMessageNotification","LoggingMessageNotificationParams","ModelHint","ModelPreferences","Notification","NotificationParams","PaginatedRequest","PaginatedRequestParams","PaginatedResult","PingRequest","PingRequestParams","PingRequestParamsMeta","ProgressNotification","ProgressNotificationParams","ProgressToken","Prompt","PromptArgument","PromptListChangedNotification","PromptListChangedNotificationParams","PromptMessage","PromptMessageContent","PromptReference","ReadResourceContent","ReadResourceRequest","ReadResourceRequestParams","ReadResourceResult","Request","RequestId","RequestParams","RequestParamsMeta","Resource","ResourceAnnotations","ResourceContents","ResourceListChangedNotification","ResourceListChangedNotificationParams","ResourceReference","ResourceTemplate","ResourceTemplateAnnotations","ResourceUpdatedNotification","ResourceUpdatedNotificationParams","Result","Role","Root","RootsListChangedNotification","RootsListChangedNotificationParams","RpcError","SamplingMessage","SamplingMessageContent","ServerCapabilities","ServerCapabilitiesPrompts","ServerCapabilitiesResources","ServerCapabilitiesTools","ServerNotification","ServerRequest","ServerResult","SetLevelRequest","SetLevelRequestParams","SubscribeRequest","SubscribeRequestParams","TextContent","TextContentAnnotations","TextResourceContents","Tool","ToolInputSchema","ToolListChangedNotification","ToolListChangedNotificationParams","UnsubscribeRequest","UnsubscribeRequestParams","ClientMessage","ClientJsonrpcRequest","RequestFromClient","ClientJsonrpcNotification","NotificationFromClient","ClientJsonrpcResponse","ResultFromClient","ServerMessage","ServerJsonrpcRequest","RequestFromServer","ServerJsonrpcNotification","NotificationFromServer","ServerJsonrpcResponse","ResultFromServer","MessageFromServer","MessageFromClient","ClientMessages","ServerMessages","MessagesFromServer","MessagesFromClient","SdkError">>
=============================================================================
