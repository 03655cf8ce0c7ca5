-------------------------------- MODULE Api ---------------------------------
(* The public functions of schema version 2024_11_05: f name, o owner, n function or trait,     *)
(* s receiver ("" none), a parameters as <<name, type>>.                               *)
EXTENDS TLC

Fns == <<[f|->"CallToolRequest.new",o|->"CallToolRequest",n|->"new",s|->"",a|-><<<<"params",<<"ref","CallToolRequestParams">>>>>>],
  [f|->"CallToolRequest.method",o|->"CallToolRequest",n|->"method",s|->"ref",a|-><<>>],
  [f|->"CallToolRequest.method_value",o|->"CallToolRequest",n|->"method_value",s|->"",a|-><<>>],
  [f|->"CallToolRequest.method_name",o|->"CallToolRequest",n|->"method_name",s|->"",a|-><<>>],
  [f|->"CallToolResultContentItem.From<TextContent>",o|->"CallToolResultContentItem",n|->"From",s|->"",a|-><<<<"value",<<"ref","TextContent">>>>>>],
  [f|->"CallToolResultContentItem.From<ImageContent>",o|->"CallToolResultContentItem",n|->"From",s|->"",a|-><<<<"value",<<"ref","ImageContent">>>>>>],
  [f|->"CallToolResultContentItem.From<EmbeddedResource>",o|->"CallToolResultContentItem",n|->"From",s|->"",a|-><<<<"value",<<"ref","EmbeddedResource">>>>>>],
  [f|->"CancelledNotification.new",o|->"CancelledNotification",n|->"new",s|->"",a|-><<<<"params",<<"ref","CancelledNotificationParams">>>>>>],
  [f|->"CancelledNotification.method",o|->"CancelledNotification",n|->"method",s|->"ref",a|-><<>>],
  [f|->"CancelledNotification.method_value",o|->"CancelledNotification",n|->"method_value",s|->"",a|-><<>>],
  [f|->"CancelledNotification.method_name",o|->"CancelledNotification",n|->"method_name",s|->"",a|-><<>>],
  [f|->"ClientNotification.From<CancelledNotification>",o|->"ClientNotification",n|->"From",s|->"",a|-><<<<"value",<<"ref","CancelledNotification">>>>>>],
  [f|->"ClientNotification.From<InitializedNotification>",o|->"ClientNotification",n|->"From",s|->"",a|-><<<<"value",<<"ref","InitializedNotification">>>>>>],
  [f|->"ClientNotification.From<ProgressNotification>",o|->"ClientNotification",n|->"From",s|->"",a|-><<<<"value",<<"ref","ProgressNotification">>>>>>],
  [f|->"ClientNotification.From<RootsListChangedNotification>",o|->"ClientNotification",n|->"From",s|->"",a|-><<<<"value",<<"ref","RootsListChangedNotification">>>>>>],
  [f|->"ClientRequest.From<InitializeRequest>",o|->"ClientRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","InitializeRequest">>>>>>],
  [f|->"ClientRequest.From<PingRequest>",o|->"ClientRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","PingRequest">>>>>>],
  [f|->"ClientRequest.From<ListResourcesRequest>",o|->"ClientRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListResourcesRequest">>>>>>],
  [f|->"ClientRequest.From<ListResourceTemplatesRequest>",o|->"ClientRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListResourceTemplatesRequest">>>>>>],
  [f|->"ClientRequest.From<ReadResourceRequest>",o|->"ClientRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","ReadResourceRequest">>>>>>],
  [f|->"ClientRequest.From<SubscribeRequest>",o|->"ClientRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","SubscribeRequest">>>>>>],
  [f|->"ClientRequest.From<UnsubscribeRequest>",o|->"ClientRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","UnsubscribeRequest">>>>>>],
  [f|->"ClientRequest.From<ListPromptsRequest>",o|->"ClientRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListPromptsRequest">>>>>>],
  [f|->"ClientRequest.From<GetPromptRequest>",o|->"ClientRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","GetPromptRequest">>>>>>],
  [f|->"ClientRequest.From<ListToolsRequest>",o|->"ClientRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListToolsRequest">>>>>>],
  [f|->"ClientRequest.From<CallToolRequest>",o|->"ClientRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","CallToolRequest">>>>>>],
  [f|->"ClientRequest.From<SetLevelRequest>",o|->"ClientRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","SetLevelRequest">>>>>>],
  [f|->"ClientRequest.From<CompleteRequest>",o|->"ClientRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","CompleteRequest">>>>>>],
  [f|->"ClientResult.From<CreateMessageResult>",o|->"ClientResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","CreateMessageResult">>>>>>],
  [f|->"ClientResult.From<ListRootsResult>",o|->"ClientResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListRootsResult">>>>>>],
  [f|->"ClientResult.From<Result>",o|->"ClientResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","Result">>>>>>],
  [f|->"CompleteRequest.new",o|->"CompleteRequest",n|->"new",s|->"",a|-><<<<"params",<<"ref","CompleteRequestParams">>>>>>],
  [f|->"CompleteRequest.method",o|->"CompleteRequest",n|->"method",s|->"ref",a|-><<>>],
  [f|->"CompleteRequest.method_value",o|->"CompleteRequest",n|->"method_value",s|->"",a|-><<>>],
  [f|->"CompleteRequest.method_name",o|->"CompleteRequest",n|->"method_name",s|->"",a|-><<>>],
  [f|->"CompleteRequestRef.From<PromptReference>",o|->"CompleteRequestRef",n|->"From",s|->"",a|-><<<<"value",<<"ref","PromptReference">>>>>>],
  [f|->"CompleteRequestRef.From<ResourceReference>",o|->"CompleteRequestRef",n|->"From",s|->"",a|-><<<<"value",<<"ref","ResourceReference">>>>>>],
  [f|->"CreateMessageRequest.new",o|->"CreateMessageRequest",n|->"new",s|->"",a|-><<<<"params",<<"ref","CreateMessageRequestParams">>>>>>],
  [f|->"CreateMessageRequest.method",o|->"CreateMessageRequest",n|->"method",s|->"ref",a|-><<>>],
  [f|->"CreateMessageRequest.method_value",o|->"CreateMessageRequest",n|->"method_value",s|->"",a|-><<>>],
  [f|->"CreateMessageRequest.method_name",o|->"CreateMessageRequest",n|->"method_name",s|->"",a|-><<>>],
  [f|->"CreateMessageResultContent.From<TextContent>",o|->"CreateMessageResultContent",n|->"From",s|->"",a|-><<<<"value",<<"ref","TextContent">>>>>>],
  [f|->"CreateMessageResultContent.From<ImageContent>",o|->"CreateMessageResultContent",n|->"From",s|->"",a|-><<<<"value",<<"ref","ImageContent">>>>>>],
  [f|->"EmbeddedResource.new",o|->"EmbeddedResource",n|->"new",s|->"",a|-><<<<"resource",<<"ref","EmbeddedResourceResource">>>>,<<"annotations",<<"opt",<<"ref","EmbeddedResourceAnnotations">>>>>>>>],
  [f|->"EmbeddedResource.type_",o|->"EmbeddedResource",n|->"type_",s|->"ref",a|-><<>>],
  [f|->"EmbeddedResource.type_value",o|->"EmbeddedResource",n|->"type_value",s|->"",a|-><<>>],
  [f|->"EmbeddedResource.type_name",o|->"EmbeddedResource",n|->"type_name",s|->"",a|-><<>>],
  [f|->"EmbeddedResourceResource.From<TextResourceContents>",o|->"EmbeddedResourceResource",n|->"From",s|->"",a|-><<<<"value",<<"ref","TextResourceContents">>>>>>],
  [f|->"EmbeddedResourceResource.From<BlobResourceContents>",o|->"EmbeddedResourceResource",n|->"From",s|->"",a|-><<<<"value",<<"ref","BlobResourceContents">>>>>>],
  [f|->"GetPromptRequest.new",o|->"GetPromptRequest",n|->"new",s|->"",a|-><<<<"params",<<"ref","GetPromptRequestParams">>>>>>],
  [f|->"GetPromptRequest.method",o|->"GetPromptRequest",n|->"method",s|->"ref",a|-><<>>],
  [f|->"GetPromptRequest.method_value",o|->"GetPromptRequest",n|->"method_value",s|->"",a|-><<>>],
  [f|->"GetPromptRequest.method_name",o|->"GetPromptRequest",n|->"method_name",s|->"",a|-><<>>],
  [f|->"ImageContent.new",o|->"ImageContent",n|->"new",s|->"",a|-><<<<"data",<<"str">>>>,<<"mime_type",<<"str">>>>,<<"annotations",<<"opt",<<"ref","ImageContentAnnotations">>>>>>>>],
  [f|->"ImageContent.type_",o|->"ImageContent",n|->"type_",s|->"ref",a|-><<>>],
  [f|->"ImageContent.type_value",o|->"ImageContent",n|->"type_value",s|->"",a|-><<>>],
  [f|->"ImageContent.type_name",o|->"ImageContent",n|->"type_name",s|->"",a|-><<>>],
  [f|->"IncludeContext.Display",o|->"IncludeContext",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"InitializeRequest.new",o|->"InitializeRequest",n|->"new",s|->"",a|-><<<<"params",<<"ref","InitializeRequestParams">>>>>>],
  [f|->"InitializeRequest.method",o|->"InitializeRequest",n|->"method",s|->"ref",a|-><<>>],
  [f|->"InitializeRequest.method_value",o|->"InitializeRequest",n|->"method_value",s|->"",a|-><<>>],
  [f|->"InitializeRequest.method_name",o|->"InitializeRequest",n|->"method_name",s|->"",a|-><<>>],
  [f|->"InitializedNotification.new",o|->"InitializedNotification",n|->"new",s|->"",a|-><<<<"params",<<"opt",<<"ref","InitializedNotificationParams">>>>>>>>],
  [f|->"InitializedNotification.method",o|->"InitializedNotification",n|->"method",s|->"ref",a|-><<>>],
  [f|->"InitializedNotification.method_value",o|->"InitializedNotification",n|->"method_value",s|->"",a|-><<>>],
  [f|->"InitializedNotification.method_name",o|->"InitializedNotification",n|->"method_name",s|->"",a|-><<>>],
  [f|->"JsonrpcError.new",o|->"JsonrpcError",n|->"new",s|->"",a|-><<<<"error",<<"ref","RpcError">>>>,<<"id",<<"ref","RequestId">>>>>>],
  [f|->"JsonrpcError.jsonrpc",o|->"JsonrpcError",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"JsonrpcMessage.From<JsonrpcRequest>",o|->"JsonrpcMessage",n|->"From",s|->"",a|-><<<<"value",<<"ref","JsonrpcRequest">>>>>>],
  [f|->"JsonrpcMessage.From<JsonrpcNotification>",o|->"JsonrpcMessage",n|->"From",s|->"",a|-><<<<"value",<<"ref","JsonrpcNotification">>>>>>],
  [f|->"JsonrpcMessage.From<JsonrpcResponse>",o|->"JsonrpcMessage",n|->"From",s|->"",a|-><<<<"value",<<"ref","JsonrpcResponse">>>>>>],
  [f|->"JsonrpcMessage.From<JsonrpcError>",o|->"JsonrpcMessage",n|->"From",s|->"",a|-><<<<"value",<<"ref","JsonrpcError">>>>>>],
  [f|->"JsonrpcNotification.new",o|->"JsonrpcNotification",n|->"new",s|->"",a|-><<<<"method",<<"str">>>>,<<"params",<<"opt",<<"ref","JsonrpcNotificationParams">>>>>>>>],
  [f|->"JsonrpcNotification.jsonrpc",o|->"JsonrpcNotification",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"JsonrpcRequest.new",o|->"JsonrpcRequest",n|->"new",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"method",<<"str">>>>,<<"params",<<"opt",<<"ref","JsonrpcRequestParams">>>>>>>>],
  [f|->"JsonrpcRequest.jsonrpc",o|->"JsonrpcRequest",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"JsonrpcResponse.new",o|->"JsonrpcResponse",n|->"new",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"result",<<"ref","Result">>>>>>],
  [f|->"JsonrpcResponse.jsonrpc",o|->"JsonrpcResponse",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"ListPromptsRequest.new",o|->"ListPromptsRequest",n|->"new",s|->"",a|-><<<<"params",<<"opt",<<"ref","ListPromptsRequestParams">>>>>>>>],
  [f|->"ListPromptsRequest.method",o|->"ListPromptsRequest",n|->"method",s|->"ref",a|-><<>>],
  [f|->"ListPromptsRequest.method_value",o|->"ListPromptsRequest",n|->"method_value",s|->"",a|-><<>>],
  [f|->"ListPromptsRequest.method_name",o|->"ListPromptsRequest",n|->"method_name",s|->"",a|-><<>>],
  [f|->"ListResourceTemplatesRequest.new",o|->"ListResourceTemplatesRequest",n|->"new",s|->"",a|-><<<<"params",<<"opt",<<"ref","ListResourceTemplatesRequestParams">>>>>>>>],
  [f|->"ListResourceTemplatesRequest.method",o|->"ListResourceTemplatesRequest",n|->"method",s|->"ref",a|-><<>>],
  [f|->"ListResourceTemplatesRequest.method_value",o|->"ListResourceTemplatesRequest",n|->"method_value",s|->"",a|-><<>>],
  [f|->"ListResourceTemplatesRequest.method_name",o|->"ListResourceTemplatesRequest",n|->"method_name",s|->"",a|-><<>>],
  [f|->"ListResourcesRequest.new",o|->"ListResourcesRequest",n|->"new",s|->"",a|-><<<<"params",<<"opt",<<"ref","ListResourcesRequestParams">>>>>>>>],
  [f|->"ListResourcesRequest.method",o|->"ListResourcesRequest",n|->"method",s|->"ref",a|-><<>>],
  [f|->"ListResourcesRequest.method_value",o|->"ListResourcesRequest",n|->"method_value",s|->"",a|-><<>>],
  [f|->"ListResourcesRequest.method_name",o|->"ListResourcesRequest",n|->"method_name",s|->"",a|-><<>>],
  [f|->"ListRootsRequest.new",o|->"ListRootsRequest",n|->"new",s|->"",a|-><<<<"params",<<"opt",<<"ref","ListRootsRequestParams">>>>>>>>],
  [f|->"ListRootsRequest.method",o|->"ListRootsRequest",n|->"method",s|->"ref",a|-><<>>],
  [f|->"ListRootsRequest.method_value",o|->"ListRootsRequest",n|->"method_value",s|->"",a|-><<>>],
  [f|->"ListRootsRequest.method_name",o|->"ListRootsRequest",n|->"method_name",s|->"",a|-><<>>],
  [f|->"ListToolsRequest.new",o|->"ListToolsRequest",n|->"new",s|->"",a|-><<<<"params",<<"opt",<<"ref","ListToolsRequestParams">>>>>>>>],
  [f|->"ListToolsRequest.method",o|->"ListToolsRequest",n|->"method",s|->"ref",a|-><<>>],
  [f|->"ListToolsRequest.method_value",o|->"ListToolsRequest",n|->"method_value",s|->"",a|-><<>>],
  [f|->"ListToolsRequest.method_name",o|->"ListToolsRequest",n|->"method_name",s|->"",a|-><<>>],
  [f|->"LoggingLevel.Display",o|->"LoggingLevel",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"LoggingMessageNotification.new",o|->"LoggingMessageNotification",n|->"new",s|->"",a|-><<<<"params",<<"ref","LoggingMessageNotificationParams">>>>>>],
  [f|->"LoggingMessageNotification.method",o|->"LoggingMessageNotification",n|->"method",s|->"ref",a|-><<>>],
  [f|->"LoggingMessageNotification.method_value",o|->"LoggingMessageNotification",n|->"method_value",s|->"",a|-><<>>],
  [f|->"LoggingMessageNotification.method_name",o|->"LoggingMessageNotification",n|->"method_name",s|->"",a|-><<>>],
  [f|->"PingRequest.new",o|->"PingRequest",n|->"new",s|->"",a|-><<<<"params",<<"opt",<<"ref","PingRequestParams">>>>>>>>],
  [f|->"PingRequest.method",o|->"PingRequest",n|->"method",s|->"ref",a|-><<>>],
  [f|->"PingRequest.method_value",o|->"PingRequest",n|->"method_value",s|->"",a|-><<>>],
  [f|->"PingRequest.method_name",o|->"PingRequest",n|->"method_name",s|->"",a|-><<>>],
  [f|->"ProgressNotification.new",o|->"ProgressNotification",n|->"new",s|->"",a|-><<<<"params",<<"ref","ProgressNotificationParams">>>>>>],
  [f|->"ProgressNotification.method",o|->"ProgressNotification",n|->"method",s|->"ref",a|-><<>>],
  [f|->"ProgressNotification.method_value",o|->"ProgressNotification",n|->"method_value",s|->"",a|-><<>>],
  [f|->"ProgressNotification.method_name",o|->"ProgressNotification",n|->"method_name",s|->"",a|-><<>>],
  [f|->"ProgressToken.From<i64>",o|->"ProgressToken",n|->"From",s|->"",a|-><<<<"value",<<"i64">>>>>>],
  [f|->"PromptListChangedNotification.new",o|->"PromptListChangedNotification",n|->"new",s|->"",a|-><<<<"params",<<"opt",<<"ref","PromptListChangedNotificationParams">>>>>>>>],
  [f|->"PromptListChangedNotification.method",o|->"PromptListChangedNotification",n|->"method",s|->"ref",a|-><<>>],
  [f|->"PromptListChangedNotification.method_value",o|->"PromptListChangedNotification",n|->"method_value",s|->"",a|-><<>>],
  [f|->"PromptListChangedNotification.method_name",o|->"PromptListChangedNotification",n|->"method_name",s|->"",a|-><<>>],
  [f|->"PromptMessageContent.From<TextContent>",o|->"PromptMessageContent",n|->"From",s|->"",a|-><<<<"value",<<"ref","TextContent">>>>>>],
  [f|->"PromptMessageContent.From<ImageContent>",o|->"PromptMessageContent",n|->"From",s|->"",a|-><<<<"value",<<"ref","ImageContent">>>>>>],
  [f|->"PromptMessageContent.From<EmbeddedResource>",o|->"PromptMessageContent",n|->"From",s|->"",a|-><<<<"value",<<"ref","EmbeddedResource">>>>>>],
  [f|->"PromptReference.new",o|->"PromptReference",n|->"new",s|->"",a|-><<<<"name",<<"str">>>>>>],
  [f|->"PromptReference.type_",o|->"PromptReference",n|->"type_",s|->"ref",a|-><<>>],
  [f|->"PromptReference.type_value",o|->"PromptReference",n|->"type_value",s|->"",a|-><<>>],
  [f|->"PromptReference.type_name",o|->"PromptReference",n|->"type_name",s|->"",a|-><<>>],
  [f|->"ReadResourceContent.From<TextResourceContents>",o|->"ReadResourceContent",n|->"From",s|->"",a|-><<<<"value",<<"ref","TextResourceContents">>>>>>],
  [f|->"ReadResourceContent.From<BlobResourceContents>",o|->"ReadResourceContent",n|->"From",s|->"",a|-><<<<"value",<<"ref","BlobResourceContents">>>>>>],
  [f|->"ReadResourceRequest.new",o|->"ReadResourceRequest",n|->"new",s|->"",a|-><<<<"params",<<"ref","ReadResourceRequestParams">>>>>>],
  [f|->"ReadResourceRequest.method",o|->"ReadResourceRequest",n|->"method",s|->"ref",a|-><<>>],
  [f|->"ReadResourceRequest.method_value",o|->"ReadResourceRequest",n|->"method_value",s|->"",a|-><<>>],
  [f|->"ReadResourceRequest.method_name",o|->"ReadResourceRequest",n|->"method_name",s|->"",a|-><<>>],
  [f|->"RequestId.From<i64>",o|->"RequestId",n|->"From",s|->"",a|-><<<<"value",<<"i64">>>>>>],
  [f|->"ResourceListChangedNotification.new",o|->"ResourceListChangedNotification",n|->"new",s|->"",a|-><<<<"params",<<"opt",<<"ref","ResourceListChangedNotificationParams">>>>>>>>],
  [f|->"ResourceListChangedNotification.method",o|->"ResourceListChangedNotification",n|->"method",s|->"ref",a|-><<>>],
  [f|->"ResourceListChangedNotification.method_value",o|->"ResourceListChangedNotification",n|->"method_value",s|->"",a|-><<>>],
  [f|->"ResourceListChangedNotification.method_name",o|->"ResourceListChangedNotification",n|->"method_name",s|->"",a|-><<>>],
  [f|->"ResourceReference.new",o|->"ResourceReference",n|->"new",s|->"",a|-><<<<"uri",<<"str">>>>>>],
  [f|->"ResourceReference.type_",o|->"ResourceReference",n|->"type_",s|->"ref",a|-><<>>],
  [f|->"ResourceReference.type_value",o|->"ResourceReference",n|->"type_value",s|->"",a|-><<>>],
  [f|->"ResourceReference.type_name",o|->"ResourceReference",n|->"type_name",s|->"",a|-><<>>],
  [f|->"ResourceUpdatedNotification.new",o|->"ResourceUpdatedNotification",n|->"new",s|->"",a|-><<<<"params",<<"ref","ResourceUpdatedNotificationParams">>>>>>],
  [f|->"ResourceUpdatedNotification.method",o|->"ResourceUpdatedNotification",n|->"method",s|->"ref",a|-><<>>],
  [f|->"ResourceUpdatedNotification.method_value",o|->"ResourceUpdatedNotification",n|->"method_value",s|->"",a|-><<>>],
  [f|->"ResourceUpdatedNotification.method_name",o|->"ResourceUpdatedNotification",n|->"method_name",s|->"",a|-><<>>],
  [f|->"Role.Display",o|->"Role",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"RootsListChangedNotification.new",o|->"RootsListChangedNotification",n|->"new",s|->"",a|-><<<<"params",<<"opt",<<"ref","RootsListChangedNotificationParams">>>>>>>>],
  [f|->"RootsListChangedNotification.method",o|->"RootsListChangedNotification",n|->"method",s|->"ref",a|-><<>>],
  [f|->"RootsListChangedNotification.method_value",o|->"RootsListChangedNotification",n|->"method_value",s|->"",a|-><<>>],
  [f|->"RootsListChangedNotification.method_name",o|->"RootsListChangedNotification",n|->"method_name",s|->"",a|-><<>>],
  [f|->"SamplingMessageContent.From<TextContent>",o|->"SamplingMessageContent",n|->"From",s|->"",a|-><<<<"value",<<"ref","TextContent">>>>>>],
  [f|->"SamplingMessageContent.From<ImageContent>",o|->"SamplingMessageContent",n|->"From",s|->"",a|-><<<<"value",<<"ref","ImageContent">>>>>>],
  [f|->"ServerNotification.From<CancelledNotification>",o|->"ServerNotification",n|->"From",s|->"",a|-><<<<"value",<<"ref","CancelledNotification">>>>>>],
  [f|->"ServerNotification.From<ProgressNotification>",o|->"ServerNotification",n|->"From",s|->"",a|-><<<<"value",<<"ref","ProgressNotification">>>>>>],
  [f|->"ServerNotification.From<ResourceListChangedNotification>",o|->"ServerNotification",n|->"From",s|->"",a|-><<<<"value",<<"ref","ResourceListChangedNotification">>>>>>],
  [f|->"ServerNotification.From<ResourceUpdatedNotification>",o|->"ServerNotification",n|->"From",s|->"",a|-><<<<"value",<<"ref","ResourceUpdatedNotification">>>>>>],
  [f|->"ServerNotification.From<PromptListChangedNotification>",o|->"ServerNotification",n|->"From",s|->"",a|-><<<<"value",<<"ref","PromptListChangedNotification">>>>>>],
  [f|->"ServerNotification.From<ToolListChangedNotification>",o|->"ServerNotification",n|->"From",s|->"",a|-><<<<"value",<<"ref","ToolListChangedNotification">>>>>>],
  [f|->"ServerNotification.From<LoggingMessageNotification>",o|->"ServerNotification",n|->"From",s|->"",a|-><<<<"value",<<"ref","LoggingMessageNotification">>>>>>],
  [f|->"ServerRequest.From<PingRequest>",o|->"ServerRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","PingRequest">>>>>>],
  [f|->"ServerRequest.From<CreateMessageRequest>",o|->"ServerRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","CreateMessageRequest">>>>>>],
  [f|->"ServerRequest.From<ListRootsRequest>",o|->"ServerRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListRootsRequest">>>>>>],
  [f|->"ServerResult.From<InitializeResult>",o|->"ServerResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","InitializeResult">>>>>>],
  [f|->"ServerResult.From<ListResourcesResult>",o|->"ServerResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListResourcesResult">>>>>>],
  [f|->"ServerResult.From<ListResourceTemplatesResult>",o|->"ServerResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListResourceTemplatesResult">>>>>>],
  [f|->"ServerResult.From<ReadResourceResult>",o|->"ServerResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","ReadResourceResult">>>>>>],
  [f|->"ServerResult.From<ListPromptsResult>",o|->"ServerResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListPromptsResult">>>>>>],
  [f|->"ServerResult.From<GetPromptResult>",o|->"ServerResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","GetPromptResult">>>>>>],
  [f|->"ServerResult.From<ListToolsResult>",o|->"ServerResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListToolsResult">>>>>>],
  [f|->"ServerResult.From<CallToolResult>",o|->"ServerResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","CallToolResult">>>>>>],
  [f|->"ServerResult.From<CompleteResult>",o|->"ServerResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","CompleteResult">>>>>>],
  [f|->"ServerResult.From<Result>",o|->"ServerResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","Result">>>>>>],
  [f|->"SetLevelRequest.new",o|->"SetLevelRequest",n|->"new",s|->"",a|-><<<<"params",<<"ref","SetLevelRequestParams">>>>>>],
  [f|->"SetLevelRequest.method",o|->"SetLevelRequest",n|->"method",s|->"ref",a|-><<>>],
  [f|->"SetLevelRequest.method_value",o|->"SetLevelRequest",n|->"method_value",s|->"",a|-><<>>],
  [f|->"SetLevelRequest.method_name",o|->"SetLevelRequest",n|->"method_name",s|->"",a|-><<>>],
  [f|->"SubscribeRequest.new",o|->"SubscribeRequest",n|->"new",s|->"",a|-><<<<"params",<<"ref","SubscribeRequestParams">>>>>>],
  [f|->"SubscribeRequest.method",o|->"SubscribeRequest",n|->"method",s|->"ref",a|-><<>>],
  [f|->"SubscribeRequest.method_value",o|->"SubscribeRequest",n|->"method_value",s|->"",a|-><<>>],
  [f|->"SubscribeRequest.method_name",o|->"SubscribeRequest",n|->"method_name",s|->"",a|-><<>>],
  [f|->"TextContent.new",o|->"TextContent",n|->"new",s|->"",a|-><<<<"text",<<"str">>>>,<<"annotations",<<"opt",<<"ref","TextContentAnnotations">>>>>>>>],
  [f|->"TextContent.type_",o|->"TextContent",n|->"type_",s|->"ref",a|-><<>>],
  [f|->"TextContent.type_value",o|->"TextContent",n|->"type_value",s|->"",a|-><<>>],
  [f|->"TextContent.type_name",o|->"TextContent",n|->"type_name",s|->"",a|-><<>>],
  [f|->"ToolInputSchema.new",o|->"ToolInputSchema",n|->"new",s|->"",a|-><<<<"required",<<"vec",<<"str">>>>>>,<<"properties",<<"opt",<<"hmap",<<"map">>>>>>>>>>],
  [f|->"ToolInputSchema.type_",o|->"ToolInputSchema",n|->"type_",s|->"ref",a|-><<>>],
  [f|->"ToolInputSchema.type_value",o|->"ToolInputSchema",n|->"type_value",s|->"",a|-><<>>],
  [f|->"ToolInputSchema.type_name",o|->"ToolInputSchema",n|->"type_name",s|->"",a|-><<>>],
  [f|->"ToolListChangedNotification.new",o|->"ToolListChangedNotification",n|->"new",s|->"",a|-><<<<"params",<<"opt",<<"ref","ToolListChangedNotificationParams">>>>>>>>],
  [f|->"ToolListChangedNotification.method",o|->"ToolListChangedNotification",n|->"method",s|->"ref",a|-><<>>],
  [f|->"ToolListChangedNotification.method_value",o|->"ToolListChangedNotification",n|->"method_value",s|->"",a|-><<>>],
  [f|->"ToolListChangedNotification.method_name",o|->"ToolListChangedNotification",n|->"method_name",s|->"",a|-><<>>],
  [f|->"UnsubscribeRequest.new",o|->"UnsubscribeRequest",n|->"new",s|->"",a|-><<<<"params",<<"ref","UnsubscribeRequestParams">>>>>>],
  [f|->"UnsubscribeRequest.method",o|->"UnsubscribeRequest",n|->"method",s|->"ref",a|-><<>>],
  [f|->"UnsubscribeRequest.method_value",o|->"UnsubscribeRequest",n|->"method_value",s|->"",a|-><<>>],
  [f|->"UnsubscribeRequest.method_name",o|->"UnsubscribeRequest",n|->"method_name",s|->"",a|-><<>>],
  [f|->"ClientRequest.method",o|->"ClientRequest",n|->"method",s|->"ref",a|-><<>>],
  [f|->"ClientNotification.method",o|->"ClientNotification",n|->"method",s|->"ref",a|-><<>>],
  [f|->"ServerRequest.method",o|->"ServerRequest",n|->"method",s|->"ref",a|-><<>>],
  [f|->"ServerNotification.method",o|->"ServerNotification",n|->"method",s|->"ref",a|-><<>>],
  [f|->"GenericResult.From<InitializeResult>",o|->"GenericResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","InitializeResult">>>>>>],
  [f|->"GenericResult.From<ListResourcesResult>",o|->"GenericResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListResourcesResult">>>>>>],
  [f|->"GenericResult.From<ListResourceTemplatesResult>",o|->"GenericResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListResourceTemplatesResult">>>>>>],
  [f|->"GenericResult.From<ReadResourceResult>",o|->"GenericResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","ReadResourceResult">>>>>>],
  [f|->"GenericResult.From<ListPromptsResult>",o|->"GenericResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListPromptsResult">>>>>>],
  [f|->"GenericResult.From<GetPromptResult>",o|->"GenericResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","GetPromptResult">>>>>>],
  [f|->"GenericResult.From<ListToolsResult>",o|->"GenericResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListToolsResult">>>>>>],
  [f|->"GenericResult.From<CallToolResult>",o|->"GenericResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","CallToolResult">>>>>>],
  [f|->"GenericResult.From<CompleteResult>",o|->"GenericResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","CompleteResult">>>>>>],
  [f|->"MessageTypes.Display",o|->"MessageTypes",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"RequestId.Display",o|->"RequestId",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"ClientMessage.as_response",o|->"ClientMessage",n|->"as_response",s|->"self",a|-><<>>],
  [f|->"ClientMessage.as_request",o|->"ClientMessage",n|->"as_request",s|->"self",a|-><<>>],
  [f|->"ClientMessage.as_notification",o|->"ClientMessage",n|->"as_notification",s|->"self",a|-><<>>],
  [f|->"ClientMessage.as_error",o|->"ClientMessage",n|->"as_error",s|->"self",a|-><<>>],
  [f|->"ClientMessage.is_initialize_request",o|->"ClientMessage",n|->"is_initialize_request",s|->"ref",a|-><<>>],
  [f|->"ClientMessage.is_initialized_notification",o|->"ClientMessage",n|->"is_initialized_notification",s|->"ref",a|-><<>>],
  [f|->"ClientMessage.From<ClientJsonrpcNotification>",o|->"ClientMessage",n|->"From",s|->"",a|-><<<<"value",<<"ref","ClientJsonrpcNotification">>>>>>],
  [f|->"ClientMessage.From<ClientJsonrpcRequest>",o|->"ClientMessage",n|->"From",s|->"",a|-><<<<"value",<<"ref","ClientJsonrpcRequest">>>>>>],
  [f|->"ClientMessage.From<ClientJsonrpcResponse>",o|->"ClientMessage",n|->"From",s|->"",a|-><<<<"value",<<"ref","ClientJsonrpcResponse">>>>>>],
  [f|->"ClientMessage.request_id",o|->"ClientMessage",n|->"request_id",s|->"ref",a|-><<>>],
  [f|->"ClientMessage.jsonrpc",o|->"ClientMessage",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"ClientMessage.is_response",o|->"ClientMessage",n|->"is_response",s|->"ref",a|-><<>>],
  [f|->"ClientMessage.is_request",o|->"ClientMessage",n|->"is_request",s|->"ref",a|-><<>>],
  [f|->"ClientMessage.is_notification",o|->"ClientMessage",n|->"is_notification",s|->"ref",a|-><<>>],
  [f|->"ClientMessage.is_error",o|->"ClientMessage",n|->"is_error",s|->"ref",a|-><<>>],
  [f|->"ClientMessage.message_type",o|->"ClientMessage",n|->"message_type",s|->"ref",a|-><<>>],
  [f|->"ClientJsonrpcRequest.new",o|->"ClientJsonrpcRequest",n|->"new",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"request",<<"ref","RequestFromClient">>>>>>],
  [f|->"ClientJsonrpcRequest.jsonrpc",o|->"ClientJsonrpcRequest",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"ClientJsonrpcRequest.Display",o|->"ClientJsonrpcRequest",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"ClientJsonrpcRequest.FromStr",o|->"ClientJsonrpcRequest",n|->"FromStr",s|->"",a|-><<<<"s",<<"str">>>>>>],
  [f|->"ClientRequest.TryFrom<RequestFromClient>",o|->"ClientRequest",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","RequestFromClient">>>>>>],
  [f|->"RequestFromClient.method",o|->"RequestFromClient",n|->"method",s|->"ref",a|-><<>>],
  [f|->"RequestFromClient.is_initialize_request",o|->"RequestFromClient",n|->"is_initialize_request",s|->"ref",a|-><<>>],
  [f|->"RequestFromClient.From<ClientRequest>",o|->"RequestFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","ClientRequest">>>>>>],
  [f|->"RequestFromClient.From<Value>",o|->"RequestFromClient",n|->"From",s|->"",a|-><<<<"value",<<"val">>>>>>],
  [f|->"ClientJsonrpcNotification.new",o|->"ClientJsonrpcNotification",n|->"new",s|->"",a|-><<<<"notification",<<"ref","NotificationFromClient">>>>>>],
  [f|->"ClientJsonrpcNotification.jsonrpc",o|->"ClientJsonrpcNotification",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"ClientJsonrpcNotification.Display",o|->"ClientJsonrpcNotification",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"ClientJsonrpcNotification.FromStr",o|->"ClientJsonrpcNotification",n|->"FromStr",s|->"",a|-><<<<"s",<<"str">>>>>>],
  [f|->"ClientNotification.TryFrom<NotificationFromClient>",o|->"ClientNotification",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","NotificationFromClient">>>>>>],
  [f|->"NotificationFromClient.is_initialized_notification",o|->"NotificationFromClient",n|->"is_initialized_notification",s|->"ref",a|-><<>>],
  [f|->"ClientJsonrpcResponse.new",o|->"ClientJsonrpcResponse",n|->"new",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"result",<<"ref","ResultFromClient">>>>>>],
  [f|->"ClientJsonrpcResponse.jsonrpc",o|->"ClientJsonrpcResponse",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"ClientJsonrpcResponse.Display",o|->"ClientJsonrpcResponse",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"ClientJsonrpcResponse.FromStr",o|->"ClientJsonrpcResponse",n|->"FromStr",s|->"",a|-><<<<"s",<<"str">>>>>>],
  [f|->"ClientResult.TryFrom<ResultFromClient>",o|->"ClientResult",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","ResultFromClient">>>>>>],
  [f|->"ResultFromClient.From<ClientResult>",o|->"ResultFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","ClientResult">>>>>>],
  [f|->"ResultFromClient.From<Value>",o|->"ResultFromClient",n|->"From",s|->"",a|-><<<<"value",<<"val">>>>>>],
  [f|->"ClientMessage.FromStr",o|->"ClientMessage",n|->"FromStr",s|->"",a|-><<<<"s",<<"str">>>>>>],
  [f|->"ClientMessage.Display",o|->"ClientMessage",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"ServerMessage.as_response",o|->"ServerMessage",n|->"as_response",s|->"self",a|-><<>>],
  [f|->"ServerMessage.as_request",o|->"ServerMessage",n|->"as_request",s|->"self",a|-><<>>],
  [f|->"ServerMessage.as_notification",o|->"ServerMessage",n|->"as_notification",s|->"self",a|-><<>>],
  [f|->"ServerMessage.as_error",o|->"ServerMessage",n|->"as_error",s|->"self",a|-><<>>],
  [f|->"ServerMessage.From<ServerJsonrpcNotification>",o|->"ServerMessage",n|->"From",s|->"",a|-><<<<"value",<<"ref","ServerJsonrpcNotification">>>>>>],
  [f|->"ServerMessage.From<ServerJsonrpcRequest>",o|->"ServerMessage",n|->"From",s|->"",a|-><<<<"value",<<"ref","ServerJsonrpcRequest">>>>>>],
  [f|->"ServerMessage.From<ServerJsonrpcResponse>",o|->"ServerMessage",n|->"From",s|->"",a|-><<<<"value",<<"ref","ServerJsonrpcResponse">>>>>>],
  [f|->"ServerMessage.request_id",o|->"ServerMessage",n|->"request_id",s|->"ref",a|-><<>>],
  [f|->"ServerMessage.jsonrpc",o|->"ServerMessage",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"ServerMessage.is_response",o|->"ServerMessage",n|->"is_response",s|->"ref",a|-><<>>],
  [f|->"ServerMessage.is_request",o|->"ServerMessage",n|->"is_request",s|->"ref",a|-><<>>],
  [f|->"ServerMessage.is_notification",o|->"ServerMessage",n|->"is_notification",s|->"ref",a|-><<>>],
  [f|->"ServerMessage.is_error",o|->"ServerMessage",n|->"is_error",s|->"ref",a|-><<>>],
  [f|->"ServerMessage.message_type",o|->"ServerMessage",n|->"message_type",s|->"ref",a|-><<>>],
  [f|->"ServerMessage.FromStr",o|->"ServerMessage",n|->"FromStr",s|->"",a|-><<<<"s",<<"str">>>>>>],
  [f|->"ServerMessage.Display",o|->"ServerMessage",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"ServerJsonrpcRequest.new",o|->"ServerJsonrpcRequest",n|->"new",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"request",<<"ref","RequestFromServer">>>>>>],
  [f|->"ServerJsonrpcRequest.jsonrpc",o|->"ServerJsonrpcRequest",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"ServerJsonrpcRequest.Display",o|->"ServerJsonrpcRequest",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"ServerJsonrpcRequest.FromStr",o|->"ServerJsonrpcRequest",n|->"FromStr",s|->"",a|-><<<<"s",<<"str">>>>>>],
  [f|->"ServerRequest.TryFrom<RequestFromServer>",o|->"ServerRequest",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","RequestFromServer">>>>>>],
  [f|->"RequestFromServer.method",o|->"RequestFromServer",n|->"method",s|->"ref",a|-><<>>],
  [f|->"RequestFromServer.From<ServerRequest>",o|->"RequestFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","ServerRequest">>>>>>],
  [f|->"RequestFromServer.From<Value>",o|->"RequestFromServer",n|->"From",s|->"",a|-><<<<"value",<<"val">>>>>>],
  [f|->"ServerJsonrpcNotification.new",o|->"ServerJsonrpcNotification",n|->"new",s|->"",a|-><<<<"notification",<<"ref","NotificationFromServer">>>>>>],
  [f|->"ServerJsonrpcNotification.jsonrpc",o|->"ServerJsonrpcNotification",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"ServerJsonrpcNotification.Display",o|->"ServerJsonrpcNotification",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"ServerJsonrpcNotification.FromStr",o|->"ServerJsonrpcNotification",n|->"FromStr",s|->"",a|-><<<<"s",<<"str">>>>>>],
  [f|->"ServerNotification.TryFrom<NotificationFromServer>",o|->"ServerNotification",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","NotificationFromServer">>>>>>],
  [f|->"NotificationFromServer.method",o|->"NotificationFromServer",n|->"method",s|->"ref",a|-><<>>],
  [f|->"ServerJsonrpcResponse.new",o|->"ServerJsonrpcResponse",n|->"new",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"result",<<"ref","ResultFromServer">>>>>>],
  [f|->"ServerJsonrpcResponse.jsonrpc",o|->"ServerJsonrpcResponse",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"ServerJsonrpcResponse.Display",o|->"ServerJsonrpcResponse",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"ServerJsonrpcResponse.FromStr",o|->"ServerJsonrpcResponse",n|->"FromStr",s|->"",a|-><<<<"s",<<"str">>>>>>],
  [f|->"ServerResult.TryFrom<ResultFromServer>",o|->"ServerResult",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","ResultFromServer">>>>>>],
  [f|->"ResultFromServer.From<ServerResult>",o|->"ResultFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","ServerResult">>>>>>],
  [f|->"ResultFromServer.From<Value>",o|->"ResultFromServer",n|->"From",s|->"",a|-><<<<"value",<<"val">>>>>>],
  [f|->"JsonrpcError.Display",o|->"JsonrpcError",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"JsonrpcError.FromStr",o|->"JsonrpcError",n|->"FromStr",s|->"",a|-><<<<"s",<<"str">>>>>>],
  [f|->"MessageFromServer.From<RequestFromServer>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","RequestFromServer">>>>>>],
  [f|->"MessageFromServer.From<ResultFromServer>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","ResultFromServer">>>>>>],
  [f|->"MessageFromServer.From<NotificationFromServer>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","NotificationFromServer">>>>>>],
  [f|->"MessageFromServer.From<RpcError>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","RpcError">>>>>>],
  [f|->"MessageFromServer.is_response",o|->"MessageFromServer",n|->"is_response",s|->"ref",a|-><<>>],
  [f|->"MessageFromServer.is_request",o|->"MessageFromServer",n|->"is_request",s|->"ref",a|-><<>>],
  [f|->"MessageFromServer.is_notification",o|->"MessageFromServer",n|->"is_notification",s|->"ref",a|-><<>>],
  [f|->"MessageFromServer.is_error",o|->"MessageFromServer",n|->"is_error",s|->"ref",a|-><<>>],
  [f|->"MessageFromServer.message_type",o|->"MessageFromServer",n|->"message_type",s|->"ref",a|-><<>>],
  [f|->"ServerMessage.FromMessage<MessageFromServer>",o|->"ServerMessage",n|->"FromMessage",s|->"",a|-><<<<"message",<<"ref","MessageFromServer">>>>,<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"MessageFromClient.is_initialize_request",o|->"MessageFromClient",n|->"is_initialize_request",s|->"ref",a|-><<>>],
  [f|->"MessageFromClient.is_initialized_notification",o|->"MessageFromClient",n|->"is_initialized_notification",s|->"ref",a|-><<>>],
  [f|->"MessageFromClient.From<RequestFromClient>",o|->"MessageFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","RequestFromClient">>>>>>],
  [f|->"MessageFromClient.From<ResultFromClient>",o|->"MessageFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","ResultFromClient">>>>>>],
  [f|->"MessageFromClient.From<NotificationFromClient>",o|->"MessageFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","NotificationFromClient">>>>>>],
  [f|->"MessageFromClient.From<RpcError>",o|->"MessageFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","RpcError">>>>>>],
  [f|->"MessageFromClient.is_response",o|->"MessageFromClient",n|->"is_response",s|->"ref",a|-><<>>],
  [f|->"MessageFromClient.is_request",o|->"MessageFromClient",n|->"is_request",s|->"ref",a|-><<>>],
  [f|->"MessageFromClient.is_notification",o|->"MessageFromClient",n|->"is_notification",s|->"ref",a|-><<>>],
  [f|->"MessageFromClient.is_error",o|->"MessageFromClient",n|->"is_error",s|->"ref",a|-><<>>],
  [f|->"MessageFromClient.message_type",o|->"MessageFromClient",n|->"message_type",s|->"ref",a|-><<>>],
  [f|->"ClientMessage.FromMessage<MessageFromClient>",o|->"ClientMessage",n|->"FromMessage",s|->"",a|-><<<<"message",<<"ref","MessageFromClient">>>>,<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"UnknownTool.Display",o|->"UnknownTool",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"CallToolError.unknown_tool",o|->"CallToolError",n|->"unknown_tool",s|->"",a|-><<<<"tool_name",<<"str">>>>>>],
  [f|->"CallToolError.invalid_arguments",o|->"CallToolError",n|->"invalid_arguments",s|->"",a|-><<<<"tool_name",<<"str">>>>,<<"message",<<"opt",<<"str">>>>>>>>],
  [f|->"CallToolError.from_message",o|->"CallToolError",n|->"from_message",s|->"",a|-><<<<"message",<<"str">>>>>>],
  [f|->"RpcError.From<CallToolError>",o|->"RpcError",n|->"From",s|->"",a|-><<<<"value",<<"ref","CallToolError">>>>>>],
  [f|->"CallToolError.Display",o|->"CallToolError",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"CallToolResult.From<CallToolError>",o|->"CallToolResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","CallToolError">>>>>>],
  [f|->"CallToolRequest.tool_name",o|->"CallToolRequest",n|->"tool_name",s|->"ref",a|-><<>>],
  [f|->"TextContent.From<T>",o|->"TextContent",n|->"From",s|->"",a|-><<<<"value",<<"str">>>>>>],
  [f|->"ClientMessages.is_batch",o|->"ClientMessages",n|->"is_batch",s|->"ref",a|-><<>>],
  [f|->"ClientMessages.includes_request",o|->"ClientMessages",n|->"includes_request",s|->"ref",a|-><<>>],
  [f|->"ClientMessages.as_single",o|->"ClientMessages",n|->"as_single",s|->"self",a|-><<>>],
  [f|->"ClientMessages.as_batch",o|->"ClientMessages",n|->"as_batch",s|->"self",a|-><<>>],
  [f|->"ClientMessages.From<ClientMessage>",o|->"ClientMessages",n|->"From",s|->"",a|-><<<<"value",<<"ref","ClientMessage">>>>>>],
  [f|->"ClientMessages.From<Vec<ClientMessage>>",o|->"ClientMessages",n|->"From",s|->"",a|-><<<<"value",<<"vec",<<"ref","ClientMessage">>>>>>>>],
  [f|->"ClientMessages.Display",o|->"ClientMessages",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"ServerMessages.is_batch",o|->"ServerMessages",n|->"is_batch",s|->"ref",a|-><<>>],
  [f|->"ServerMessages.includes_request",o|->"ServerMessages",n|->"includes_request",s|->"ref",a|-><<>>],
  [f|->"ServerMessages.as_single",o|->"ServerMessages",n|->"as_single",s|->"self",a|-><<>>],
  [f|->"ServerMessages.as_batch",o|->"ServerMessages",n|->"as_batch",s|->"self",a|-><<>>],
  [f|->"ServerMessages.From<ServerMessage>",o|->"ServerMessages",n|->"From",s|->"",a|-><<<<"value",<<"ref","ServerMessage">>>>>>],
  [f|->"ServerMessages.From<Vec<ServerMessage>>",o|->"ServerMessages",n|->"From",s|->"",a|-><<<<"value",<<"vec",<<"ref","ServerMessage">>>>>>>>],
  [f|->"ServerMessages.Display",o|->"ServerMessages",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"MessagesFromServer.is_batch",o|->"MessagesFromServer",n|->"is_batch",s|->"ref",a|-><<>>],
  [f|->"MessagesFromServer.includes_request",o|->"MessagesFromServer",n|->"includes_request",s|->"ref",a|-><<>>],
  [f|->"MessagesFromServer.as_single",o|->"MessagesFromServer",n|->"as_single",s|->"self",a|-><<>>],
  [f|->"MessagesFromServer.as_batch",o|->"MessagesFromServer",n|->"as_batch",s|->"self",a|-><<>>],
  [f|->"MessagesFromServer.From<MessageFromServer>",o|->"MessagesFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","MessageFromServer">>>>>>],
  [f|->"MessagesFromServer.From<Vec<MessageFromServer>>",o|->"MessagesFromServer",n|->"From",s|->"",a|-><<<<"value",<<"vec",<<"ref","MessageFromServer">>>>>>>>],
  [f|->"MessagesFromClient.is_batch",o|->"MessagesFromClient",n|->"is_batch",s|->"ref",a|-><<>>],
  [f|->"MessagesFromClient.includes_request",o|->"MessagesFromClient",n|->"includes_request",s|->"ref",a|-><<>>],
  [f|->"MessagesFromClient.as_single",o|->"MessagesFromClient",n|->"as_single",s|->"self",a|-><<>>],
  [f|->"MessagesFromClient.as_batch",o|->"MessagesFromClient",n|->"as_batch",s|->"self",a|-><<>>],
  [f|->"MessagesFromClient.From<MessageFromClient>",o|->"MessagesFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","MessageFromClient">>>>>>],
  [f|->"MessagesFromClient.From<Vec<MessageFromClient>>",o|->"MessagesFromClient",n|->"From",s|->"",a|-><<<<"value",<<"vec",<<"ref","MessageFromClient">>>>>>>>],
  [f|->"RequestFromClient.From<InitializeRequest>",o|->"RequestFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","InitializeRequest">>>>>>],
  [f|->"RequestFromClient.From<PingRequest>",o|->"RequestFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","PingRequest">>>>>>],
  [f|->"RequestFromClient.From<ListResourcesRequest>",o|->"RequestFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListResourcesRequest">>>>>>],
  [f|->"RequestFromClient.From<ListResourceTemplatesRequest>",o|->"RequestFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListResourceTemplatesRequest">>>>>>],
  [f|->"RequestFromClient.From<ReadResourceRequest>",o|->"RequestFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","ReadResourceRequest">>>>>>],
  [f|->"RequestFromClient.From<SubscribeRequest>",o|->"RequestFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","SubscribeRequest">>>>>>],
  [f|->"RequestFromClient.From<UnsubscribeRequest>",o|->"RequestFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","UnsubscribeRequest">>>>>>],
  [f|->"RequestFromClient.From<ListPromptsRequest>",o|->"RequestFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListPromptsRequest">>>>>>],
  [f|->"RequestFromClient.From<GetPromptRequest>",o|->"RequestFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","GetPromptRequest">>>>>>],
  [f|->"RequestFromClient.From<ListToolsRequest>",o|->"RequestFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListToolsRequest">>>>>>],
  [f|->"RequestFromClient.From<CallToolRequest>",o|->"RequestFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","CallToolRequest">>>>>>],
  [f|->"RequestFromClient.From<SetLevelRequest>",o|->"RequestFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","SetLevelRequest">>>>>>],
  [f|->"RequestFromClient.From<CompleteRequest>",o|->"RequestFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","CompleteRequest">>>>>>],
  [f|->"MessageFromClient.From<InitializeRequest>",o|->"MessageFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","InitializeRequest">>>>>>],
  [f|->"MessageFromClient.From<PingRequest>",o|->"MessageFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","PingRequest">>>>>>],
  [f|->"MessageFromClient.From<ListResourcesRequest>",o|->"MessageFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListResourcesRequest">>>>>>],
  [f|->"MessageFromClient.From<ListResourceTemplatesRequest>",o|->"MessageFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListResourceTemplatesRequest">>>>>>],
  [f|->"MessageFromClient.From<ReadResourceRequest>",o|->"MessageFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","ReadResourceRequest">>>>>>],
  [f|->"MessageFromClient.From<SubscribeRequest>",o|->"MessageFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","SubscribeRequest">>>>>>],
  [f|->"MessageFromClient.From<UnsubscribeRequest>",o|->"MessageFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","UnsubscribeRequest">>>>>>],
  [f|->"MessageFromClient.From<ListPromptsRequest>",o|->"MessageFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListPromptsRequest">>>>>>],
  [f|->"MessageFromClient.From<GetPromptRequest>",o|->"MessageFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","GetPromptRequest">>>>>>],
  [f|->"MessageFromClient.From<ListToolsRequest>",o|->"MessageFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListToolsRequest">>>>>>],
  [f|->"MessageFromClient.From<CallToolRequest>",o|->"MessageFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","CallToolRequest">>>>>>],
  [f|->"MessageFromClient.From<SetLevelRequest>",o|->"MessageFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","SetLevelRequest">>>>>>],
  [f|->"MessageFromClient.From<CompleteRequest>",o|->"MessageFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","CompleteRequest">>>>>>],
  [f|->"NotificationFromClient.From<CancelledNotification>",o|->"NotificationFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","CancelledNotification">>>>>>],
  [f|->"NotificationFromClient.From<InitializedNotification>",o|->"NotificationFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","InitializedNotification">>>>>>],
  [f|->"NotificationFromClient.From<ProgressNotification>",o|->"NotificationFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","ProgressNotification">>>>>>],
  [f|->"NotificationFromClient.From<RootsListChangedNotification>",o|->"NotificationFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","RootsListChangedNotification">>>>>>],
  [f|->"ClientJsonrpcNotification.From<CancelledNotification>",o|->"ClientJsonrpcNotification",n|->"From",s|->"",a|-><<<<"value",<<"ref","CancelledNotification">>>>>>],
  [f|->"ClientJsonrpcNotification.From<InitializedNotification>",o|->"ClientJsonrpcNotification",n|->"From",s|->"",a|-><<<<"value",<<"ref","InitializedNotification">>>>>>],
  [f|->"ClientJsonrpcNotification.From<ProgressNotification>",o|->"ClientJsonrpcNotification",n|->"From",s|->"",a|-><<<<"value",<<"ref","ProgressNotification">>>>>>],
  [f|->"ClientJsonrpcNotification.From<RootsListChangedNotification>",o|->"ClientJsonrpcNotification",n|->"From",s|->"",a|-><<<<"value",<<"ref","RootsListChangedNotification">>>>>>],
  [f|->"MessageFromClient.From<CancelledNotification>",o|->"MessageFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","CancelledNotification">>>>>>],
  [f|->"MessageFromClient.From<InitializedNotification>",o|->"MessageFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","InitializedNotification">>>>>>],
  [f|->"MessageFromClient.From<ProgressNotification>",o|->"MessageFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","ProgressNotification">>>>>>],
  [f|->"MessageFromClient.From<RootsListChangedNotification>",o|->"MessageFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","RootsListChangedNotification">>>>>>],
  [f|->"ResultFromClient.From<Result>",o|->"ResultFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","Result">>>>>>],
  [f|->"ResultFromClient.From<CreateMessageResult>",o|->"ResultFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","CreateMessageResult">>>>>>],
  [f|->"ResultFromClient.From<ListRootsResult>",o|->"ResultFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListRootsResult">>>>>>],
  [f|->"MessageFromClient.From<Result>",o|->"MessageFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","Result">>>>>>],
  [f|->"MessageFromClient.From<CreateMessageResult>",o|->"MessageFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","CreateMessageResult">>>>>>],
  [f|->"MessageFromClient.From<ListRootsResult>",o|->"MessageFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListRootsResult">>>>>>],
  [f|->"i64.From<SdkErrorCodes>",o|->"i64",n|->"From",s|->"",a|-><<<<"value",<<"ref","SdkErrorCodes">>>>>>],
  [f|->"SdkError.Display",o|->"SdkError",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"SdkError.new",o|->"SdkError",n|->"new",s|->"",a|-><<<<"error_code",<<"ref","SdkErrorCodes">>>>,<<"message",<<"str">>>>,<<"data",<<"opt",<<"val">>>>>>>>],
  [f|->"SdkError.connection_closed",o|->"SdkError",n|->"connection_closed",s|->"",a|-><<>>],
  [f|->"SdkError.request_timeout",o|->"SdkError",n|->"request_timeout",s|->"",a|-><<<<"timeout",<<"ref","u128">>>>>>],
  [f|->"SdkError.session_not_found",o|->"SdkError",n|->"session_not_found",s|->"",a|-><<>>],
  [f|->"SdkError.invalid_request",o|->"SdkError",n|->"invalid_request",s|->"",a|-><<>>],
  [f|->"SdkError.method_not_found",o|->"SdkError",n|->"method_not_found",s|->"",a|-><<>>],
  [f|->"SdkError.invalid_params",o|->"SdkError",n|->"invalid_params",s|->"",a|-><<>>],
  [f|->"SdkError.internal_error",o|->"SdkError",n|->"internal_error",s|->"",a|-><<>>],
  [f|->"SdkError.parse_error",o|->"SdkError",n|->"parse_error",s|->"",a|-><<>>],
  [f|->"SdkError.resource_not_found",o|->"SdkError",n|->"resource_not_found",s|->"",a|-><<>>],
  [f|->"SdkError.bad_request",o|->"SdkError",n|->"bad_request",s|->"",a|-><<>>],
  [f|->"SdkError.with_message",o|->"SdkError",n|->"with_message",s|->"self",a|-><<<<"message",<<"str">>>>>>],
  [f|->"SdkError.with_data",o|->"SdkError",n|->"with_data",s|->"self",a|-><<<<"data",<<"opt",<<"val">>>>>>>>],
  [f|->"i64.From<RpcErrorCodes>",o|->"i64",n|->"From",s|->"",a|-><<<<"value",<<"ref","RpcErrorCodes">>>>>>],
  [f|->"RpcError.new",o|->"RpcError",n|->"new",s|->"",a|-><<<<"error_code",<<"ref","RpcErrorCodes">>>>,<<"message",<<"str">>>>,<<"data",<<"opt",<<"val">>>>>>>>],
  [f|->"RpcError.method_not_found",o|->"RpcError",n|->"method_not_found",s|->"",a|-><<>>],
  [f|->"RpcError.invalid_params",o|->"RpcError",n|->"invalid_params",s|->"",a|-><<>>],
  [f|->"RpcError.invalid_request",o|->"RpcError",n|->"invalid_request",s|->"",a|-><<>>],
  [f|->"RpcError.internal_error",o|->"RpcError",n|->"internal_error",s|->"",a|-><<>>],
  [f|->"RpcError.parse_error",o|->"RpcError",n|->"parse_error",s|->"",a|-><<>>],
  [f|->"RpcError.with_message",o|->"RpcError",n|->"with_message",s|->"self",a|-><<<<"message",<<"str">>>>>>],
  [f|->"RpcError.with_data",o|->"RpcError",n|->"with_data",s|->"self",a|-><<<<"data",<<"opt",<<"val">>>>>>>>],
  [f|->"RpcError.Display",o|->"RpcError",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"RpcError.FromStr",o|->"RpcError",n|->"FromStr",s|->"",a|-><<<<"s",<<"str">>>>>>],
  [f|->"JsonrpcError.create",o|->"JsonrpcError",n|->"create",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"error_code",<<"ref","RpcErrorCodes">>>>,<<"error_message",<<"str">>>>,<<"error_data",<<"opt",<<"val">>>>>>>>],
  [f|->"NotificationFromServer.From<CancelledNotification>",o|->"NotificationFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","CancelledNotification">>>>>>],
  [f|->"NotificationFromServer.From<ProgressNotification>",o|->"NotificationFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","ProgressNotification">>>>>>],
  [f|->"NotificationFromServer.From<ResourceListChangedNotification>",o|->"NotificationFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","ResourceListChangedNotification">>>>>>],
  [f|->"NotificationFromServer.From<ResourceUpdatedNotification>",o|->"NotificationFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","ResourceUpdatedNotification">>>>>>],
  [f|->"NotificationFromServer.From<PromptListChangedNotification>",o|->"NotificationFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","PromptListChangedNotification">>>>>>],
  [f|->"NotificationFromServer.From<ToolListChangedNotification>",o|->"NotificationFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","ToolListChangedNotification">>>>>>],
  [f|->"NotificationFromServer.From<LoggingMessageNotification>",o|->"NotificationFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","LoggingMessageNotification">>>>>>],
  [f|->"ServerJsonrpcNotification.From<CancelledNotification>",o|->"ServerJsonrpcNotification",n|->"From",s|->"",a|-><<<<"value",<<"ref","CancelledNotification">>>>>>],
  [f|->"ServerJsonrpcNotification.From<ProgressNotification>",o|->"ServerJsonrpcNotification",n|->"From",s|->"",a|-><<<<"value",<<"ref","ProgressNotification">>>>>>],
  [f|->"ServerJsonrpcNotification.From<ResourceListChangedNotification>",o|->"ServerJsonrpcNotification",n|->"From",s|->"",a|-><<<<"value",<<"ref","ResourceListChangedNotification">>>>>>],
  [f|->"ServerJsonrpcNotification.From<ResourceUpdatedNotification>",o|->"ServerJsonrpcNotification",n|->"From",s|->"",a|-><<<<"value",<<"ref","ResourceUpdatedNotification">>>>>>],
  [f|->"ServerJsonrpcNotification.From<PromptListChangedNotification>",o|->"ServerJsonrpcNotification",n|->"From",s|->"",a|-><<<<"value",<<"ref","PromptListChangedNotification">>>>>>],
  [f|->"ServerJsonrpcNotification.From<ToolListChangedNotification>",o|->"ServerJsonrpcNotification",n|->"From",s|->"",a|-><<<<"value",<<"ref","ToolListChangedNotification">>>>>>],
  [f|->"ServerJsonrpcNotification.From<LoggingMessageNotification>",o|->"ServerJsonrpcNotification",n|->"From",s|->"",a|-><<<<"value",<<"ref","LoggingMessageNotification">>>>>>],
  [f|->"MessageFromServer.From<CancelledNotification>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","CancelledNotification">>>>>>],
  [f|->"MessageFromServer.From<ProgressNotification>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","ProgressNotification">>>>>>],
  [f|->"MessageFromServer.From<ResourceListChangedNotification>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","ResourceListChangedNotification">>>>>>],
  [f|->"MessageFromServer.From<ResourceUpdatedNotification>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","ResourceUpdatedNotification">>>>>>],
  [f|->"MessageFromServer.From<PromptListChangedNotification>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","PromptListChangedNotification">>>>>>],
  [f|->"MessageFromServer.From<ToolListChangedNotification>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","ToolListChangedNotification">>>>>>],
  [f|->"MessageFromServer.From<LoggingMessageNotification>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","LoggingMessageNotification">>>>>>],
  [f|->"RequestFromServer.From<PingRequest>",o|->"RequestFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","PingRequest">>>>>>],
  [f|->"RequestFromServer.From<CreateMessageRequest>",o|->"RequestFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","CreateMessageRequest">>>>>>],
  [f|->"RequestFromServer.From<ListRootsRequest>",o|->"RequestFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListRootsRequest">>>>>>],
  [f|->"MessageFromServer.From<PingRequest>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","PingRequest">>>>>>],
  [f|->"MessageFromServer.From<CreateMessageRequest>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","CreateMessageRequest">>>>>>],
  [f|->"MessageFromServer.From<ListRootsRequest>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListRootsRequest">>>>>>],
  [f|->"ResultFromServer.From<Result>",o|->"ResultFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","Result">>>>>>],
  [f|->"ResultFromServer.From<InitializeResult>",o|->"ResultFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","InitializeResult">>>>>>],
  [f|->"ResultFromServer.From<ListResourcesResult>",o|->"ResultFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListResourcesResult">>>>>>],
  [f|->"ResultFromServer.From<ListResourceTemplatesResult>",o|->"ResultFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListResourceTemplatesResult">>>>>>],
  [f|->"ResultFromServer.From<ReadResourceResult>",o|->"ResultFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","ReadResourceResult">>>>>>],
  [f|->"ResultFromServer.From<ListPromptsResult>",o|->"ResultFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListPromptsResult">>>>>>],
  [f|->"ResultFromServer.From<GetPromptResult>",o|->"ResultFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","GetPromptResult">>>>>>],
  [f|->"ResultFromServer.From<ListToolsResult>",o|->"ResultFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListToolsResult">>>>>>],
  [f|->"ResultFromServer.From<CallToolResult>",o|->"ResultFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","CallToolResult">>>>>>],
  [f|->"ResultFromServer.From<CompleteResult>",o|->"ResultFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","CompleteResult">>>>>>],
  [f|->"MessageFromServer.From<Result>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","Result">>>>>>],
  [f|->"MessageFromServer.From<InitializeResult>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","InitializeResult">>>>>>],
  [f|->"MessageFromServer.From<ListResourcesResult>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListResourcesResult">>>>>>],
  [f|->"MessageFromServer.From<ListResourceTemplatesResult>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListResourceTemplatesResult">>>>>>],
  [f|->"MessageFromServer.From<ReadResourceResult>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","ReadResourceResult">>>>>>],
  [f|->"MessageFromServer.From<ListPromptsResult>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListPromptsResult">>>>>>],
  [f|->"MessageFromServer.From<GetPromptResult>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","GetPromptResult">>>>>>],
  [f|->"MessageFromServer.From<ListToolsResult>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListToolsResult">>>>>>],
  [f|->"MessageFromServer.From<CallToolResult>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","CallToolResult">>>>>>],
  [f|->"MessageFromServer.From<CompleteResult>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","CompleteResult">>>>>>],
  [f|->"ClientMessage.FromMessage<InitializeRequest>",o|->"ClientMessage",n|->"FromMessage",s|->"",a|-><<<<"message",<<"ref","InitializeRequest">>>>,<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"InitializeRequest.ToMessage<ClientMessage>",o|->"InitializeRequest",n|->"ToMessage",s|->"self",a|-><<<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"ClientMessage.FromMessage<PingRequest>",o|->"ClientMessage",n|->"FromMessage",s|->"",a|-><<<<"message",<<"ref","PingRequest">>>>,<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"PingRequest.ToMessage<ClientMessage>",o|->"PingRequest",n|->"ToMessage",s|->"self",a|-><<<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"ClientMessage.FromMessage<ListResourcesRequest>",o|->"ClientMessage",n|->"FromMessage",s|->"",a|-><<<<"message",<<"ref","ListResourcesRequest">>>>,<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"ListResourcesRequest.ToMessage<ClientMessage>",o|->"ListResourcesRequest",n|->"ToMessage",s|->"self",a|-><<<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"ClientMessage.FromMessage<ListResourceTemplatesRequest>",o|->"ClientMessage",n|->"FromMessage",s|->"",a|-><<<<"message",<<"ref","ListResourceTemplatesRequest">>>>,<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"ListResourceTemplatesRequest.ToMessage<ClientMessage>",o|->"ListResourceTemplatesRequest",n|->"ToMessage",s|->"self",a|-><<<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"ClientMessage.FromMessage<ReadResourceRequest>",o|->"ClientMessage",n|->"FromMessage",s|->"",a|-><<<<"message",<<"ref","ReadResourceRequest">>>>,<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"ReadResourceRequest.ToMessage<ClientMessage>",o|->"ReadResourceRequest",n|->"ToMessage",s|->"self",a|-><<<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"ClientMessage.FromMessage<SubscribeRequest>",o|->"ClientMessage",n|->"FromMessage",s|->"",a|-><<<<"message",<<"ref","SubscribeRequest">>>>,<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"SubscribeRequest.ToMessage<ClientMessage>",o|->"SubscribeRequest",n|->"ToMessage",s|->"self",a|-><<<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"ClientMessage.FromMessage<UnsubscribeRequest>",o|->"ClientMessage",n|->"FromMessage",s|->"",a|-><<<<"message",<<"ref","UnsubscribeRequest">>>>,<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"UnsubscribeRequest.ToMessage<ClientMessage>",o|->"UnsubscribeRequest",n|->"ToMessage",s|->"self",a|-><<<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"ClientMessage.FromMessage<ListPromptsRequest>",o|->"ClientMessage",n|->"FromMessage",s|->"",a|-><<<<"message",<<"ref","ListPromptsRequest">>>>,<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"ListPromptsRequest.ToMessage<ClientMessage>",o|->"ListPromptsRequest",n|->"ToMessage",s|->"self",a|-><<<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"ClientMessage.FromMessage<GetPromptRequest>",o|->"ClientMessage",n|->"FromMessage",s|->"",a|-><<<<"message",<<"ref","GetPromptRequest">>>>,<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"GetPromptRequest.ToMessage<ClientMessage>",o|->"GetPromptRequest",n|->"ToMessage",s|->"self",a|-><<<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"ClientMessage.FromMessage<ListToolsRequest>",o|->"ClientMessage",n|->"FromMessage",s|->"",a|-><<<<"message",<<"ref","ListToolsRequest">>>>,<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"ListToolsRequest.ToMessage<ClientMessage>",o|->"ListToolsRequest",n|->"ToMessage",s|->"self",a|-><<<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"ClientMessage.FromMessage<CallToolRequest>",o|->"ClientMessage",n|->"FromMessage",s|->"",a|-><<<<"message",<<"ref","CallToolRequest">>>>,<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"CallToolRequest.ToMessage<ClientMessage>",o|->"CallToolRequest",n|->"ToMessage",s|->"self",a|-><<<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"ClientMessage.FromMessage<SetLevelRequest>",o|->"ClientMessage",n|->"FromMessage",s|->"",a|-><<<<"message",<<"ref","SetLevelRequest">>>>,<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"SetLevelRequest.ToMessage<ClientMessage>",o|->"SetLevelRequest",n|->"ToMessage",s|->"self",a|-><<<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"ClientMessage.FromMessage<CompleteRequest>",o|->"ClientMessage",n|->"FromMessage",s|->"",a|-><<<<"message",<<"ref","CompleteRequest">>>>,<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"CompleteRequest.ToMessage<ClientMessage>",o|->"CompleteRequest",n|->"ToMessage",s|->"self",a|-><<<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"ClientMessage.FromMessage<Result>",o|->"ClientMessage",n|->"FromMessage",s|->"",a|-><<<<"message",<<"ref","Result">>>>,<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"Result.ToMessage<ClientMessage>",o|->"Result",n|->"ToMessage",s|->"self",a|-><<<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"ClientMessage.FromMessage<CreateMessageResult>",o|->"ClientMessage",n|->"FromMessage",s|->"",a|-><<<<"message",<<"ref","CreateMessageResult">>>>,<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"CreateMessageResult.ToMessage<ClientMessage>",o|->"CreateMessageResult",n|->"ToMessage",s|->"self",a|-><<<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"ClientMessage.FromMessage<ListRootsResult>",o|->"ClientMessage",n|->"FromMessage",s|->"",a|-><<<<"message",<<"ref","ListRootsResult">>>>,<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"ListRootsResult.ToMessage<ClientMessage>",o|->"ListRootsResult",n|->"ToMessage",s|->"self",a|-><<<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"ClientMessage.FromMessage<CancelledNotification>",o|->"ClientMessage",n|->"FromMessage",s|->"",a|-><<<<"message",<<"ref","CancelledNotification">>>>,<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"CancelledNotification.ToMessage<ClientMessage>",o|->"CancelledNotification",n|->"ToMessage",s|->"self",a|-><<<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"ClientMessage.FromMessage<InitializedNotification>",o|->"ClientMessage",n|->"FromMessage",s|->"",a|-><<<<"message",<<"ref","InitializedNotification">>>>,<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"InitializedNotification.ToMessage<ClientMessage>",o|->"InitializedNotification",n|->"ToMessage",s|->"self",a|-><<<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"ClientMessage.FromMessage<ProgressNotification>",o|->"ClientMessage",n|->"FromMessage",s|->"",a|-><<<<"message",<<"ref","ProgressNotification">>>>,<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"ProgressNotification.ToMessage<ClientMessage>",o|->"ProgressNotification",n|->"ToMessage",s|->"self",a|-><<<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"ClientMessage.FromMessage<RootsListChangedNotification>",o|->"ClientMessage",n|->"FromMessage",s|->"",a|-><<<<"message",<<"ref","RootsListChangedNotification">>>>,<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"RootsListChangedNotification.ToMessage<ClientMessage>",o|->"RootsListChangedNotification",n|->"ToMessage",s|->"self",a|-><<<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"ServerMessage.FromMessage<PingRequest>",o|->"ServerMessage",n|->"FromMessage",s|->"",a|-><<<<"message",<<"ref","PingRequest">>>>,<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"PingRequest.ToMessage<ServerMessage>",o|->"PingRequest",n|->"ToMessage",s|->"self",a|-><<<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"ServerMessage.FromMessage<CreateMessageRequest>",o|->"ServerMessage",n|->"FromMessage",s|->"",a|-><<<<"message",<<"ref","CreateMessageRequest">>>>,<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"CreateMessageRequest.ToMessage<ServerMessage>",o|->"CreateMessageRequest",n|->"ToMessage",s|->"self",a|-><<<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"ServerMessage.FromMessage<ListRootsRequest>",o|->"ServerMessage",n|->"FromMessage",s|->"",a|-><<<<"message",<<"ref","ListRootsRequest">>>>,<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"ListRootsRequest.ToMessage<ServerMessage>",o|->"ListRootsRequest",n|->"ToMessage",s|->"self",a|-><<<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"ServerMessage.FromMessage<Result>",o|->"ServerMessage",n|->"FromMessage",s|->"",a|-><<<<"message",<<"ref","Result">>>>,<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"Result.ToMessage<ServerMessage>",o|->"Result",n|->"ToMessage",s|->"self",a|-><<<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"ServerMessage.FromMessage<InitializeResult>",o|->"ServerMessage",n|->"FromMessage",s|->"",a|-><<<<"message",<<"ref","InitializeResult">>>>,<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"InitializeResult.ToMessage<ServerMessage>",o|->"InitializeResult",n|->"ToMessage",s|->"self",a|-><<<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"ServerMessage.FromMessage<ListResourcesResult>",o|->"ServerMessage",n|->"FromMessage",s|->"",a|-><<<<"message",<<"ref","ListResourcesResult">>>>,<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"ListResourcesResult.ToMessage<ServerMessage>",o|->"ListResourcesResult",n|->"ToMessage",s|->"self",a|-><<<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"ServerMessage.FromMessage<ListResourceTemplatesResult>",o|->"ServerMessage",n|->"FromMessage",s|->"",a|-><<<<"message",<<"ref","ListResourceTemplatesResult">>>>,<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"ListResourceTemplatesResult.ToMessage<ServerMessage>",o|->"ListResourceTemplatesResult",n|->"ToMessage",s|->"self",a|-><<<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"ServerMessage.FromMessage<ReadResourceResult>",o|->"ServerMessage",n|->"FromMessage",s|->"",a|-><<<<"message",<<"ref","ReadResourceResult">>>>,<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"ReadResourceResult.ToMessage<ServerMessage>",o|->"ReadResourceResult",n|->"ToMessage",s|->"self",a|-><<<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"ServerMessage.FromMessage<ListPromptsResult>",o|->"ServerMessage",n|->"FromMessage",s|->"",a|-><<<<"message",<<"ref","ListPromptsResult">>>>,<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"ListPromptsResult.ToMessage<ServerMessage>",o|->"ListPromptsResult",n|->"ToMessage",s|->"self",a|-><<<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"ServerMessage.FromMessage<GetPromptResult>",o|->"ServerMessage",n|->"FromMessage",s|->"",a|-><<<<"message",<<"ref","GetPromptResult">>>>,<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"GetPromptResult.ToMessage<ServerMessage>",o|->"GetPromptResult",n|->"ToMessage",s|->"self",a|-><<<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"ServerMessage.FromMessage<ListToolsResult>",o|->"ServerMessage",n|->"FromMessage",s|->"",a|-><<<<"message",<<"ref","ListToolsResult">>>>,<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"ListToolsResult.ToMessage<ServerMessage>",o|->"ListToolsResult",n|->"ToMessage",s|->"self",a|-><<<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"ServerMessage.FromMessage<CallToolResult>",o|->"ServerMessage",n|->"FromMessage",s|->"",a|-><<<<"message",<<"ref","CallToolResult">>>>,<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"CallToolResult.ToMessage<ServerMessage>",o|->"CallToolResult",n|->"ToMessage",s|->"self",a|-><<<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"ServerMessage.FromMessage<CompleteResult>",o|->"ServerMessage",n|->"FromMessage",s|->"",a|-><<<<"message",<<"ref","CompleteResult">>>>,<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"CompleteResult.ToMessage<ServerMessage>",o|->"CompleteResult",n|->"ToMessage",s|->"self",a|-><<<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"ServerMessage.FromMessage<CancelledNotification>",o|->"ServerMessage",n|->"FromMessage",s|->"",a|-><<<<"message",<<"ref","CancelledNotification">>>>,<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"CancelledNotification.ToMessage<ServerMessage>",o|->"CancelledNotification",n|->"ToMessage",s|->"self",a|-><<<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"ServerMessage.FromMessage<ProgressNotification>",o|->"ServerMessage",n|->"FromMessage",s|->"",a|-><<<<"message",<<"ref","ProgressNotification">>>>,<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"ProgressNotification.ToMessage<ServerMessage>",o|->"ProgressNotification",n|->"ToMessage",s|->"self",a|-><<<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"ServerMessage.FromMessage<ResourceListChangedNotification>",o|->"ServerMessage",n|->"FromMessage",s|->"",a|-><<<<"message",<<"ref","ResourceListChangedNotification">>>>,<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"ResourceListChangedNotification.ToMessage<ServerMessage>",o|->"ResourceListChangedNotification",n|->"ToMessage",s|->"self",a|-><<<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"ServerMessage.FromMessage<ResourceUpdatedNotification>",o|->"ServerMessage",n|->"FromMessage",s|->"",a|-><<<<"message",<<"ref","ResourceUpdatedNotification">>>>,<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"ResourceUpdatedNotification.ToMessage<ServerMessage>",o|->"ResourceUpdatedNotification",n|->"ToMessage",s|->"self",a|-><<<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"ServerMessage.FromMessage<PromptListChangedNotification>",o|->"ServerMessage",n|->"FromMessage",s|->"",a|-><<<<"message",<<"ref","PromptListChangedNotification">>>>,<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"PromptListChangedNotification.ToMessage<ServerMessage>",o|->"PromptListChangedNotification",n|->"ToMessage",s|->"self",a|-><<<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"ServerMessage.FromMessage<ToolListChangedNotification>",o|->"ServerMessage",n|->"FromMessage",s|->"",a|-><<<<"message",<<"ref","ToolListChangedNotification">>>>,<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"ToolListChangedNotification.ToMessage<ServerMessage>",o|->"ToolListChangedNotification",n|->"ToMessage",s|->"self",a|-><<<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"ServerMessage.FromMessage<LoggingMessageNotification>",o|->"ServerMessage",n|->"FromMessage",s|->"",a|-><<<<"message",<<"ref","LoggingMessageNotification">>>>,<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"LoggingMessageNotification.ToMessage<ServerMessage>",o|->"LoggingMessageNotification",n|->"ToMessage",s|->"self",a|-><<<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"InitializeRequest.TryFrom<RequestFromClient>",o|->"InitializeRequest",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","RequestFromClient">>>>>>],
  [f|->"PingRequest.TryFrom<RequestFromClient>",o|->"PingRequest",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","RequestFromClient">>>>>>],
  [f|->"ListResourcesRequest.TryFrom<RequestFromClient>",o|->"ListResourcesRequest",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","RequestFromClient">>>>>>],
  [f|->"ListResourceTemplatesRequest.TryFrom<RequestFromClient>",o|->"ListResourceTemplatesRequest",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","RequestFromClient">>>>>>],
  [f|->"ReadResourceRequest.TryFrom<RequestFromClient>",o|->"ReadResourceRequest",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","RequestFromClient">>>>>>],
  [f|->"SubscribeRequest.TryFrom<RequestFromClient>",o|->"SubscribeRequest",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","RequestFromClient">>>>>>],
  [f|->"UnsubscribeRequest.TryFrom<RequestFromClient>",o|->"UnsubscribeRequest",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","RequestFromClient">>>>>>],
  [f|->"ListPromptsRequest.TryFrom<RequestFromClient>",o|->"ListPromptsRequest",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","RequestFromClient">>>>>>],
  [f|->"GetPromptRequest.TryFrom<RequestFromClient>",o|->"GetPromptRequest",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","RequestFromClient">>>>>>],
  [f|->"ListToolsRequest.TryFrom<RequestFromClient>",o|->"ListToolsRequest",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","RequestFromClient">>>>>>],
  [f|->"CallToolRequest.TryFrom<RequestFromClient>",o|->"CallToolRequest",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","RequestFromClient">>>>>>],
  [f|->"SetLevelRequest.TryFrom<RequestFromClient>",o|->"SetLevelRequest",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","RequestFromClient">>>>>>],
  [f|->"CompleteRequest.TryFrom<RequestFromClient>",o|->"CompleteRequest",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","RequestFromClient">>>>>>],
  [f|->"Result.TryFrom<ResultFromClient>",o|->"Result",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","ResultFromClient">>>>>>],
  [f|->"CreateMessageResult.TryFrom<ResultFromClient>",o|->"CreateMessageResult",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","ResultFromClient">>>>>>],
  [f|->"ListRootsResult.TryFrom<ResultFromClient>",o|->"ListRootsResult",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","ResultFromClient">>>>>>],
  [f|->"CancelledNotification.TryFrom<NotificationFromClient>",o|->"CancelledNotification",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","NotificationFromClient">>>>>>],
  [f|->"InitializedNotification.TryFrom<NotificationFromClient>",o|->"InitializedNotification",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","NotificationFromClient">>>>>>],
  [f|->"ProgressNotification.TryFrom<NotificationFromClient>",o|->"ProgressNotification",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","NotificationFromClient">>>>>>],
  [f|->"RootsListChangedNotification.TryFrom<NotificationFromClient>",o|->"RootsListChangedNotification",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","NotificationFromClient">>>>>>],
  [f|->"PingRequest.TryFrom<RequestFromServer>",o|->"PingRequest",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","RequestFromServer">>>>>>],
  [f|->"CreateMessageRequest.TryFrom<RequestFromServer>",o|->"CreateMessageRequest",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","RequestFromServer">>>>>>],
  [f|->"ListRootsRequest.TryFrom<RequestFromServer>",o|->"ListRootsRequest",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","RequestFromServer">>>>>>],
  [f|->"Result.TryFrom<ResultFromServer>",o|->"Result",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","ResultFromServer">>>>>>],
  [f|->"InitializeResult.TryFrom<ResultFromServer>",o|->"InitializeResult",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","ResultFromServer">>>>>>],
  [f|->"ListResourcesResult.TryFrom<ResultFromServer>",o|->"ListResourcesResult",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","ResultFromServer">>>>>>],
  [f|->"ListResourceTemplatesResult.TryFrom<ResultFromServer>",o|->"ListResourceTemplatesResult",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","ResultFromServer">>>>>>],
  [f|->"ReadResourceResult.TryFrom<ResultFromServer>",o|->"ReadResourceResult",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","ResultFromServer">>>>>>],
  [f|->"ListPromptsResult.TryFrom<ResultFromServer>",o|->"ListPromptsResult",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","ResultFromServer">>>>>>],
  [f|->"GetPromptResult.TryFrom<ResultFromServer>",o|->"GetPromptResult",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","ResultFromServer">>>>>>],
  [f|->"ListToolsResult.TryFrom<ResultFromServer>",o|->"ListToolsResult",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","ResultFromServer">>>>>>],
  [f|->"CallToolResult.TryFrom<ResultFromServer>",o|->"CallToolResult",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","ResultFromServer">>>>>>],
  [f|->"CompleteResult.TryFrom<ResultFromServer>",o|->"CompleteResult",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","ResultFromServer">>>>>>],
  [f|->"CancelledNotification.TryFrom<NotificationFromServer>",o|->"CancelledNotification",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","NotificationFromServer">>>>>>],
  [f|->"ProgressNotification.TryFrom<NotificationFromServer>",o|->"ProgressNotification",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","NotificationFromServer">>>>>>],
  [f|->"ResourceListChangedNotification.TryFrom<NotificationFromServer>",o|->"ResourceListChangedNotification",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","NotificationFromServer">>>>>>],
  [f|->"ResourceUpdatedNotification.TryFrom<NotificationFromServer>",o|->"ResourceUpdatedNotification",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","NotificationFromServer">>>>>>],
  [f|->"PromptListChangedNotification.TryFrom<NotificationFromServer>",o|->"PromptListChangedNotification",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","NotificationFromServer">>>>>>],
  [f|->"ToolListChangedNotification.TryFrom<NotificationFromServer>",o|->"ToolListChangedNotification",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","NotificationFromServer">>>>>>],
  [f|->"LoggingMessageNotification.TryFrom<NotificationFromServer>",o|->"LoggingMessageNotification",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","NotificationFromServer">>>>>>],
  [f|->"CallToolResultContentItem.text_content",o|->"CallToolResultContentItem",n|->"text_content",s|->"",a|-><<<<"text",<<"str">>>>,<<"annotations",<<"opt",<<"ref","TextContentAnnotations">>>>>>>>],
  [f|->"CallToolResultContentItem.image_content",o|->"CallToolResultContentItem",n|->"image_content",s|->"",a|-><<<<"data",<<"str">>>>,<<"mime_type",<<"str">>>>,<<"annotations",<<"opt",<<"ref","ImageContentAnnotations">>>>>>>>],
  [f|->"CallToolResultContentItem.embedded_resource",o|->"CallToolResultContentItem",n|->"embedded_resource",s|->"",a|-><<<<"resource",<<"ref","EmbeddedResourceResource">>>>,<<"annotations",<<"opt",<<"ref","EmbeddedResourceAnnotations">>>>>>>>],
  [f|->"CallToolResultContentItem.content_type",o|->"CallToolResultContentItem",n|->"content_type",s|->"ref",a|-><<>>],
  [f|->"CallToolResultContentItem.as_text_content",o|->"CallToolResultContentItem",n|->"as_text_content",s|->"ref",a|-><<>>],
  [f|->"CallToolResultContentItem.as_image_content",o|->"CallToolResultContentItem",n|->"as_image_content",s|->"ref",a|-><<>>],
  [f|->"CallToolResultContentItem.as_embedded_resource",o|->"CallToolResultContentItem",n|->"as_embedded_resource",s|->"ref",a|-><<>>],
  [f|->"CallToolResult.text_content",o|->"CallToolResult",n|->"text_content",s|->"",a|-><<<<"text",<<"str">>>>,<<"annotations",<<"opt",<<"ref","TextContentAnnotations">>>>>>>>],
  [f|->"CallToolResult.image_content",o|->"CallToolResult",n|->"image_content",s|->"",a|-><<<<"data",<<"str">>>>,<<"mime_type",<<"str">>>>,<<"annotations",<<"opt",<<"ref","ImageContentAnnotations">>>>>>>>],
  [f|->"CallToolResult.embedded_resource",o|->"CallToolResult",n|->"embedded_resource",s|->"",a|-><<<<"resource",<<"ref","EmbeddedResourceResource">>>>,<<"annotations",<<"opt",<<"ref","EmbeddedResourceAnnotations">>>>>>>>],
  [f|->"CallToolResult.with_error",o|->"CallToolResult",n|->"with_error",s|->"",a|-><<<<"error",<<"ref","CallToolError">>>>>>],
  [f|->"CallToolResult.with_meta",o|->"CallToolResult",n|->"with_meta",s|->"self",a|-><<<<"meta",<<"opt",<<"map">>>>>>>>],
  [f|->"Annotated.default",o|->"Annotated",n|->"default",s|->"",a|-><<>>],
  [f|->"AnnotatedAnnotations.default",o|->"AnnotatedAnnotations",n|->"default",s|->"",a|-><<>>],
  [f|->"ClientCapabilities.default",o|->"ClientCapabilities",n|->"default",s|->"",a|-><<>>],
  [f|->"ClientRoots.default",o|->"ClientRoots",n|->"default",s|->"",a|-><<>>],
  [f|->"EmbeddedResourceAnnotations.default",o|->"EmbeddedResourceAnnotations",n|->"default",s|->"",a|-><<>>],
  [f|->"ImageContentAnnotations.default",o|->"ImageContentAnnotations",n|->"default",s|->"",a|-><<>>],
  [f|->"InitializedNotificationParams.default",o|->"InitializedNotificationParams",n|->"default",s|->"",a|-><<>>],
  [f|->"JsonrpcNotificationParams.default",o|->"JsonrpcNotificationParams",n|->"default",s|->"",a|-><<>>],
  [f|->"JsonrpcRequestParams.default",o|->"JsonrpcRequestParams",n|->"default",s|->"",a|-><<>>],
  [f|->"JsonrpcRequestParamsMeta.default",o|->"JsonrpcRequestParamsMeta",n|->"default",s|->"",a|-><<>>],
  [f|->"ListPromptsRequestParams.default",o|->"ListPromptsRequestParams",n|->"default",s|->"",a|-><<>>],
  [f|->"ListResourceTemplatesRequestParams.default",o|->"ListResourceTemplatesRequestParams",n|->"default",s|->"",a|-><<>>],
  [f|->"ListResourcesRequestParams.default",o|->"ListResourcesRequestParams",n|->"default",s|->"",a|-><<>>],
  [f|->"ListRootsRequestParams.default",o|->"ListRootsRequestParams",n|->"default",s|->"",a|-><<>>],
  [f|->"ListRootsRequestParamsMeta.default",o|->"ListRootsRequestParamsMeta",n|->"default",s|->"",a|-><<>>],
  [f|->"ListToolsRequestParams.default",o|->"ListToolsRequestParams",n|->"default",s|->"",a|-><<>>],
  [f|->"ModelHint.default",o|->"ModelHint",n|->"default",s|->"",a|-><<>>],
  [f|->"ModelPreferences.default",o|->"ModelPreferences",n|->"default",s|->"",a|-><<>>],
  [f|->"NotificationParams.default",o|->"NotificationParams",n|->"default",s|->"",a|-><<>>],
  [f|->"PaginatedRequestParams.default",o|->"PaginatedRequestParams",n|->"default",s|->"",a|-><<>>],
  [f|->"PaginatedResult.default",o|->"PaginatedResult",n|->"default",s|->"",a|-><<>>],
  [f|->"PingRequestParams.default",o|->"PingRequestParams",n|->"default",s|->"",a|-><<>>],
  [f|->"PingRequestParamsMeta.default",o|->"PingRequestParamsMeta",n|->"default",s|->"",a|-><<>>],
  [f|->"PromptListChangedNotificationParams.default",o|->"PromptListChangedNotificationParams",n|->"default",s|->"",a|-><<>>],
  [f|->"RequestParams.default",o|->"RequestParams",n|->"default",s|->"",a|-><<>>],
  [f|->"RequestParamsMeta.default",o|->"RequestParamsMeta",n|->"default",s|->"",a|-><<>>],
  [f|->"ResourceAnnotations.default",o|->"ResourceAnnotations",n|->"default",s|->"",a|-><<>>],
  [f|->"ResourceListChangedNotificationParams.default",o|->"ResourceListChangedNotificationParams",n|->"default",s|->"",a|-><<>>],
  [f|->"ResourceTemplateAnnotations.default",o|->"ResourceTemplateAnnotations",n|->"default",s|->"",a|-><<>>],
  [f|->"Result.default",o|->"Result",n|->"default",s|->"",a|-><<>>],
  [f|->"RootsListChangedNotificationParams.default",o|->"RootsListChangedNotificationParams",n|->"default",s|->"",a|-><<>>],
  [f|->"ServerCapabilities.default",o|->"ServerCapabilities",n|->"default",s|->"",a|-><<>>],
  [f|->"ServerCapabilitiesPrompts.default",o|->"ServerCapabilitiesPrompts",n|->"default",s|->"",a|-><<>>],
  [f|->"ServerCapabilitiesResources.default",o|->"ServerCapabilitiesResources",n|->"default",s|->"",a|-><<>>],
  [f|->"ServerCapabilitiesTools.default",o|->"ServerCapabilitiesTools",n|->"default",s|->"",a|-><<>>],
  [f|->"TextContentAnnotations.default",o|->"TextContentAnnotations",n|->"default",s|->"",a|-><<>>],
  [f|->"ToolListChangedNotificationParams.default",o|->"ToolListChangedNotificationParams",n|->"default",s|->"",a|-><<>>],
  [f|->"RequestId.eq",o|->"RequestId",n|->"eq",s|->"ref",a|-><<<<"other",<<"ref","RequestId">>>>>>],
  [f|->"RequestId.find",o|->"RequestId",n|->"find",s|->"",a|-><<<<"ids",<<"vec",<<"ref","RequestId">>>>>>,<<"id",<<"ref","RequestId">>>>>>]>>
=============================================================================
