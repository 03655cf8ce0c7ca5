-------------------------------- MODULE Api ---------------------------------
(* The public functions of schema version draft: f name, o owner, n function or trait,     *)
(* s receiver ("" none), a parameters as <<name, type>>.                               *)
EXTENDS TLC

Fns == <<[f|->"AudioContent.new",o|->"AudioContent",n|->"new",s|->"",a|-><<<<"data",<<"str">>>>,<<"mime_type",<<"str">>>>,<<"annotations",<<"opt",<<"ref","Annotations">>>>>>,<<"meta",<<"opt",<<"ref","MetaObject">>>>>>>>],
  [f|->"AudioContent.type_",o|->"AudioContent",n|->"type_",s|->"ref",a|-><<>>],
  [f|->"AudioContent.type_value",o|->"AudioContent",n|->"type_value",s|->"",a|-><<>>],
  [f|->"AudioContent.type_name",o|->"AudioContent",n|->"type_name",s|->"",a|-><<>>],
  [f|->"BooleanSchema.new",o|->"BooleanSchema",n|->"new",s|->"",a|-><<<<"default",<<"opt",<<"bool">>>>>>,<<"description",<<"opt",<<"str">>>>>>,<<"title",<<"opt",<<"str">>>>>>>>],
  [f|->"BooleanSchema.type_",o|->"BooleanSchema",n|->"type_",s|->"ref",a|-><<>>],
  [f|->"BooleanSchema.type_value",o|->"BooleanSchema",n|->"type_value",s|->"",a|-><<>>],
  [f|->"BooleanSchema.type_name",o|->"BooleanSchema",n|->"type_name",s|->"",a|-><<>>],
  [f|->"CacheableResultCacheScope.Display",o|->"CacheableResultCacheScope",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"CallToolRequest.new",o|->"CallToolRequest",n|->"new",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"params",<<"ref","CallToolRequestParams">>>>>>],
  [f|->"CallToolRequest.jsonrpc",o|->"CallToolRequest",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"CallToolRequest.method",o|->"CallToolRequest",n|->"method",s|->"ref",a|-><<>>],
  [f|->"CallToolRequest.method_value",o|->"CallToolRequest",n|->"method_value",s|->"",a|-><<>>],
  [f|->"CallToolRequest.method_name",o|->"CallToolRequest",n|->"method_name",s|->"",a|-><<>>],
  [f|->"CallToolResultResponse.new",o|->"CallToolResultResponse",n|->"new",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"result",<<"ref","CallToolResultResponseResult">>>>>>],
  [f|->"CallToolResultResponse.jsonrpc",o|->"CallToolResultResponse",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"CallToolResultResponseResult.From<InputRequiredResult>",o|->"CallToolResultResponseResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","InputRequiredResult">>>>>>],
  [f|->"CallToolResultResponseResult.From<CallToolResult>",o|->"CallToolResultResponseResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","CallToolResult">>>>>>],
  [f|->"CancelledNotification.new",o|->"CancelledNotification",n|->"new",s|->"",a|-><<<<"params",<<"ref","CancelledNotificationParams">>>>>>],
  [f|->"CancelledNotification.jsonrpc",o|->"CancelledNotification",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"CancelledNotification.method",o|->"CancelledNotification",n|->"method",s|->"ref",a|-><<>>],
  [f|->"CancelledNotification.method_value",o|->"CancelledNotification",n|->"method_value",s|->"",a|-><<>>],
  [f|->"CancelledNotification.method_name",o|->"CancelledNotification",n|->"method_name",s|->"",a|-><<>>],
  [f|->"ClientNotification.new",o|->"ClientNotification",n|->"new",s|->"",a|-><<<<"params",<<"ref","CancelledNotificationParams">>>>>>],
  [f|->"ClientNotification.jsonrpc",o|->"ClientNotification",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"ClientNotification.method",o|->"ClientNotification",n|->"method",s|->"ref",a|-><<>>],
  [f|->"ClientNotification.method_value",o|->"ClientNotification",n|->"method_value",s|->"",a|-><<>>],
  [f|->"ClientNotification.method_name",o|->"ClientNotification",n|->"method_name",s|->"",a|-><<>>],
  [f|->"ClientRequest.From<DiscoverRequest>",o|->"ClientRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","DiscoverRequest">>>>>>],
  [f|->"ClientRequest.From<ListResourcesRequest>",o|->"ClientRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListResourcesRequest">>>>>>],
  [f|->"ClientRequest.From<ListResourceTemplatesRequest>",o|->"ClientRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListResourceTemplatesRequest">>>>>>],
  [f|->"ClientRequest.From<ReadResourceRequest>",o|->"ClientRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","ReadResourceRequest">>>>>>],
  [f|->"ClientRequest.From<SubscriptionsListenRequest>",o|->"ClientRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","SubscriptionsListenRequest">>>>>>],
  [f|->"ClientRequest.From<ListPromptsRequest>",o|->"ClientRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListPromptsRequest">>>>>>],
  [f|->"ClientRequest.From<GetPromptRequest>",o|->"ClientRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","GetPromptRequest">>>>>>],
  [f|->"ClientRequest.From<ListToolsRequest>",o|->"ClientRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListToolsRequest">>>>>>],
  [f|->"ClientRequest.From<CallToolRequest>",o|->"ClientRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","CallToolRequest">>>>>>],
  [f|->"ClientRequest.From<CompleteRequest>",o|->"ClientRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","CompleteRequest">>>>>>],
  [f|->"CompleteRequest.new",o|->"CompleteRequest",n|->"new",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"params",<<"ref","CompleteRequestParams">>>>>>],
  [f|->"CompleteRequest.jsonrpc",o|->"CompleteRequest",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"CompleteRequest.method",o|->"CompleteRequest",n|->"method",s|->"ref",a|-><<>>],
  [f|->"CompleteRequest.method_value",o|->"CompleteRequest",n|->"method_value",s|->"",a|-><<>>],
  [f|->"CompleteRequest.method_name",o|->"CompleteRequest",n|->"method_name",s|->"",a|-><<>>],
  [f|->"CompleteRequestRef.From<PromptReference>",o|->"CompleteRequestRef",n|->"From",s|->"",a|-><<<<"value",<<"ref","PromptReference">>>>>>],
  [f|->"CompleteRequestRef.From<ResourceTemplateReference>",o|->"CompleteRequestRef",n|->"From",s|->"",a|-><<<<"value",<<"ref","ResourceTemplateReference">>>>>>],
  [f|->"CompleteResultResponse.new",o|->"CompleteResultResponse",n|->"new",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"result",<<"ref","CompleteResult">>>>>>],
  [f|->"CompleteResultResponse.jsonrpc",o|->"CompleteResultResponse",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"ContentBlock.From<TextContent>",o|->"ContentBlock",n|->"From",s|->"",a|-><<<<"value",<<"ref","TextContent">>>>>>],
  [f|->"ContentBlock.From<ImageContent>",o|->"ContentBlock",n|->"From",s|->"",a|-><<<<"value",<<"ref","ImageContent">>>>>>],
  [f|->"ContentBlock.From<AudioContent>",o|->"ContentBlock",n|->"From",s|->"",a|-><<<<"value",<<"ref","AudioContent">>>>>>],
  [f|->"ContentBlock.From<ResourceLink>",o|->"ContentBlock",n|->"From",s|->"",a|-><<<<"value",<<"ref","ResourceLink">>>>>>],
  [f|->"ContentBlock.From<EmbeddedResource>",o|->"ContentBlock",n|->"From",s|->"",a|-><<<<"value",<<"ref","EmbeddedResource">>>>>>],
  [f|->"CreateMessageContent.From<TextContent>",o|->"CreateMessageContent",n|->"From",s|->"",a|-><<<<"value",<<"ref","TextContent">>>>>>],
  [f|->"CreateMessageContent.From<ImageContent>",o|->"CreateMessageContent",n|->"From",s|->"",a|-><<<<"value",<<"ref","ImageContent">>>>>>],
  [f|->"CreateMessageContent.From<AudioContent>",o|->"CreateMessageContent",n|->"From",s|->"",a|-><<<<"value",<<"ref","AudioContent">>>>>>],
  [f|->"CreateMessageContent.From<ToolUseContent>",o|->"CreateMessageContent",n|->"From",s|->"",a|-><<<<"value",<<"ref","ToolUseContent">>>>>>],
  [f|->"CreateMessageContent.From<ToolResultContent>",o|->"CreateMessageContent",n|->"From",s|->"",a|-><<<<"value",<<"ref","ToolResultContent">>>>>>],
  [f|->"CreateMessageContent.From<Vec<SamplingMessageContentBlock>>",o|->"CreateMessageContent",n|->"From",s|->"",a|-><<<<"value",<<"vec",<<"ref","SamplingMessageContentBlock">>>>>>>>],
  [f|->"CreateMessageRequest.new",o|->"CreateMessageRequest",n|->"new",s|->"",a|-><<<<"params",<<"ref","CreateMessageRequestParams">>>>>>],
  [f|->"CreateMessageRequest.method",o|->"CreateMessageRequest",n|->"method",s|->"ref",a|-><<>>],
  [f|->"CreateMessageRequest.method_value",o|->"CreateMessageRequest",n|->"method_value",s|->"",a|-><<>>],
  [f|->"CreateMessageRequest.method_name",o|->"CreateMessageRequest",n|->"method_name",s|->"",a|-><<>>],
  [f|->"DiscoverRequest.new",o|->"DiscoverRequest",n|->"new",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"params",<<"ref","RequestParams">>>>>>],
  [f|->"DiscoverRequest.jsonrpc",o|->"DiscoverRequest",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"DiscoverRequest.method",o|->"DiscoverRequest",n|->"method",s|->"ref",a|-><<>>],
  [f|->"DiscoverRequest.method_value",o|->"DiscoverRequest",n|->"method_value",s|->"",a|-><<>>],
  [f|->"DiscoverRequest.method_name",o|->"DiscoverRequest",n|->"method_name",s|->"",a|-><<>>],
  [f|->"DiscoverResultCacheScope.Display",o|->"DiscoverResultCacheScope",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"DiscoverResultResponse.new",o|->"DiscoverResultResponse",n|->"new",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"result",<<"ref","DiscoverResult">>>>>>],
  [f|->"DiscoverResultResponse.jsonrpc",o|->"DiscoverResultResponse",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"ElicitRequest.new",o|->"ElicitRequest",n|->"new",s|->"",a|-><<<<"params",<<"ref","ElicitRequestParams">>>>>>],
  [f|->"ElicitRequest.method",o|->"ElicitRequest",n|->"method",s|->"ref",a|-><<>>],
  [f|->"ElicitRequest.method_value",o|->"ElicitRequest",n|->"method_value",s|->"",a|-><<>>],
  [f|->"ElicitRequest.method_name",o|->"ElicitRequest",n|->"method_name",s|->"",a|-><<>>],
  [f|->"ElicitRequestFormParams.new",o|->"ElicitRequestFormParams",n|->"new",s|->"",a|-><<<<"message",<<"str">>>>,<<"requested_schema",<<"ref","ElicitRequestFormParamsRequestedSchema">>>>>>],
  [f|->"ElicitRequestFormParams.mode",o|->"ElicitRequestFormParams",n|->"mode",s|->"ref",a|-><<>>],
  [f|->"ElicitRequestFormParams.mode_value",o|->"ElicitRequestFormParams",n|->"mode_value",s|->"",a|-><<>>],
  [f|->"ElicitRequestFormParams.mode_name",o|->"ElicitRequestFormParams",n|->"mode_name",s|->"",a|-><<>>],
  [f|->"ElicitRequestFormParamsRequestedSchema.new",o|->"ElicitRequestFormParamsRequestedSchema",n|->"new",s|->"",a|-><<<<"properties",<<"hmap",<<"ref","PrimitiveSchemaDefinition">>>>>>,<<"required",<<"vec",<<"str">>>>>>,<<"schema",<<"opt",<<"str">>>>>>>>],
  [f|->"ElicitRequestFormParamsRequestedSchema.type_",o|->"ElicitRequestFormParamsRequestedSchema",n|->"type_",s|->"ref",a|-><<>>],
  [f|->"ElicitRequestFormParamsRequestedSchema.type_value",o|->"ElicitRequestFormParamsRequestedSchema",n|->"type_value",s|->"",a|-><<>>],
  [f|->"ElicitRequestFormParamsRequestedSchema.type_name",o|->"ElicitRequestFormParamsRequestedSchema",n|->"type_name",s|->"",a|-><<>>],
  [f|->"ElicitRequestParams.From<ElicitRequestFormParams>",o|->"ElicitRequestParams",n|->"From",s|->"",a|-><<<<"value",<<"ref","ElicitRequestFormParams">>>>>>],
  [f|->"ElicitRequestParams.From<ElicitRequestUrlParams>",o|->"ElicitRequestParams",n|->"From",s|->"",a|-><<<<"value",<<"ref","ElicitRequestUrlParams">>>>>>],
  [f|->"ElicitRequestUrlParams.new",o|->"ElicitRequestUrlParams",n|->"new",s|->"",a|-><<<<"message",<<"str">>>>,<<"url",<<"str">>>>>>],
  [f|->"ElicitRequestUrlParams.mode",o|->"ElicitRequestUrlParams",n|->"mode",s|->"ref",a|-><<>>],
  [f|->"ElicitRequestUrlParams.mode_value",o|->"ElicitRequestUrlParams",n|->"mode_value",s|->"",a|-><<>>],
  [f|->"ElicitRequestUrlParams.mode_name",o|->"ElicitRequestUrlParams",n|->"mode_name",s|->"",a|-><<>>],
  [f|->"ElicitResultAction.Display",o|->"ElicitResultAction",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"ElicitResultContent.From<Vec<String>>",o|->"ElicitResultContent",n|->"From",s|->"",a|-><<<<"value",<<"vec",<<"str">>>>>>>>],
  [f|->"ElicitResultContent.From<ElicitResultContentPrimitive>",o|->"ElicitResultContent",n|->"From",s|->"",a|-><<<<"value",<<"ref","ElicitResultContentPrimitive">>>>>>],
  [f|->"ElicitResultContentPrimitive.From<bool>",o|->"ElicitResultContentPrimitive",n|->"From",s|->"",a|-><<<<"value",<<"bool">>>>>>],
  [f|->"ElicitResultContentPrimitive.From<i64>",o|->"ElicitResultContentPrimitive",n|->"From",s|->"",a|-><<<<"value",<<"i64">>>>>>],
  [f|->"EmbeddedResource.new",o|->"EmbeddedResource",n|->"new",s|->"",a|-><<<<"resource",<<"ref","EmbeddedResourceResource">>>>,<<"annotations",<<"opt",<<"ref","Annotations">>>>>>,<<"meta",<<"opt",<<"ref","MetaObject">>>>>>>>],
  [f|->"EmbeddedResource.type_",o|->"EmbeddedResource",n|->"type_",s|->"ref",a|-><<>>],
  [f|->"EmbeddedResource.type_value",o|->"EmbeddedResource",n|->"type_value",s|->"",a|-><<>>],
  [f|->"EmbeddedResource.type_name",o|->"EmbeddedResource",n|->"type_name",s|->"",a|-><<>>],
  [f|->"EmbeddedResourceResource.From<TextResourceContents>",o|->"EmbeddedResourceResource",n|->"From",s|->"",a|-><<<<"value",<<"ref","TextResourceContents">>>>>>],
  [f|->"EmbeddedResourceResource.From<BlobResourceContents>",o|->"EmbeddedResourceResource",n|->"From",s|->"",a|-><<<<"value",<<"ref","BlobResourceContents">>>>>>],
  [f|->"EnumSchema.From<UntitledSingleSelectEnumSchema>",o|->"EnumSchema",n|->"From",s|->"",a|-><<<<"value",<<"ref","UntitledSingleSelectEnumSchema">>>>>>],
  [f|->"EnumSchema.From<TitledSingleSelectEnumSchema>",o|->"EnumSchema",n|->"From",s|->"",a|-><<<<"value",<<"ref","TitledSingleSelectEnumSchema">>>>>>],
  [f|->"EnumSchema.From<UntitledMultiSelectEnumSchema>",o|->"EnumSchema",n|->"From",s|->"",a|-><<<<"value",<<"ref","UntitledMultiSelectEnumSchema">>>>>>],
  [f|->"EnumSchema.From<TitledMultiSelectEnumSchema>",o|->"EnumSchema",n|->"From",s|->"",a|-><<<<"value",<<"ref","TitledMultiSelectEnumSchema">>>>>>],
  [f|->"EnumSchema.From<LegacyTitledEnumSchema>",o|->"EnumSchema",n|->"From",s|->"",a|-><<<<"value",<<"ref","LegacyTitledEnumSchema">>>>>>],
  [f|->"GetPromptRequest.new",o|->"GetPromptRequest",n|->"new",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"params",<<"ref","GetPromptRequestParams">>>>>>],
  [f|->"GetPromptRequest.jsonrpc",o|->"GetPromptRequest",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"GetPromptRequest.method",o|->"GetPromptRequest",n|->"method",s|->"ref",a|-><<>>],
  [f|->"GetPromptRequest.method_value",o|->"GetPromptRequest",n|->"method_value",s|->"",a|-><<>>],
  [f|->"GetPromptRequest.method_name",o|->"GetPromptRequest",n|->"method_name",s|->"",a|-><<>>],
  [f|->"GetPromptResultResponse.new",o|->"GetPromptResultResponse",n|->"new",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"result",<<"ref","GetPromptResultResponseResult">>>>>>],
  [f|->"GetPromptResultResponse.jsonrpc",o|->"GetPromptResultResponse",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"GetPromptResultResponseResult.From<InputRequiredResult>",o|->"GetPromptResultResponseResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","InputRequiredResult">>>>>>],
  [f|->"GetPromptResultResponseResult.From<GetPromptResult>",o|->"GetPromptResultResponseResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","GetPromptResult">>>>>>],
  [f|->"HeaderMismatchError.new",o|->"HeaderMismatchError",n|->"new",s|->"",a|-><<<<"error",<<"ref","RpcError">>>>,<<"id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"HeaderMismatchError.jsonrpc",o|->"HeaderMismatchError",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"IconTheme.Display",o|->"IconTheme",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"ImageContent.new",o|->"ImageContent",n|->"new",s|->"",a|-><<<<"data",<<"str">>>>,<<"mime_type",<<"str">>>>,<<"annotations",<<"opt",<<"ref","Annotations">>>>>>,<<"meta",<<"opt",<<"ref","MetaObject">>>>>>>>],
  [f|->"ImageContent.type_",o|->"ImageContent",n|->"type_",s|->"ref",a|-><<>>],
  [f|->"ImageContent.type_value",o|->"ImageContent",n|->"type_value",s|->"",a|-><<>>],
  [f|->"ImageContent.type_name",o|->"ImageContent",n|->"type_name",s|->"",a|-><<>>],
  [f|->"IncludeContext.Display",o|->"IncludeContext",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"InputRequest.From<CreateMessageRequest>",o|->"InputRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","CreateMessageRequest">>>>>>],
  [f|->"InputRequest.From<ListRootsRequest>",o|->"InputRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListRootsRequest">>>>>>],
  [f|->"InputRequest.From<ElicitRequest>",o|->"InputRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","ElicitRequest">>>>>>],
  [f|->"InputResponse.From<CreateMessageResult>",o|->"InputResponse",n|->"From",s|->"",a|-><<<<"value",<<"ref","CreateMessageResult">>>>>>],
  [f|->"InputResponse.From<ListRootsResult>",o|->"InputResponse",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListRootsResult">>>>>>],
  [f|->"InputResponse.From<ElicitResult>",o|->"InputResponse",n|->"From",s|->"",a|-><<<<"value",<<"ref","ElicitResult">>>>>>],
  [f|->"JsonValue.From<JsonObject>",o|->"JsonValue",n|->"From",s|->"",a|-><<<<"value",<<"ref","JsonObject">>>>>>],
  [f|->"JsonValue.From<Vec<JsonValue>>",o|->"JsonValue",n|->"From",s|->"",a|-><<<<"value",<<"vec",<<"ref","JsonValue">>>>>>>>],
  [f|->"JsonValue.From<JsonValueVariant2>",o|->"JsonValue",n|->"From",s|->"",a|-><<<<"value",<<"ref","JsonValueVariant2">>>>>>],
  [f|->"JsonValueVariant2.From<bool>",o|->"JsonValueVariant2",n|->"From",s|->"",a|-><<<<"value",<<"bool">>>>>>],
  [f|->"JsonValueVariant2.From<i64>",o|->"JsonValueVariant2",n|->"From",s|->"",a|-><<<<"value",<<"i64">>>>>>],
  [f|->"JsonrpcErrorResponse.new",o|->"JsonrpcErrorResponse",n|->"new",s|->"",a|-><<<<"error",<<"ref","RpcError">>>>,<<"id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"JsonrpcErrorResponse.jsonrpc",o|->"JsonrpcErrorResponse",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"JsonrpcMessage.From<JsonrpcRequest>",o|->"JsonrpcMessage",n|->"From",s|->"",a|-><<<<"value",<<"ref","JsonrpcRequest">>>>>>],
  [f|->"JsonrpcMessage.From<JsonrpcNotification>",o|->"JsonrpcMessage",n|->"From",s|->"",a|-><<<<"value",<<"ref","JsonrpcNotification">>>>>>],
  [f|->"JsonrpcMessage.From<JsonrpcResultResponse>",o|->"JsonrpcMessage",n|->"From",s|->"",a|-><<<<"value",<<"ref","JsonrpcResultResponse">>>>>>],
  [f|->"JsonrpcMessage.From<JsonrpcErrorResponse>",o|->"JsonrpcMessage",n|->"From",s|->"",a|-><<<<"value",<<"ref","JsonrpcErrorResponse">>>>>>],
  [f|->"JsonrpcNotification.new",o|->"JsonrpcNotification",n|->"new",s|->"",a|-><<<<"method",<<"str">>>>,<<"params",<<"opt",<<"map">>>>>>>>],
  [f|->"JsonrpcNotification.jsonrpc",o|->"JsonrpcNotification",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"JsonrpcRequest.new",o|->"JsonrpcRequest",n|->"new",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"method",<<"str">>>>,<<"params",<<"opt",<<"map">>>>>>>>],
  [f|->"JsonrpcRequest.jsonrpc",o|->"JsonrpcRequest",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"JsonrpcResponse.From<JsonrpcResultResponse>",o|->"JsonrpcResponse",n|->"From",s|->"",a|-><<<<"value",<<"ref","JsonrpcResultResponse">>>>>>],
  [f|->"JsonrpcResponse.From<JsonrpcErrorResponse>",o|->"JsonrpcResponse",n|->"From",s|->"",a|-><<<<"value",<<"ref","JsonrpcErrorResponse">>>>>>],
  [f|->"JsonrpcResultResponse.new",o|->"JsonrpcResultResponse",n|->"new",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"result",<<"ref","Result">>>>>>],
  [f|->"JsonrpcResultResponse.jsonrpc",o|->"JsonrpcResultResponse",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"LegacyTitledEnumSchema.new",o|->"LegacyTitledEnumSchema",n|->"new",s|->"",a|-><<<<"enum_",<<"vec",<<"str">>>>>>,<<"enum_names",<<"vec",<<"str">>>>>>,<<"default",<<"opt",<<"str">>>>>>,<<"description",<<"opt",<<"str">>>>>>,<<"title",<<"opt",<<"str">>>>>>>>],
  [f|->"LegacyTitledEnumSchema.type_",o|->"LegacyTitledEnumSchema",n|->"type_",s|->"ref",a|-><<>>],
  [f|->"LegacyTitledEnumSchema.type_value",o|->"LegacyTitledEnumSchema",n|->"type_value",s|->"",a|-><<>>],
  [f|->"LegacyTitledEnumSchema.type_name",o|->"LegacyTitledEnumSchema",n|->"type_name",s|->"",a|-><<>>],
  [f|->"ListPromptsRequest.new",o|->"ListPromptsRequest",n|->"new",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"params",<<"ref","PaginatedRequestParams">>>>>>],
  [f|->"ListPromptsRequest.jsonrpc",o|->"ListPromptsRequest",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"ListPromptsRequest.method",o|->"ListPromptsRequest",n|->"method",s|->"ref",a|-><<>>],
  [f|->"ListPromptsRequest.method_value",o|->"ListPromptsRequest",n|->"method_value",s|->"",a|-><<>>],
  [f|->"ListPromptsRequest.method_name",o|->"ListPromptsRequest",n|->"method_name",s|->"",a|-><<>>],
  [f|->"ListPromptsResultCacheScope.Display",o|->"ListPromptsResultCacheScope",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"ListPromptsResultResponse.new",o|->"ListPromptsResultResponse",n|->"new",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"result",<<"ref","ListPromptsResult">>>>>>],
  [f|->"ListPromptsResultResponse.jsonrpc",o|->"ListPromptsResultResponse",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"ListResourceTemplatesRequest.new",o|->"ListResourceTemplatesRequest",n|->"new",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"params",<<"ref","PaginatedRequestParams">>>>>>],
  [f|->"ListResourceTemplatesRequest.jsonrpc",o|->"ListResourceTemplatesRequest",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"ListResourceTemplatesRequest.method",o|->"ListResourceTemplatesRequest",n|->"method",s|->"ref",a|-><<>>],
  [f|->"ListResourceTemplatesRequest.method_value",o|->"ListResourceTemplatesRequest",n|->"method_value",s|->"",a|-><<>>],
  [f|->"ListResourceTemplatesRequest.method_name",o|->"ListResourceTemplatesRequest",n|->"method_name",s|->"",a|-><<>>],
  [f|->"ListResourceTemplatesResultCacheScope.Display",o|->"ListResourceTemplatesResultCacheScope",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"ListResourceTemplatesResultResponse.new",o|->"ListResourceTemplatesResultResponse",n|->"new",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"result",<<"ref","ListResourceTemplatesResult">>>>>>],
  [f|->"ListResourceTemplatesResultResponse.jsonrpc",o|->"ListResourceTemplatesResultResponse",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"ListResourcesRequest.new",o|->"ListResourcesRequest",n|->"new",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"params",<<"ref","PaginatedRequestParams">>>>>>],
  [f|->"ListResourcesRequest.jsonrpc",o|->"ListResourcesRequest",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"ListResourcesRequest.method",o|->"ListResourcesRequest",n|->"method",s|->"ref",a|-><<>>],
  [f|->"ListResourcesRequest.method_value",o|->"ListResourcesRequest",n|->"method_value",s|->"",a|-><<>>],
  [f|->"ListResourcesRequest.method_name",o|->"ListResourcesRequest",n|->"method_name",s|->"",a|-><<>>],
  [f|->"ListResourcesResultCacheScope.Display",o|->"ListResourcesResultCacheScope",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"ListResourcesResultResponse.new",o|->"ListResourcesResultResponse",n|->"new",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"result",<<"ref","ListResourcesResult">>>>>>],
  [f|->"ListResourcesResultResponse.jsonrpc",o|->"ListResourcesResultResponse",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"ListRootsRequest.new",o|->"ListRootsRequest",n|->"new",s|->"",a|-><<<<"params",<<"opt",<<"ref","ListRootsRequestParams">>>>>>>>],
  [f|->"ListRootsRequest.method",o|->"ListRootsRequest",n|->"method",s|->"ref",a|-><<>>],
  [f|->"ListRootsRequest.method_value",o|->"ListRootsRequest",n|->"method_value",s|->"",a|-><<>>],
  [f|->"ListRootsRequest.method_name",o|->"ListRootsRequest",n|->"method_name",s|->"",a|-><<>>],
  [f|->"ListToolsRequest.new",o|->"ListToolsRequest",n|->"new",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"params",<<"ref","PaginatedRequestParams">>>>>>],
  [f|->"ListToolsRequest.jsonrpc",o|->"ListToolsRequest",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"ListToolsRequest.method",o|->"ListToolsRequest",n|->"method",s|->"ref",a|-><<>>],
  [f|->"ListToolsRequest.method_value",o|->"ListToolsRequest",n|->"method_value",s|->"",a|-><<>>],
  [f|->"ListToolsRequest.method_name",o|->"ListToolsRequest",n|->"method_name",s|->"",a|-><<>>],
  [f|->"ListToolsResultCacheScope.Display",o|->"ListToolsResultCacheScope",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"ListToolsResultResponse.new",o|->"ListToolsResultResponse",n|->"new",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"result",<<"ref","ListToolsResult">>>>>>],
  [f|->"ListToolsResultResponse.jsonrpc",o|->"ListToolsResultResponse",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"LoggingLevel.Display",o|->"LoggingLevel",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"LoggingMessageNotification.new",o|->"LoggingMessageNotification",n|->"new",s|->"",a|-><<<<"params",<<"ref","LoggingMessageNotificationParams">>>>>>],
  [f|->"LoggingMessageNotification.jsonrpc",o|->"LoggingMessageNotification",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"LoggingMessageNotification.method",o|->"LoggingMessageNotification",n|->"method",s|->"ref",a|-><<>>],
  [f|->"LoggingMessageNotification.method_value",o|->"LoggingMessageNotification",n|->"method_value",s|->"",a|-><<>>],
  [f|->"LoggingMessageNotification.method_name",o|->"LoggingMessageNotification",n|->"method_name",s|->"",a|-><<>>],
  [f|->"MissingRequiredClientCapabilityError.new",o|->"MissingRequiredClientCapabilityError",n|->"new",s|->"",a|-><<<<"error",<<"ref","MissingRequiredClientCapabilityErrorError">>>>,<<"id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"MissingRequiredClientCapabilityError.jsonrpc",o|->"MissingRequiredClientCapabilityError",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"MultiSelectEnumSchema.From<UntitledMultiSelectEnumSchema>",o|->"MultiSelectEnumSchema",n|->"From",s|->"",a|-><<<<"value",<<"ref","UntitledMultiSelectEnumSchema">>>>>>],
  [f|->"MultiSelectEnumSchema.From<TitledMultiSelectEnumSchema>",o|->"MultiSelectEnumSchema",n|->"From",s|->"",a|-><<<<"value",<<"ref","TitledMultiSelectEnumSchema">>>>>>],
  [f|->"NumberSchemaType.Display",o|->"NumberSchemaType",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"PaginatedRequest.new",o|->"PaginatedRequest",n|->"new",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"method",<<"str">>>>,<<"params",<<"ref","PaginatedRequestParams">>>>>>],
  [f|->"PaginatedRequest.jsonrpc",o|->"PaginatedRequest",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"PrimitiveSchemaDefinition.From<StringSchema>",o|->"PrimitiveSchemaDefinition",n|->"From",s|->"",a|-><<<<"value",<<"ref","StringSchema">>>>>>],
  [f|->"PrimitiveSchemaDefinition.From<NumberSchema>",o|->"PrimitiveSchemaDefinition",n|->"From",s|->"",a|-><<<<"value",<<"ref","NumberSchema">>>>>>],
  [f|->"PrimitiveSchemaDefinition.From<BooleanSchema>",o|->"PrimitiveSchemaDefinition",n|->"From",s|->"",a|-><<<<"value",<<"ref","BooleanSchema">>>>>>],
  [f|->"PrimitiveSchemaDefinition.From<UntitledSingleSelectEnumSchema>",o|->"PrimitiveSchemaDefinition",n|->"From",s|->"",a|-><<<<"value",<<"ref","UntitledSingleSelectEnumSchema">>>>>>],
  [f|->"PrimitiveSchemaDefinition.From<TitledSingleSelectEnumSchema>",o|->"PrimitiveSchemaDefinition",n|->"From",s|->"",a|-><<<<"value",<<"ref","TitledSingleSelectEnumSchema">>>>>>],
  [f|->"PrimitiveSchemaDefinition.From<UntitledMultiSelectEnumSchema>",o|->"PrimitiveSchemaDefinition",n|->"From",s|->"",a|-><<<<"value",<<"ref","UntitledMultiSelectEnumSchema">>>>>>],
  [f|->"PrimitiveSchemaDefinition.From<TitledMultiSelectEnumSchema>",o|->"PrimitiveSchemaDefinition",n|->"From",s|->"",a|-><<<<"value",<<"ref","TitledMultiSelectEnumSchema">>>>>>],
  [f|->"PrimitiveSchemaDefinition.From<LegacyTitledEnumSchema>",o|->"PrimitiveSchemaDefinition",n|->"From",s|->"",a|-><<<<"value",<<"ref","LegacyTitledEnumSchema">>>>>>],
  [f|->"ProgressNotification.new",o|->"ProgressNotification",n|->"new",s|->"",a|-><<<<"params",<<"ref","ProgressNotificationParams">>>>>>],
  [f|->"ProgressNotification.jsonrpc",o|->"ProgressNotification",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"ProgressNotification.method",o|->"ProgressNotification",n|->"method",s|->"ref",a|-><<>>],
  [f|->"ProgressNotification.method_value",o|->"ProgressNotification",n|->"method_value",s|->"",a|-><<>>],
  [f|->"ProgressNotification.method_name",o|->"ProgressNotification",n|->"method_name",s|->"",a|-><<>>],
  [f|->"ProgressToken.From<i64>",o|->"ProgressToken",n|->"From",s|->"",a|-><<<<"value",<<"i64">>>>>>],
  [f|->"PromptListChangedNotification.new",o|->"PromptListChangedNotification",n|->"new",s|->"",a|-><<<<"params",<<"opt",<<"ref","NotificationParams">>>>>>>>],
  [f|->"PromptListChangedNotification.jsonrpc",o|->"PromptListChangedNotification",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"PromptListChangedNotification.method",o|->"PromptListChangedNotification",n|->"method",s|->"ref",a|-><<>>],
  [f|->"PromptListChangedNotification.method_value",o|->"PromptListChangedNotification",n|->"method_value",s|->"",a|-><<>>],
  [f|->"PromptListChangedNotification.method_name",o|->"PromptListChangedNotification",n|->"method_name",s|->"",a|-><<>>],
  [f|->"PromptReference.new",o|->"PromptReference",n|->"new",s|->"",a|-><<<<"name",<<"str">>>>,<<"title",<<"opt",<<"str">>>>>>>>],
  [f|->"PromptReference.type_",o|->"PromptReference",n|->"type_",s|->"ref",a|-><<>>],
  [f|->"PromptReference.type_value",o|->"PromptReference",n|->"type_value",s|->"",a|-><<>>],
  [f|->"PromptReference.type_name",o|->"PromptReference",n|->"type_name",s|->"",a|-><<>>],
  [f|->"ReadResourceContent.From<TextResourceContents>",o|->"ReadResourceContent",n|->"From",s|->"",a|-><<<<"value",<<"ref","TextResourceContents">>>>>>],
  [f|->"ReadResourceContent.From<BlobResourceContents>",o|->"ReadResourceContent",n|->"From",s|->"",a|-><<<<"value",<<"ref","BlobResourceContents">>>>>>],
  [f|->"ReadResourceRequest.new",o|->"ReadResourceRequest",n|->"new",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"params",<<"ref","ReadResourceRequestParams">>>>>>],
  [f|->"ReadResourceRequest.jsonrpc",o|->"ReadResourceRequest",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"ReadResourceRequest.method",o|->"ReadResourceRequest",n|->"method",s|->"ref",a|-><<>>],
  [f|->"ReadResourceRequest.method_value",o|->"ReadResourceRequest",n|->"method_value",s|->"",a|-><<>>],
  [f|->"ReadResourceRequest.method_name",o|->"ReadResourceRequest",n|->"method_name",s|->"",a|-><<>>],
  [f|->"ReadResourceResultCacheScope.Display",o|->"ReadResourceResultCacheScope",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"ReadResourceResultResponse.new",o|->"ReadResourceResultResponse",n|->"new",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"result",<<"ref","ReadResourceResultResponseResult">>>>>>],
  [f|->"ReadResourceResultResponse.jsonrpc",o|->"ReadResourceResultResponse",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"ReadResourceResultResponseResult.From<InputRequiredResult>",o|->"ReadResourceResultResponseResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","InputRequiredResult">>>>>>],
  [f|->"ReadResourceResultResponseResult.From<ReadResourceResult>",o|->"ReadResourceResultResponseResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","ReadResourceResult">>>>>>],
  [f|->"RequestId.From<i64>",o|->"RequestId",n|->"From",s|->"",a|-><<<<"value",<<"i64">>>>>>],
  [f|->"ResourceLink.new",o|->"ResourceLink",n|->"new",s|->"",a|-><<<<"icons",<<"vec",<<"ref","Icon">>>>>>,<<"name",<<"str">>>>,<<"uri",<<"str">>>>,<<"annotations",<<"opt",<<"ref","Annotations">>>>>>,<<"description",<<"opt",<<"str">>>>>>,<<"meta",<<"opt",<<"ref","MetaObject">>>>>>,<<"mime_type",<<"opt",<<"str">>>>>>,<<"size",<<"opt",<<"i64">>>>>>,<<"title",<<"opt",<<"str">>>>>>>>],
  [f|->"ResourceLink.type_",o|->"ResourceLink",n|->"type_",s|->"ref",a|-><<>>],
  [f|->"ResourceLink.type_value",o|->"ResourceLink",n|->"type_value",s|->"",a|-><<>>],
  [f|->"ResourceLink.type_name",o|->"ResourceLink",n|->"type_name",s|->"",a|-><<>>],
  [f|->"ResourceListChangedNotification.new",o|->"ResourceListChangedNotification",n|->"new",s|->"",a|-><<<<"params",<<"opt",<<"ref","NotificationParams">>>>>>>>],
  [f|->"ResourceListChangedNotification.jsonrpc",o|->"ResourceListChangedNotification",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"ResourceListChangedNotification.method",o|->"ResourceListChangedNotification",n|->"method",s|->"ref",a|-><<>>],
  [f|->"ResourceListChangedNotification.method_value",o|->"ResourceListChangedNotification",n|->"method_value",s|->"",a|-><<>>],
  [f|->"ResourceListChangedNotification.method_name",o|->"ResourceListChangedNotification",n|->"method_name",s|->"",a|-><<>>],
  [f|->"ResourceTemplateReference.new",o|->"ResourceTemplateReference",n|->"new",s|->"",a|-><<<<"uri",<<"str">>>>>>],
  [f|->"ResourceTemplateReference.type_",o|->"ResourceTemplateReference",n|->"type_",s|->"ref",a|-><<>>],
  [f|->"ResourceTemplateReference.type_value",o|->"ResourceTemplateReference",n|->"type_value",s|->"",a|-><<>>],
  [f|->"ResourceTemplateReference.type_name",o|->"ResourceTemplateReference",n|->"type_name",s|->"",a|-><<>>],
  [f|->"ResourceUpdatedNotification.new",o|->"ResourceUpdatedNotification",n|->"new",s|->"",a|-><<<<"params",<<"ref","ResourceUpdatedNotificationParams">>>>>>],
  [f|->"ResourceUpdatedNotification.jsonrpc",o|->"ResourceUpdatedNotification",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"ResourceUpdatedNotification.method",o|->"ResourceUpdatedNotification",n|->"method",s|->"ref",a|-><<>>],
  [f|->"ResourceUpdatedNotification.method_value",o|->"ResourceUpdatedNotification",n|->"method_value",s|->"",a|-><<>>],
  [f|->"ResourceUpdatedNotification.method_name",o|->"ResourceUpdatedNotification",n|->"method_name",s|->"",a|-><<>>],
  [f|->"Role.Display",o|->"Role",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"SamplingMessageContent.From<TextContent>",o|->"SamplingMessageContent",n|->"From",s|->"",a|-><<<<"value",<<"ref","TextContent">>>>>>],
  [f|->"SamplingMessageContent.From<ImageContent>",o|->"SamplingMessageContent",n|->"From",s|->"",a|-><<<<"value",<<"ref","ImageContent">>>>>>],
  [f|->"SamplingMessageContent.From<AudioContent>",o|->"SamplingMessageContent",n|->"From",s|->"",a|-><<<<"value",<<"ref","AudioContent">>>>>>],
  [f|->"SamplingMessageContent.From<ToolUseContent>",o|->"SamplingMessageContent",n|->"From",s|->"",a|-><<<<"value",<<"ref","ToolUseContent">>>>>>],
  [f|->"SamplingMessageContent.From<ToolResultContent>",o|->"SamplingMessageContent",n|->"From",s|->"",a|-><<<<"value",<<"ref","ToolResultContent">>>>>>],
  [f|->"SamplingMessageContent.From<Vec<SamplingMessageContentBlock>>",o|->"SamplingMessageContent",n|->"From",s|->"",a|-><<<<"value",<<"vec",<<"ref","SamplingMessageContentBlock">>>>>>>>],
  [f|->"SamplingMessageContentBlock.From<TextContent>",o|->"SamplingMessageContentBlock",n|->"From",s|->"",a|-><<<<"value",<<"ref","TextContent">>>>>>],
  [f|->"SamplingMessageContentBlock.From<ImageContent>",o|->"SamplingMessageContentBlock",n|->"From",s|->"",a|-><<<<"value",<<"ref","ImageContent">>>>>>],
  [f|->"SamplingMessageContentBlock.From<AudioContent>",o|->"SamplingMessageContentBlock",n|->"From",s|->"",a|-><<<<"value",<<"ref","AudioContent">>>>>>],
  [f|->"SamplingMessageContentBlock.From<ToolUseContent>",o|->"SamplingMessageContentBlock",n|->"From",s|->"",a|-><<<<"value",<<"ref","ToolUseContent">>>>>>],
  [f|->"SamplingMessageContentBlock.From<ToolResultContent>",o|->"SamplingMessageContentBlock",n|->"From",s|->"",a|-><<<<"value",<<"ref","ToolResultContent">>>>>>],
  [f|->"ServerNotification.From<CancelledNotification>",o|->"ServerNotification",n|->"From",s|->"",a|-><<<<"value",<<"ref","CancelledNotification">>>>>>],
  [f|->"ServerNotification.From<ProgressNotification>",o|->"ServerNotification",n|->"From",s|->"",a|-><<<<"value",<<"ref","ProgressNotification">>>>>>],
  [f|->"ServerNotification.From<ResourceListChangedNotification>",o|->"ServerNotification",n|->"From",s|->"",a|-><<<<"value",<<"ref","ResourceListChangedNotification">>>>>>],
  [f|->"ServerNotification.From<SubscriptionsAcknowledgedNotification>",o|->"ServerNotification",n|->"From",s|->"",a|-><<<<"value",<<"ref","SubscriptionsAcknowledgedNotification">>>>>>],
  [f|->"ServerNotification.From<ResourceUpdatedNotification>",o|->"ServerNotification",n|->"From",s|->"",a|-><<<<"value",<<"ref","ResourceUpdatedNotification">>>>>>],
  [f|->"ServerNotification.From<PromptListChangedNotification>",o|->"ServerNotification",n|->"From",s|->"",a|-><<<<"value",<<"ref","PromptListChangedNotification">>>>>>],
  [f|->"ServerNotification.From<ToolListChangedNotification>",o|->"ServerNotification",n|->"From",s|->"",a|-><<<<"value",<<"ref","ToolListChangedNotification">>>>>>],
  [f|->"ServerNotification.From<LoggingMessageNotification>",o|->"ServerNotification",n|->"From",s|->"",a|-><<<<"value",<<"ref","LoggingMessageNotification">>>>>>],
  [f|->"ServerResult.From<InputRequiredResult>",o|->"ServerResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","InputRequiredResult">>>>>>],
  [f|->"ServerResult.From<DiscoverResult>",o|->"ServerResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","DiscoverResult">>>>>>],
  [f|->"ServerResult.From<ListResourcesResult>",o|->"ServerResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListResourcesResult">>>>>>],
  [f|->"ServerResult.From<ListResourceTemplatesResult>",o|->"ServerResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListResourceTemplatesResult">>>>>>],
  [f|->"ServerResult.From<ReadResourceResult>",o|->"ServerResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","ReadResourceResult">>>>>>],
  [f|->"ServerResult.From<SubscriptionsListenResult>",o|->"ServerResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","SubscriptionsListenResult">>>>>>],
  [f|->"ServerResult.From<ListPromptsResult>",o|->"ServerResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListPromptsResult">>>>>>],
  [f|->"ServerResult.From<GetPromptResult>",o|->"ServerResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","GetPromptResult">>>>>>],
  [f|->"ServerResult.From<ListToolsResult>",o|->"ServerResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListToolsResult">>>>>>],
  [f|->"ServerResult.From<CallToolResult>",o|->"ServerResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","CallToolResult">>>>>>],
  [f|->"ServerResult.From<CompleteResult>",o|->"ServerResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","CompleteResult">>>>>>],
  [f|->"ServerResult.From<Result>",o|->"ServerResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","Result">>>>>>],
  [f|->"SingleSelectEnumSchema.From<UntitledSingleSelectEnumSchema>",o|->"SingleSelectEnumSchema",n|->"From",s|->"",a|-><<<<"value",<<"ref","UntitledSingleSelectEnumSchema">>>>>>],
  [f|->"SingleSelectEnumSchema.From<TitledSingleSelectEnumSchema>",o|->"SingleSelectEnumSchema",n|->"From",s|->"",a|-><<<<"value",<<"ref","TitledSingleSelectEnumSchema">>>>>>],
  [f|->"StringSchema.new",o|->"StringSchema",n|->"new",s|->"",a|-><<<<"default",<<"opt",<<"str">>>>>>,<<"description",<<"opt",<<"str">>>>>>,<<"format",<<"opt",<<"ref","StringSchemaFormat">>>>>>,<<"max_length",<<"opt",<<"i64">>>>>>,<<"min_length",<<"opt",<<"i64">>>>>>,<<"title",<<"opt",<<"str">>>>>>>>],
  [f|->"StringSchema.type_",o|->"StringSchema",n|->"type_",s|->"ref",a|-><<>>],
  [f|->"StringSchema.type_value",o|->"StringSchema",n|->"type_value",s|->"",a|-><<>>],
  [f|->"StringSchema.type_name",o|->"StringSchema",n|->"type_name",s|->"",a|-><<>>],
  [f|->"StringSchemaFormat.Display",o|->"StringSchemaFormat",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"SubscriptionsAcknowledgedNotification.new",o|->"SubscriptionsAcknowledgedNotification",n|->"new",s|->"",a|-><<<<"params",<<"ref","SubscriptionsAcknowledgedNotificationParams">>>>>>],
  [f|->"SubscriptionsAcknowledgedNotification.jsonrpc",o|->"SubscriptionsAcknowledgedNotification",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"SubscriptionsAcknowledgedNotification.method",o|->"SubscriptionsAcknowledgedNotification",n|->"method",s|->"ref",a|-><<>>],
  [f|->"SubscriptionsAcknowledgedNotification.method_value",o|->"SubscriptionsAcknowledgedNotification",n|->"method_value",s|->"",a|-><<>>],
  [f|->"SubscriptionsAcknowledgedNotification.method_name",o|->"SubscriptionsAcknowledgedNotification",n|->"method_name",s|->"",a|-><<>>],
  [f|->"SubscriptionsListenRequest.new",o|->"SubscriptionsListenRequest",n|->"new",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"params",<<"ref","SubscriptionsListenRequestParams">>>>>>],
  [f|->"SubscriptionsListenRequest.jsonrpc",o|->"SubscriptionsListenRequest",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"SubscriptionsListenRequest.method",o|->"SubscriptionsListenRequest",n|->"method",s|->"ref",a|-><<>>],
  [f|->"SubscriptionsListenRequest.method_value",o|->"SubscriptionsListenRequest",n|->"method_value",s|->"",a|-><<>>],
  [f|->"SubscriptionsListenRequest.method_name",o|->"SubscriptionsListenRequest",n|->"method_name",s|->"",a|-><<>>],
  [f|->"SubscriptionsListenResultResponse.new",o|->"SubscriptionsListenResultResponse",n|->"new",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"result",<<"ref","SubscriptionsListenResult">>>>>>],
  [f|->"SubscriptionsListenResultResponse.jsonrpc",o|->"SubscriptionsListenResultResponse",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"TextContent.new",o|->"TextContent",n|->"new",s|->"",a|-><<<<"text",<<"str">>>>,<<"annotations",<<"opt",<<"ref","Annotations">>>>>>,<<"meta",<<"opt",<<"ref","MetaObject">>>>>>>>],
  [f|->"TextContent.type_",o|->"TextContent",n|->"type_",s|->"ref",a|-><<>>],
  [f|->"TextContent.type_value",o|->"TextContent",n|->"type_value",s|->"",a|-><<>>],
  [f|->"TextContent.type_name",o|->"TextContent",n|->"type_name",s|->"",a|-><<>>],
  [f|->"TitledMultiSelectEnumSchema.new",o|->"TitledMultiSelectEnumSchema",n|->"new",s|->"",a|-><<<<"default",<<"vec",<<"str">>>>>>,<<"items",<<"ref","TitledMultiSelectEnumSchemaItems">>>>,<<"description",<<"opt",<<"str">>>>>>,<<"max_items",<<"opt",<<"i64">>>>>>,<<"min_items",<<"opt",<<"i64">>>>>>,<<"title",<<"opt",<<"str">>>>>>>>],
  [f|->"TitledMultiSelectEnumSchema.type_",o|->"TitledMultiSelectEnumSchema",n|->"type_",s|->"ref",a|-><<>>],
  [f|->"TitledMultiSelectEnumSchema.type_value",o|->"TitledMultiSelectEnumSchema",n|->"type_value",s|->"",a|-><<>>],
  [f|->"TitledMultiSelectEnumSchema.type_name",o|->"TitledMultiSelectEnumSchema",n|->"type_name",s|->"",a|-><<>>],
  [f|->"TitledSingleSelectEnumSchema.new",o|->"TitledSingleSelectEnumSchema",n|->"new",s|->"",a|-><<<<"one_of",<<"vec",<<"ref","TitledSingleSelectEnumSchemaOneOfItem">>>>>>,<<"default",<<"opt",<<"str">>>>>>,<<"description",<<"opt",<<"str">>>>>>,<<"title",<<"opt",<<"str">>>>>>>>],
  [f|->"TitledSingleSelectEnumSchema.type_",o|->"TitledSingleSelectEnumSchema",n|->"type_",s|->"ref",a|-><<>>],
  [f|->"TitledSingleSelectEnumSchema.type_value",o|->"TitledSingleSelectEnumSchema",n|->"type_value",s|->"",a|-><<>>],
  [f|->"TitledSingleSelectEnumSchema.type_name",o|->"TitledSingleSelectEnumSchema",n|->"type_name",s|->"",a|-><<>>],
  [f|->"ToolChoiceMode.Display",o|->"ToolChoiceMode",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"ToolInputSchema.new",o|->"ToolInputSchema",n|->"new",s|->"",a|-><<<<"schema",<<"opt",<<"str">>>>>>,<<"extra",<<"opt",<<"map">>>>>>>>],
  [f|->"ToolInputSchema.type_",o|->"ToolInputSchema",n|->"type_",s|->"ref",a|-><<>>],
  [f|->"ToolInputSchema.type_value",o|->"ToolInputSchema",n|->"type_value",s|->"",a|-><<>>],
  [f|->"ToolInputSchema.type_name",o|->"ToolInputSchema",n|->"type_name",s|->"",a|-><<>>],
  [f|->"ToolListChangedNotification.new",o|->"ToolListChangedNotification",n|->"new",s|->"",a|-><<<<"params",<<"opt",<<"ref","NotificationParams">>>>>>>>],
  [f|->"ToolListChangedNotification.jsonrpc",o|->"ToolListChangedNotification",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"ToolListChangedNotification.method",o|->"ToolListChangedNotification",n|->"method",s|->"ref",a|-><<>>],
  [f|->"ToolListChangedNotification.method_value",o|->"ToolListChangedNotification",n|->"method_value",s|->"",a|-><<>>],
  [f|->"ToolListChangedNotification.method_name",o|->"ToolListChangedNotification",n|->"method_name",s|->"",a|-><<>>],
  [f|->"ToolResultContent.new",o|->"ToolResultContent",n|->"new",s|->"",a|-><<<<"content",<<"vec",<<"ref","ContentBlock">>>>>>,<<"tool_use_id",<<"str">>>>,<<"is_error",<<"opt",<<"bool">>>>>>,<<"meta",<<"opt",<<"ref","MetaObject">>>>>>,<<"structured_content",<<"opt",<<"val">>>>>>>>],
  [f|->"ToolResultContent.type_",o|->"ToolResultContent",n|->"type_",s|->"ref",a|-><<>>],
  [f|->"ToolResultContent.type_value",o|->"ToolResultContent",n|->"type_value",s|->"",a|-><<>>],
  [f|->"ToolResultContent.type_name",o|->"ToolResultContent",n|->"type_name",s|->"",a|-><<>>],
  [f|->"ToolUseContent.new",o|->"ToolUseContent",n|->"new",s|->"",a|-><<<<"id",<<"str">>>>,<<"input",<<"map">>>>,<<"name",<<"str">>>>,<<"meta",<<"opt",<<"ref","MetaObject">>>>>>>>],
  [f|->"ToolUseContent.type_",o|->"ToolUseContent",n|->"type_",s|->"ref",a|-><<>>],
  [f|->"ToolUseContent.type_value",o|->"ToolUseContent",n|->"type_value",s|->"",a|-><<>>],
  [f|->"ToolUseContent.type_name",o|->"ToolUseContent",n|->"type_name",s|->"",a|-><<>>],
  [f|->"UnsupportedProtocolVersionError.new",o|->"UnsupportedProtocolVersionError",n|->"new",s|->"",a|-><<<<"error",<<"ref","UnsupportedProtocolVersionErrorError">>>>,<<"id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"UnsupportedProtocolVersionError.jsonrpc",o|->"UnsupportedProtocolVersionError",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"UntitledMultiSelectEnumSchema.new",o|->"UntitledMultiSelectEnumSchema",n|->"new",s|->"",a|-><<<<"default",<<"vec",<<"str">>>>>>,<<"items",<<"ref","UntitledMultiSelectEnumSchemaItems">>>>,<<"description",<<"opt",<<"str">>>>>>,<<"max_items",<<"opt",<<"i64">>>>>>,<<"min_items",<<"opt",<<"i64">>>>>>,<<"title",<<"opt",<<"str">>>>>>>>],
  [f|->"UntitledMultiSelectEnumSchema.type_",o|->"UntitledMultiSelectEnumSchema",n|->"type_",s|->"ref",a|-><<>>],
  [f|->"UntitledMultiSelectEnumSchema.type_value",o|->"UntitledMultiSelectEnumSchema",n|->"type_value",s|->"",a|-><<>>],
  [f|->"UntitledMultiSelectEnumSchema.type_name",o|->"UntitledMultiSelectEnumSchema",n|->"type_name",s|->"",a|-><<>>],
  [f|->"UntitledMultiSelectEnumSchemaItems.new",o|->"UntitledMultiSelectEnumSchemaItems",n|->"new",s|->"",a|-><<<<"enum_",<<"vec",<<"str">>>>>>>>],
  [f|->"UntitledMultiSelectEnumSchemaItems.type_",o|->"UntitledMultiSelectEnumSchemaItems",n|->"type_",s|->"ref",a|-><<>>],
  [f|->"UntitledMultiSelectEnumSchemaItems.type_value",o|->"UntitledMultiSelectEnumSchemaItems",n|->"type_value",s|->"",a|-><<>>],
  [f|->"UntitledMultiSelectEnumSchemaItems.type_name",o|->"UntitledMultiSelectEnumSchemaItems",n|->"type_name",s|->"",a|-><<>>],
  [f|->"UntitledSingleSelectEnumSchema.new",o|->"UntitledSingleSelectEnumSchema",n|->"new",s|->"",a|-><<<<"enum_",<<"vec",<<"str">>>>>>,<<"default",<<"opt",<<"str">>>>>>,<<"description",<<"opt",<<"str">>>>>>,<<"title",<<"opt",<<"str">>>>>>>>],
  [f|->"UntitledSingleSelectEnumSchema.type_",o|->"UntitledSingleSelectEnumSchema",n|->"type_",s|->"ref",a|-><<>>],
  [f|->"UntitledSingleSelectEnumSchema.type_value",o|->"UntitledSingleSelectEnumSchema",n|->"type_value",s|->"",a|-><<>>],
  [f|->"UntitledSingleSelectEnumSchema.type_name",o|->"UntitledSingleSelectEnumSchema",n|->"type_name",s|->"",a|-><<>>],
  [f|->"ClientRequest.method",o|->"ClientRequest",n|->"method",s|->"ref",a|-><<>>],
  [f|->"ServerNotification.method",o|->"ServerNotification",n|->"method",s|->"ref",a|-><<>>],
  [f|->"GenericResult.From<InputRequiredResult>",o|->"GenericResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","InputRequiredResult">>>>>>],
  [f|->"GenericResult.From<DiscoverResult>",o|->"GenericResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","DiscoverResult">>>>>>],
  [f|->"GenericResult.From<ListResourcesResult>",o|->"GenericResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListResourcesResult">>>>>>],
  [f|->"GenericResult.From<ListResourceTemplatesResult>",o|->"GenericResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListResourceTemplatesResult">>>>>>],
  [f|->"GenericResult.From<ReadResourceResult>",o|->"GenericResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","ReadResourceResult">>>>>>],
  [f|->"GenericResult.From<SubscriptionsListenResult>",o|->"GenericResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","SubscriptionsListenResult">>>>>>],
  [f|->"GenericResult.From<ListPromptsResult>",o|->"GenericResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListPromptsResult">>>>>>],
  [f|->"GenericResult.From<GetPromptResult>",o|->"GenericResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","GetPromptResult">>>>>>],
  [f|->"GenericResult.From<ListToolsResult>",o|->"GenericResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListToolsResult">>>>>>],
  [f|->"GenericResult.From<CallToolResult>",o|->"GenericResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","CallToolResult">>>>>>],
  [f|->"GenericResult.From<CompleteResult>",o|->"GenericResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","CompleteResult">>>>>>],
  [f|->"ClientRequest.request_id",o|->"ClientRequest",n|->"request_id",s|->"ref",a|-><<>>],
  [f|->"MessageTypes.Display",o|->"MessageTypes",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"RequestId.Display",o|->"RequestId",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"ClientMessage.as_response",o|->"ClientMessage",n|->"as_response",s|->"self",a|-><<>>],
  [f|->"ClientMessage.as_request",o|->"ClientMessage",n|->"as_request",s|->"self",a|-><<>>],
  [f|->"ClientMessage.as_notification",o|->"ClientMessage",n|->"as_notification",s|->"self",a|-><<>>],
  [f|->"ClientMessage.as_error",o|->"ClientMessage",n|->"as_error",s|->"self",a|-><<>>],
  [f|->"ClientMessage.is_initialize_request",o|->"ClientMessage",n|->"is_initialize_request",s|->"ref",a|-><<>>],
  [f|->"ClientMessage.is_initialized_notification",o|->"ClientMessage",n|->"is_initialized_notification",s|->"ref",a|-><<>>],
  [f|->"ClientMessage.From<ClientJsonrpcNotification>",o|->"ClientMessage",n|->"From",s|->"",a|-><<<<"value",<<"ref","ClientJsonrpcNotification">>>>>>],
  [f|->"ClientMessage.From<ClientJsonrpcRequest>",o|->"ClientMessage",n|->"From",s|->"",a|-><<<<"value",<<"ref","ClientJsonrpcRequest">>>>>>],
  [f|->"ClientMessage.From<ClientJsonrpcResponse>",o|->"ClientMessage",n|->"From",s|->"",a|-><<<<"value",<<"ref","ClientJsonrpcResponse">>>>>>],
  [f|->"ClientMessage.request_id",o|->"ClientMessage",n|->"request_id",s|->"ref",a|-><<>>],
  [f|->"ClientMessage.jsonrpc",o|->"ClientMessage",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"ClientMessage.method",o|->"ClientMessage",n|->"method",s|->"ref",a|-><<>>],
  [f|->"ClientMessage.is_response",o|->"ClientMessage",n|->"is_response",s|->"ref",a|-><<>>],
  [f|->"ClientMessage.is_request",o|->"ClientMessage",n|->"is_request",s|->"ref",a|-><<>>],
  [f|->"ClientMessage.is_notification",o|->"ClientMessage",n|->"is_notification",s|->"ref",a|-><<>>],
  [f|->"ClientMessage.is_error",o|->"ClientMessage",n|->"is_error",s|->"ref",a|-><<>>],
  [f|->"ClientMessage.message_type",o|->"ClientMessage",n|->"message_type",s|->"ref",a|-><<>>],
  [f|->"ClientJsonrpcRequest.new",o|->"ClientJsonrpcRequest",n|->"new",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"request",<<"ref","RequestFromClient">>>>>>],
  [f|->"ClientJsonrpcRequest.jsonrpc",o|->"ClientJsonrpcRequest",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"ClientJsonrpcRequest.request_id",o|->"ClientJsonrpcRequest",n|->"request_id",s|->"ref",a|-><<>>],
  [f|->"ClientJsonrpcRequest.method",o|->"ClientJsonrpcRequest",n|->"method",s|->"ref",a|-><<>>],
  [f|->"RequestFromClient.From<ClientJsonrpcRequest>",o|->"RequestFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","ClientJsonrpcRequest">>>>>>],
  [f|->"ClientJsonrpcRequest.Display",o|->"ClientJsonrpcRequest",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"ClientJsonrpcRequest.FromStr",o|->"ClientJsonrpcRequest",n|->"FromStr",s|->"",a|-><<<<"s",<<"str">>>>>>],
  [f|->"RequestFromClient.method",o|->"RequestFromClient",n|->"method",s|->"ref",a|-><<>>],
  [f|->"RequestFromClient.is_initialize_request",o|->"RequestFromClient",n|->"is_initialize_request",s|->"ref",a|-><<>>],
  [f|->"RequestFromClient.with_meta",o|->"RequestFromClient",n|->"with_meta",s|->"self",a|-><<<<"meta",<<"ref","RequestMetaObject">>>>>>],
  [f|->"RequestFromClient.meta",o|->"RequestFromClient",n|->"meta",s|->"ref",a|-><<>>],
  [f|->"RequestFromClient.with_input_responses",o|->"RequestFromClient",n|->"with_input_responses",s|->"self",a|-><<<<"input_responses",<<"ref","InputResponses">>>>,<<"request_state",<<"opt",<<"str">>>>>>>>],
  [f|->"ClientJsonrpcNotification.new",o|->"ClientJsonrpcNotification",n|->"new",s|->"",a|-><<<<"notification",<<"ref","NotificationFromClient">>>>>>],
  [f|->"ClientJsonrpcNotification.jsonrpc",o|->"ClientJsonrpcNotification",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"ClientJsonrpcNotification.method",o|->"ClientJsonrpcNotification",n|->"method",s|->"ref",a|-><<>>],
  [f|->"NotificationFromClient.From<ClientJsonrpcNotification>",o|->"NotificationFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","ClientJsonrpcNotification">>>>>>],
  [f|->"ClientJsonrpcNotification.Display",o|->"ClientJsonrpcNotification",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"ClientJsonrpcNotification.FromStr",o|->"ClientJsonrpcNotification",n|->"FromStr",s|->"",a|-><<<<"s",<<"str">>>>>>],
  [f|->"NotificationFromClient.method",o|->"NotificationFromClient",n|->"method",s|->"ref",a|-><<>>],
  [f|->"ClientJsonrpcResponse.new",o|->"ClientJsonrpcResponse",n|->"new",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"result",<<"ref","ResultFromClient">>>>>>],
  [f|->"ClientJsonrpcResponse.jsonrpc",o|->"ClientJsonrpcResponse",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"ClientJsonrpcResponse.Display",o|->"ClientJsonrpcResponse",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"ClientJsonrpcResponse.FromStr",o|->"ClientJsonrpcResponse",n|->"FromStr",s|->"",a|-><<<<"s",<<"str">>>>>>],
  [f|->"ClientMessage.FromStr",o|->"ClientMessage",n|->"FromStr",s|->"",a|-><<<<"s",<<"str">>>>>>],
  [f|->"ClientMessage.Display",o|->"ClientMessage",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"ServerMessage.as_response",o|->"ServerMessage",n|->"as_response",s|->"self",a|-><<>>],
  [f|->"ServerMessage.as_request",o|->"ServerMessage",n|->"as_request",s|->"self",a|-><<>>],
  [f|->"ServerMessage.as_notification",o|->"ServerMessage",n|->"as_notification",s|->"self",a|-><<>>],
  [f|->"ServerMessage.as_error",o|->"ServerMessage",n|->"as_error",s|->"self",a|-><<>>],
  [f|->"ServerMessage.From<ServerJsonrpcNotification>",o|->"ServerMessage",n|->"From",s|->"",a|-><<<<"value",<<"ref","ServerJsonrpcNotification">>>>>>],
  [f|->"ServerMessage.From<ServerJsonrpcRequest>",o|->"ServerMessage",n|->"From",s|->"",a|-><<<<"value",<<"ref","ServerJsonrpcRequest">>>>>>],
  [f|->"ServerMessage.From<ServerJsonrpcResponse>",o|->"ServerMessage",n|->"From",s|->"",a|-><<<<"value",<<"ref","ServerJsonrpcResponse">>>>>>],
  [f|->"ServerMessage.request_id",o|->"ServerMessage",n|->"request_id",s|->"ref",a|-><<>>],
  [f|->"ServerMessage.jsonrpc",o|->"ServerMessage",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"ServerMessage.method",o|->"ServerMessage",n|->"method",s|->"ref",a|-><<>>],
  [f|->"ServerMessage.is_response",o|->"ServerMessage",n|->"is_response",s|->"ref",a|-><<>>],
  [f|->"ServerMessage.is_request",o|->"ServerMessage",n|->"is_request",s|->"ref",a|-><<>>],
  [f|->"ServerMessage.is_notification",o|->"ServerMessage",n|->"is_notification",s|->"ref",a|-><<>>],
  [f|->"ServerMessage.is_error",o|->"ServerMessage",n|->"is_error",s|->"ref",a|-><<>>],
  [f|->"ServerMessage.message_type",o|->"ServerMessage",n|->"message_type",s|->"ref",a|-><<>>],
  [f|->"ServerMessage.FromStr",o|->"ServerMessage",n|->"FromStr",s|->"",a|-><<<<"s",<<"str">>>>>>],
  [f|->"ServerMessage.Display",o|->"ServerMessage",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"ServerJsonrpcRequest.new",o|->"ServerJsonrpcRequest",n|->"new",s|->"",a|-><<<<"request_id",<<"ref","RequestId">>>>,<<"request",<<"ref","RequestFromServer">>>>>>],
  [f|->"ServerJsonrpcRequest.request_id",o|->"ServerJsonrpcRequest",n|->"request_id",s|->"ref",a|-><<>>],
  [f|->"ServerJsonrpcRequest.jsonrpc",o|->"ServerJsonrpcRequest",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"ServerJsonrpcRequest.method",o|->"ServerJsonrpcRequest",n|->"method",s|->"ref",a|-><<>>],
  [f|->"ServerJsonrpcRequest.Display",o|->"ServerJsonrpcRequest",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"ServerJsonrpcRequest.FromStr",o|->"ServerJsonrpcRequest",n|->"FromStr",s|->"",a|-><<<<"s",<<"str">>>>>>],
  [f|->"RequestFromServer.From<ServerJsonrpcRequest>",o|->"RequestFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","ServerJsonrpcRequest">>>>>>],
  [f|->"RequestFromServer.method",o|->"RequestFromServer",n|->"method",s|->"ref",a|-><<>>],
  [f|->"NotificationFromServer.From<ServerJsonrpcNotification>",o|->"NotificationFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","ServerJsonrpcNotification">>>>>>],
  [f|->"ServerJsonrpcNotification.new",o|->"ServerJsonrpcNotification",n|->"new",s|->"",a|-><<<<"notification",<<"ref","NotificationFromServer">>>>>>],
  [f|->"ServerJsonrpcNotification.jsonrpc",o|->"ServerJsonrpcNotification",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"ServerJsonrpcNotification.method",o|->"ServerJsonrpcNotification",n|->"method",s|->"ref",a|-><<>>],
  [f|->"ServerJsonrpcNotification.Display",o|->"ServerJsonrpcNotification",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"ServerJsonrpcNotification.FromStr",o|->"ServerJsonrpcNotification",n|->"FromStr",s|->"",a|-><<<<"s",<<"str">>>>>>],
  [f|->"NotificationFromServer.method",o|->"NotificationFromServer",n|->"method",s|->"ref",a|-><<>>],
  [f|->"ServerJsonrpcResponse.new",o|->"ServerJsonrpcResponse",n|->"new",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"result",<<"ref","ServerResult">>>>>>],
  [f|->"ServerJsonrpcResponse.jsonrpc",o|->"ServerJsonrpcResponse",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"ServerJsonrpcResponse.Display",o|->"ServerJsonrpcResponse",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"ServerJsonrpcResponse.FromStr",o|->"ServerJsonrpcResponse",n|->"FromStr",s|->"",a|-><<<<"s",<<"str">>>>>>],
  [f|->"JsonrpcErrorResponse.Display",o|->"JsonrpcErrorResponse",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"JsonrpcErrorResponse.FromStr",o|->"JsonrpcErrorResponse",n|->"FromStr",s|->"",a|-><<<<"s",<<"str">>>>>>],
  [f|->"MessageFromServer.From<RequestFromServer>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","RequestFromServer">>>>>>],
  [f|->"MessageFromServer.From<ServerResult>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","ServerResult">>>>>>],
  [f|->"MessageFromServer.From<NotificationFromServer>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","NotificationFromServer">>>>>>],
  [f|->"MessageFromServer.From<RpcError>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","RpcError">>>>>>],
  [f|->"MessageFromServer.is_response",o|->"MessageFromServer",n|->"is_response",s|->"ref",a|-><<>>],
  [f|->"MessageFromServer.is_request",o|->"MessageFromServer",n|->"is_request",s|->"ref",a|-><<>>],
  [f|->"MessageFromServer.is_notification",o|->"MessageFromServer",n|->"is_notification",s|->"ref",a|-><<>>],
  [f|->"MessageFromServer.is_error",o|->"MessageFromServer",n|->"is_error",s|->"ref",a|-><<>>],
  [f|->"MessageFromServer.message_type",o|->"MessageFromServer",n|->"message_type",s|->"ref",a|-><<>>],
  [f|->"ServerMessage.FromMessage<MessageFromServer>",o|->"ServerMessage",n|->"FromMessage",s|->"",a|-><<<<"message",<<"ref","MessageFromServer">>>>,<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"MessageFromClient.is_initialize_request",o|->"MessageFromClient",n|->"is_initialize_request",s|->"ref",a|-><<>>],
  [f|->"MessageFromClient.is_initialized_notification",o|->"MessageFromClient",n|->"is_initialized_notification",s|->"ref",a|-><<>>],
  [f|->"MessageFromClient.From<RequestFromClient>",o|->"MessageFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","RequestFromClient">>>>>>],
  [f|->"MessageFromClient.From<ResultFromClient>",o|->"MessageFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","ResultFromClient">>>>>>],
  [f|->"MessageFromClient.From<NotificationFromClient>",o|->"MessageFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","NotificationFromClient">>>>>>],
  [f|->"MessageFromClient.From<RpcError>",o|->"MessageFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","RpcError">>>>>>],
  [f|->"MessageFromClient.is_response",o|->"MessageFromClient",n|->"is_response",s|->"ref",a|-><<>>],
  [f|->"MessageFromClient.is_request",o|->"MessageFromClient",n|->"is_request",s|->"ref",a|-><<>>],
  [f|->"MessageFromClient.is_notification",o|->"MessageFromClient",n|->"is_notification",s|->"ref",a|-><<>>],
  [f|->"MessageFromClient.is_error",o|->"MessageFromClient",n|->"is_error",s|->"ref",a|-><<>>],
  [f|->"MessageFromClient.message_type",o|->"MessageFromClient",n|->"message_type",s|->"ref",a|-><<>>],
  [f|->"ClientMessage.FromMessage<MessageFromClient>",o|->"ClientMessage",n|->"FromMessage",s|->"",a|-><<<<"message",<<"ref","MessageFromClient">>>>,<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"UnknownTool.Display",o|->"UnknownTool",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"CallToolError.unknown_tool",o|->"CallToolError",n|->"unknown_tool",s|->"",a|-><<<<"tool_name",<<"str">>>>>>],
  [f|->"CallToolError.unsupported_task_augmented_tool_call",o|->"CallToolError",n|->"unsupported_task_augmented_tool_call",s|->"",a|-><<>>],
  [f|->"CallToolError.invalid_arguments",o|->"CallToolError",n|->"invalid_arguments",s|->"",a|-><<<<"tool_name",<<"str">>>>,<<"message",<<"opt",<<"str">>>>>>>>],
  [f|->"CallToolError.from_message",o|->"CallToolError",n|->"from_message",s|->"",a|-><<<<"message",<<"str">>>>>>],
  [f|->"RpcError.From<CallToolError>",o|->"RpcError",n|->"From",s|->"",a|-><<<<"value",<<"ref","CallToolError">>>>>>],
  [f|->"CallToolResult.From<CallToolError>",o|->"CallToolResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","CallToolError">>>>>>],
  [f|->"CallToolError.Display",o|->"CallToolError",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"CallToolRequest.tool_name",o|->"CallToolRequest",n|->"tool_name",s|->"ref",a|-><<>>],
  [f|->"TextContent.From<T>",o|->"TextContent",n|->"From",s|->"",a|-><<<<"value",<<"str">>>>>>],
  [f|->"TextResourceContents.new",o|->"TextResourceContents",n|->"new",s|->"",a|-><<<<"text",<<"str">>>>,<<"uri",<<"str">>>>>>],
  [f|->"TextResourceContents.with_meta",o|->"TextResourceContents",n|->"with_meta",s|->"self",a|-><<<<"meta",<<"ref","MetaObject">>>>>>],
  [f|->"TextResourceContents.with_mime_type",o|->"TextResourceContents",n|->"with_mime_type",s|->"self",a|-><<<<"mime_type",<<"str">>>>>>],
  [f|->"TextResourceContents.with_uri",o|->"TextResourceContents",n|->"with_uri",s|->"self",a|-><<<<"uri",<<"str">>>>>>],
  [f|->"BlobResourceContents.new",o|->"BlobResourceContents",n|->"new",s|->"",a|-><<<<"base64_text",<<"str">>>>,<<"uri",<<"str">>>>>>],
  [f|->"BlobResourceContents.with_meta",o|->"BlobResourceContents",n|->"with_meta",s|->"self",a|-><<<<"meta",<<"ref","MetaObject">>>>>>],
  [f|->"BlobResourceContents.with_mime_type",o|->"BlobResourceContents",n|->"with_mime_type",s|->"self",a|-><<<<"mime_type",<<"str">>>>>>],
  [f|->"BlobResourceContents.with_uri",o|->"BlobResourceContents",n|->"with_uri",s|->"self",a|-><<<<"uri",<<"str">>>>>>],
  [f|->"ClientMessages.is_batch",o|->"ClientMessages",n|->"is_batch",s|->"ref",a|-><<>>],
  [f|->"ClientMessages.includes_request",o|->"ClientMessages",n|->"includes_request",s|->"ref",a|-><<>>],
  [f|->"ClientMessages.as_single",o|->"ClientMessages",n|->"as_single",s|->"self",a|-><<>>],
  [f|->"ClientMessages.as_batch",o|->"ClientMessages",n|->"as_batch",s|->"self",a|-><<>>],
  [f|->"ClientMessages.From<ClientMessage>",o|->"ClientMessages",n|->"From",s|->"",a|-><<<<"value",<<"ref","ClientMessage">>>>>>],
  [f|->"ClientMessages.From<Vec<ClientMessage>>",o|->"ClientMessages",n|->"From",s|->"",a|-><<<<"value",<<"vec",<<"ref","ClientMessage">>>>>>>>],
  [f|->"ClientMessages.Display",o|->"ClientMessages",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"ServerMessages.is_batch",o|->"ServerMessages",n|->"is_batch",s|->"ref",a|-><<>>],
  [f|->"ServerMessages.includes_request",o|->"ServerMessages",n|->"includes_request",s|->"ref",a|-><<>>],
  [f|->"ServerMessages.as_single",o|->"ServerMessages",n|->"as_single",s|->"self",a|-><<>>],
  [f|->"ServerMessages.as_batch",o|->"ServerMessages",n|->"as_batch",s|->"self",a|-><<>>],
  [f|->"ServerMessages.From<ServerMessage>",o|->"ServerMessages",n|->"From",s|->"",a|-><<<<"value",<<"ref","ServerMessage">>>>>>],
  [f|->"ServerMessages.From<Vec<ServerMessage>>",o|->"ServerMessages",n|->"From",s|->"",a|-><<<<"value",<<"vec",<<"ref","ServerMessage">>>>>>>>],
  [f|->"ServerMessages.Display",o|->"ServerMessages",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"MessagesFromServer.is_batch",o|->"MessagesFromServer",n|->"is_batch",s|->"ref",a|-><<>>],
  [f|->"MessagesFromServer.includes_request",o|->"MessagesFromServer",n|->"includes_request",s|->"ref",a|-><<>>],
  [f|->"MessagesFromServer.as_single",o|->"MessagesFromServer",n|->"as_single",s|->"self",a|-><<>>],
  [f|->"MessagesFromServer.as_batch",o|->"MessagesFromServer",n|->"as_batch",s|->"self",a|-><<>>],
  [f|->"MessagesFromServer.From<MessageFromServer>",o|->"MessagesFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","MessageFromServer">>>>>>],
  [f|->"MessagesFromServer.From<Vec<MessageFromServer>>",o|->"MessagesFromServer",n|->"From",s|->"",a|-><<<<"value",<<"vec",<<"ref","MessageFromServer">>>>>>>>],
  [f|->"MessagesFromClient.is_batch",o|->"MessagesFromClient",n|->"is_batch",s|->"ref",a|-><<>>],
  [f|->"MessagesFromClient.includes_request",o|->"MessagesFromClient",n|->"includes_request",s|->"ref",a|-><<>>],
  [f|->"MessagesFromClient.as_single",o|->"MessagesFromClient",n|->"as_single",s|->"self",a|-><<>>],
  [f|->"MessagesFromClient.as_batch",o|->"MessagesFromClient",n|->"as_batch",s|->"self",a|-><<>>],
  [f|->"MessagesFromClient.From<MessageFromClient>",o|->"MessagesFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","MessageFromClient">>>>>>],
  [f|->"MessagesFromClient.From<Vec<MessageFromClient>>",o|->"MessagesFromClient",n|->"From",s|->"",a|-><<<<"value",<<"vec",<<"ref","MessageFromClient">>>>>>>>],
  [f|->"StringSchemaFormat.FromStr",o|->"StringSchemaFormat",n|->"FromStr",s|->"",a|-><<<<"s",<<"str">>>>>>],
  [f|->"PrimitiveSchemaDefinition.TryFrom<&Map<String,Value>>",o|->"PrimitiveSchemaDefinition",n|->"TryFrom",s|->"",a|-><<<<"value",<<"map">>>>>>],
  [f|->"ElicitRequestParams.message",o|->"ElicitRequestParams",n|->"message",s|->"ref",a|-><<>>],
  [f|->"ServerCapabilities.can_handle_request",o|->"ServerCapabilities",n|->"can_handle_request",s|->"ref",a|-><<<<"client_request",<<"ref","ClientJsonrpcRequest">>>>>>],
  [f|->"ServerCapabilities.can_accept_notification",o|->"ServerCapabilities",n|->"can_accept_notification",s|->"ref",a|-><<<<"notification_method",<<"str">>>>>>],
  [f|->"ClientCapabilities.can_handle_request",o|->"ClientCapabilities",n|->"can_handle_request",s|->"ref",a|-><<<<"server_jsonrpc_request",<<"ref","ServerJsonrpcRequest">>>>>>],
  [f|->"ClientCapabilities.can_accept_notification",o|->"ClientCapabilities",n|->"can_accept_notification",s|->"ref",a|-><<<<"_notification_method",<<"str">>>>>>],
  [f|->"CustomRequest.From<JsonrpcRequest>",o|->"CustomRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","JsonrpcRequest">>>>>>],
  [f|->"CustomNotification.From<JsonrpcNotification>",o|->"CustomNotification",n|->"From",s|->"",a|-><<<<"value",<<"ref","JsonrpcNotification">>>>>>],
  [f|->"Role.FromStr",o|->"Role",n|->"FromStr",s|->"",a|-><<<<"s",<<"str">>>>>>],
  [f|->"ServerResult.is_input_required",o|->"ServerResult",n|->"is_input_required",s|->"ref",a|-><<>>],
  [f|->"ServerResult.is_complete",o|->"ServerResult",n|->"is_complete",s|->"ref",a|-><<>>],
  [f|->"ServerResult.as_input_required",o|->"ServerResult",n|->"as_input_required",s|->"ref",a|-><<>>],
  [f|->"RequestMetaObject.new",o|->"RequestMetaObject",n|->"new",s|->"",a|-><<<<"protocol_version",<<"str">>>>,<<"client_capabilities",<<"ref","ClientCapabilities">>>>>>],
  [f|->"RequestMetaObject.with_client_info",o|->"RequestMetaObject",n|->"with_client_info",s|->"self",a|-><<<<"client_info",<<"ref","Implementation">>>>>>],
  [f|->"RequestMetaObject.with_log_level",o|->"RequestMetaObject",n|->"with_log_level",s|->"self",a|-><<<<"log_level",<<"ref","LoggingLevel">>>>>>],
  [f|->"RequestMetaObject.with_progress_token",o|->"RequestMetaObject",n|->"with_progress_token",s|->"self",a|-><<<<"progress_token",<<"ref","ProgressToken">>>>>>],
  [f|->"RequestMetaObject.traceparent",o|->"RequestMetaObject",n|->"traceparent",s|->"ref",a|-><<>>],
  [f|->"RequestMetaObject.with_traceparent",o|->"RequestMetaObject",n|->"with_traceparent",s|->"self",a|-><<<<"traceparent",<<"str">>>>>>],
  [f|->"RequestMetaObject.tracestate",o|->"RequestMetaObject",n|->"tracestate",s|->"ref",a|-><<>>],
  [f|->"RequestMetaObject.with_tracestate",o|->"RequestMetaObject",n|->"with_tracestate",s|->"self",a|-><<<<"tracestate",<<"str">>>>>>],
  [f|->"RequestMetaObject.baggage",o|->"RequestMetaObject",n|->"baggage",s|->"ref",a|-><<>>],
  [f|->"RequestMetaObject.with_baggage",o|->"RequestMetaObject",n|->"with_baggage",s|->"self",a|-><<<<"baggage",<<"str">>>>>>],
  [f|->"InputRequests.iter",o|->"InputRequests",n|->"iter",s|->"ref",a|-><<>>],
  [f|->"InputRequests.keys",o|->"InputRequests",n|->"keys",s|->"ref",a|-><<>>],
  [f|->"InputRequests.get",o|->"InputRequests",n|->"get",s|->"ref",a|-><<<<"key",<<"str">>>>>>],
  [f|->"InputRequests.len",o|->"InputRequests",n|->"len",s|->"ref",a|-><<>>],
  [f|->"InputRequests.is_empty",o|->"InputRequests",n|->"is_empty",s|->"ref",a|-><<>>],
  [f|->"InputResponses.new",o|->"InputResponses",n|->"new",s|->"",a|-><<>>],
  [f|->"InputResponses.insert",o|->"InputResponses",n|->"insert",s|->"self",a|-><<<<"key",<<"str">>>>,<<"response",<<"ref","InputResponse">>>>>>],
  [f|->"InputResponses.len",o|->"InputResponses",n|->"len",s|->"ref",a|-><<>>],
  [f|->"InputResponses.is_empty",o|->"InputResponses",n|->"is_empty",s|->"ref",a|-><<>>],
  [f|->"InputRequest.as_create_message",o|->"InputRequest",n|->"as_create_message",s|->"ref",a|-><<>>],
  [f|->"InputRequest.as_list_roots",o|->"InputRequest",n|->"as_list_roots",s|->"ref",a|-><<>>],
  [f|->"InputRequest.as_elicit",o|->"InputRequest",n|->"as_elicit",s|->"ref",a|-><<>>],
  [f|->"InputRequest.method",o|->"InputRequest",n|->"method",s|->"ref",a|-><<>>],
  [f|->"ResultFromClient.From<CreateMessageResult>",o|->"ResultFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","CreateMessageResult">>>>>>],
  [f|->"ResultFromClient.From<ListRootsResult>",o|->"ResultFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListRootsResult">>>>>>],
  [f|->"ResultFromClient.From<ElicitResult>",o|->"ResultFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","ElicitResult">>>>>>],
  [f|->"ResultFromClient.From<Result>",o|->"ResultFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","Result">>>>>>],
  [f|->"MessageFromClient.From<CreateMessageResult>",o|->"MessageFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","CreateMessageResult">>>>>>],
  [f|->"MessageFromClient.From<ListRootsResult>",o|->"MessageFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListRootsResult">>>>>>],
  [f|->"MessageFromClient.From<ElicitResult>",o|->"MessageFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","ElicitResult">>>>>>],
  [f|->"MessageFromClient.From<Result>",o|->"MessageFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","Result">>>>>>],
  [f|->"ClientJsonrpcRequest.From<DiscoverRequest>",o|->"ClientJsonrpcRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","DiscoverRequest">>>>>>],
  [f|->"ClientJsonrpcRequest.From<ListResourcesRequest>",o|->"ClientJsonrpcRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListResourcesRequest">>>>>>],
  [f|->"ClientJsonrpcRequest.From<ListResourceTemplatesRequest>",o|->"ClientJsonrpcRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListResourceTemplatesRequest">>>>>>],
  [f|->"ClientJsonrpcRequest.From<ReadResourceRequest>",o|->"ClientJsonrpcRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","ReadResourceRequest">>>>>>],
  [f|->"ClientJsonrpcRequest.From<SubscriptionsListenRequest>",o|->"ClientJsonrpcRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","SubscriptionsListenRequest">>>>>>],
  [f|->"ClientJsonrpcRequest.From<ListPromptsRequest>",o|->"ClientJsonrpcRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListPromptsRequest">>>>>>],
  [f|->"ClientJsonrpcRequest.From<GetPromptRequest>",o|->"ClientJsonrpcRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","GetPromptRequest">>>>>>],
  [f|->"ClientJsonrpcRequest.From<ListToolsRequest>",o|->"ClientJsonrpcRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListToolsRequest">>>>>>],
  [f|->"ClientJsonrpcRequest.From<CallToolRequest>",o|->"ClientJsonrpcRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","CallToolRequest">>>>>>],
  [f|->"ClientJsonrpcRequest.From<CompleteRequest>",o|->"ClientJsonrpcRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","CompleteRequest">>>>>>],
  [f|->"i64.From<SdkErrorCodes>",o|->"i64",n|->"From",s|->"",a|-><<<<"value",<<"ref","SdkErrorCodes">>>>>>],
  [f|->"SdkError.Display",o|->"SdkError",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"SdkError.new",o|->"SdkError",n|->"new",s|->"",a|-><<<<"error_code",<<"ref","SdkErrorCodes">>>>,<<"message",<<"str">>>>,<<"data",<<"opt",<<"val">>>>>>>>],
  [f|->"SdkError.connection_closed",o|->"SdkError",n|->"connection_closed",s|->"",a|-><<>>],
  [f|->"SdkError.request_timeout",o|->"SdkError",n|->"request_timeout",s|->"",a|-><<<<"timeout",<<"ref","u128">>>>>>],
  [f|->"SdkError.session_not_found",o|->"SdkError",n|->"session_not_found",s|->"",a|-><<>>],
  [f|->"SdkError.invalid_request",o|->"SdkError",n|->"invalid_request",s|->"",a|-><<>>],
  [f|->"SdkError.method_not_found",o|->"SdkError",n|->"method_not_found",s|->"",a|-><<>>],
  [f|->"SdkError.invalid_params",o|->"SdkError",n|->"invalid_params",s|->"",a|-><<>>],
  [f|->"SdkError.internal_error",o|->"SdkError",n|->"internal_error",s|->"",a|-><<>>],
  [f|->"SdkError.parse_error",o|->"SdkError",n|->"parse_error",s|->"",a|-><<>>],
  [f|->"SdkError.resource_not_found",o|->"SdkError",n|->"resource_not_found",s|->"",a|-><<>>],
  [f|->"SdkError.bad_request",o|->"SdkError",n|->"bad_request",s|->"",a|-><<>>],
  [f|->"SdkError.with_message",o|->"SdkError",n|->"with_message",s|->"self",a|-><<<<"message",<<"str">>>>>>],
  [f|->"SdkError.with_data",o|->"SdkError",n|->"with_data",s|->"self",a|-><<<<"data",<<"opt",<<"val">>>>>>>>],
  [f|->"i64.From<RpcErrorCodes>",o|->"i64",n|->"From",s|->"",a|-><<<<"value",<<"ref","RpcErrorCodes">>>>>>],
  [f|->"RpcError.new",o|->"RpcError",n|->"new",s|->"",a|-><<<<"error_code",<<"ref","RpcErrorCodes">>>>,<<"message",<<"str">>>>,<<"data",<<"opt",<<"val">>>>>>>>],
  [f|->"RpcError.method_not_found",o|->"RpcError",n|->"method_not_found",s|->"",a|-><<>>],
  [f|->"RpcError.invalid_params",o|->"RpcError",n|->"invalid_params",s|->"",a|-><<>>],
  [f|->"RpcError.invalid_request",o|->"RpcError",n|->"invalid_request",s|->"",a|-><<>>],
  [f|->"RpcError.internal_error",o|->"RpcError",n|->"internal_error",s|->"",a|-><<>>],
  [f|->"RpcError.parse_error",o|->"RpcError",n|->"parse_error",s|->"",a|-><<>>],
  [f|->"RpcError.with_message",o|->"RpcError",n|->"with_message",s|->"self",a|-><<<<"message",<<"str">>>>>>],
  [f|->"RpcError.with_data",o|->"RpcError",n|->"with_data",s|->"self",a|-><<<<"data",<<"opt",<<"val">>>>>>>>],
  [f|->"RpcError.Display",o|->"RpcError",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"RpcError.FromStr",o|->"RpcError",n|->"FromStr",s|->"",a|-><<<<"s",<<"str">>>>>>],
  [f|->"JsonrpcErrorResponse.create",o|->"JsonrpcErrorResponse",n|->"create",s|->"",a|-><<<<"id",<<"opt",<<"ref","RequestId">>>>>>,<<"error_code",<<"ref","RpcErrorCodes">>>>,<<"error_message",<<"str">>>>,<<"error_data",<<"opt",<<"val">>>>>>>>],
  [f|->"RpcError.From<MissingRequiredClientCapabilityError>",o|->"RpcError",n|->"From",s|->"",a|-><<<<"value",<<"ref","MissingRequiredClientCapabilityError">>>>>>],
  [f|->"RpcError.From<UnsupportedProtocolVersionError>",o|->"RpcError",n|->"From",s|->"",a|-><<<<"value",<<"ref","UnsupportedProtocolVersionError">>>>>>],
  [f|->"MessageFromServer.From<Result>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","Result">>>>>>],
  [f|->"MessageFromServer.From<InputRequiredResult>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","InputRequiredResult">>>>>>],
  [f|->"MessageFromServer.From<DiscoverResult>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","DiscoverResult">>>>>>],
  [f|->"MessageFromServer.From<ListResourcesResult>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListResourcesResult">>>>>>],
  [f|->"MessageFromServer.From<ListResourceTemplatesResult>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListResourceTemplatesResult">>>>>>],
  [f|->"MessageFromServer.From<ReadResourceResult>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","ReadResourceResult">>>>>>],
  [f|->"MessageFromServer.From<SubscriptionsListenResult>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","SubscriptionsListenResult">>>>>>],
  [f|->"MessageFromServer.From<ListPromptsResult>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListPromptsResult">>>>>>],
  [f|->"MessageFromServer.From<GetPromptResult>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","GetPromptResult">>>>>>],
  [f|->"MessageFromServer.From<ListToolsResult>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListToolsResult">>>>>>],
  [f|->"MessageFromServer.From<CallToolResult>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","CallToolResult">>>>>>],
  [f|->"MessageFromServer.From<CompleteResult>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","CompleteResult">>>>>>],
  [f|->"CreateMessageResult.TryFrom<ResultFromClient>",o|->"CreateMessageResult",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","ResultFromClient">>>>>>],
  [f|->"ListRootsResult.TryFrom<ResultFromClient>",o|->"ListRootsResult",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","ResultFromClient">>>>>>],
  [f|->"ElicitResult.TryFrom<ResultFromClient>",o|->"ElicitResult",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","ResultFromClient">>>>>>],
  [f|->"GenericResult.TryFrom<ResultFromClient>",o|->"GenericResult",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","ResultFromClient">>>>>>],
  [f|->"GenericResult.TryFrom<ServerResult>",o|->"GenericResult",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","ServerResult">>>>>>],
  [f|->"InputRequiredResult.TryFrom<ServerResult>",o|->"InputRequiredResult",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","ServerResult">>>>>>],
  [f|->"DiscoverResult.TryFrom<ServerResult>",o|->"DiscoverResult",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","ServerResult">>>>>>],
  [f|->"ListResourcesResult.TryFrom<ServerResult>",o|->"ListResourcesResult",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","ServerResult">>>>>>],
  [f|->"ListResourceTemplatesResult.TryFrom<ServerResult>",o|->"ListResourceTemplatesResult",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","ServerResult">>>>>>],
  [f|->"ReadResourceResult.TryFrom<ServerResult>",o|->"ReadResourceResult",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","ServerResult">>>>>>],
  [f|->"SubscriptionsListenResult.TryFrom<ServerResult>",o|->"SubscriptionsListenResult",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","ServerResult">>>>>>],
  [f|->"ListPromptsResult.TryFrom<ServerResult>",o|->"ListPromptsResult",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","ServerResult">>>>>>],
  [f|->"GetPromptResult.TryFrom<ServerResult>",o|->"GetPromptResult",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","ServerResult">>>>>>],
  [f|->"ListToolsResult.TryFrom<ServerResult>",o|->"ListToolsResult",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","ServerResult">>>>>>],
  [f|->"CallToolResult.TryFrom<ServerResult>",o|->"CallToolResult",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","ServerResult">>>>>>],
  [f|->"CompleteResult.TryFrom<ServerResult>",o|->"CompleteResult",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","ServerResult">>>>>>],
  [f|->"ContentBlock.text_content",o|->"ContentBlock",n|->"text_content",s|->"",a|-><<<<"text",<<"str">>>>>>],
  [f|->"ContentBlock.image_content",o|->"ContentBlock",n|->"image_content",s|->"",a|-><<<<"data",<<"str">>>>,<<"mime_type",<<"str">>>>>>],
  [f|->"ContentBlock.audio_content",o|->"ContentBlock",n|->"audio_content",s|->"",a|-><<<<"data",<<"str">>>>,<<"mime_type",<<"str">>>>>>],
  [f|->"ContentBlock.resource_link",o|->"ContentBlock",n|->"resource_link",s|->"",a|-><<<<"value",<<"ref","ResourceLink">>>>>>],
  [f|->"ContentBlock.embedded_resource",o|->"ContentBlock",n|->"embedded_resource",s|->"",a|-><<<<"resource",<<"ref","EmbeddedResourceResource">>>>>>],
  [f|->"ContentBlock.content_type",o|->"ContentBlock",n|->"content_type",s|->"ref",a|-><<>>],
  [f|->"ContentBlock.as_text_content",o|->"ContentBlock",n|->"as_text_content",s|->"ref",a|-><<>>],
  [f|->"ContentBlock.as_image_content",o|->"ContentBlock",n|->"as_image_content",s|->"ref",a|-><<>>],
  [f|->"ContentBlock.as_audio_content",o|->"ContentBlock",n|->"as_audio_content",s|->"ref",a|-><<>>],
  [f|->"ContentBlock.as_resource_link",o|->"ContentBlock",n|->"as_resource_link",s|->"ref",a|-><<>>],
  [f|->"ContentBlock.as_embedded_resource",o|->"ContentBlock",n|->"as_embedded_resource",s|->"ref",a|-><<>>],
  [f|->"CallToolResult.text_content",o|->"CallToolResult",n|->"text_content",s|->"",a|-><<<<"content",<<"vec",<<"ref","TextContent">>>>>>>>],
  [f|->"CallToolResult.image_content",o|->"CallToolResult",n|->"image_content",s|->"",a|-><<<<"content",<<"vec",<<"ref","ImageContent">>>>>>>>],
  [f|->"CallToolResult.audio_content",o|->"CallToolResult",n|->"audio_content",s|->"",a|-><<<<"content",<<"vec",<<"ref","AudioContent">>>>>>>>],
  [f|->"CallToolResult.resource_link",o|->"CallToolResult",n|->"resource_link",s|->"",a|-><<<<"content",<<"vec",<<"ref","ResourceLink">>>>>>>>],
  [f|->"CallToolResult.embedded_resource",o|->"CallToolResult",n|->"embedded_resource",s|->"",a|-><<<<"content",<<"vec",<<"ref","EmbeddedResource">>>>>>>>],
  [f|->"CallToolResult.with_error",o|->"CallToolResult",n|->"with_error",s|->"",a|-><<<<"error",<<"ref","CallToolError">>>>>>],
  [f|->"CallToolResult.with_meta",o|->"CallToolResult",n|->"with_meta",s|->"self",a|-><<<<"meta",<<"opt",<<"ref","ResultMetaObject">>>>>>>>],
  [f|->"CallToolResult.with_structured_content",o|->"CallToolResult",n|->"with_structured_content",s|->"self",a|-><<<<"structured_content",<<"map">>>>>>],
  [f|->"CallToolResult.from_content",o|->"CallToolResult",n|->"from_content",s|->"",a|-><<<<"content",<<"vec",<<"ref","ContentBlock">>>>>>>>],
  [f|->"CallToolResult.add_content",o|->"CallToolResult",n|->"add_content",s|->"self",a|-><<<<"content",<<"ref","ContentBlock">>>>>>],
  [f|->"CallToolRequestParams.new",o|->"CallToolRequestParams",n|->"new",s|->"",a|-><<<<"tool_name",<<"str">>>>,<<"meta",<<"ref","RequestMetaObject">>>>>>],
  [f|->"CallToolRequestParams.with_arguments",o|->"CallToolRequestParams",n|->"with_arguments",s|->"self",a|-><<<<"arguments",<<"map">>>>>>],
  [f|->"CallToolRequestParams.with_input_responses",o|->"CallToolRequestParams",n|->"with_input_responses",s|->"self",a|-><<<<"input_responses",<<"ref","InputResponses">>>>>>],
  [f|->"CallToolRequestParams.with_request_state",o|->"CallToolRequestParams",n|->"with_request_state",s|->"self",a|-><<<<"request_state",<<"str">>>>>>],
  [f|->"GetPromptRequestParams.with_input_responses",o|->"GetPromptRequestParams",n|->"with_input_responses",s|->"self",a|-><<<<"input_responses",<<"ref","InputResponses">>>>>>],
  [f|->"GetPromptRequestParams.with_request_state",o|->"GetPromptRequestParams",n|->"with_request_state",s|->"self",a|-><<<<"request_state",<<"str">>>>>>],
  [f|->"InputRequiredResult.with_request_state",o|->"InputRequiredResult",n|->"with_request_state",s|->"self",a|-><<<<"request_state",<<"str">>>>>>],
  [f|->"InputRequiredResult.with_input_requests",o|->"InputRequiredResult",n|->"with_input_requests",s|->"self",a|-><<<<"input_requests",<<"ref","InputRequests">>>>>>],
  [f|->"InputResponseRequestParams.with_input_responses",o|->"InputResponseRequestParams",n|->"with_input_responses",s|->"self",a|-><<<<"input_responses",<<"ref","InputResponses">>>>>>],
  [f|->"InputResponseRequestParams.with_request_state",o|->"InputResponseRequestParams",n|->"with_request_state",s|->"self",a|-><<<<"request_state",<<"str">>>>>>],
  [f|->"ReadResourceRequestParams.with_input_responses",o|->"ReadResourceRequestParams",n|->"with_input_responses",s|->"self",a|-><<<<"input_responses",<<"ref","InputResponses">>>>>>],
  [f|->"ReadResourceRequestParams.with_request_state",o|->"ReadResourceRequestParams",n|->"with_request_state",s|->"self",a|-><<<<"request_state",<<"str">>>>>>],
  [f|->"Annotations.default",o|->"Annotations",n|->"default",s|->"",a|-><<>>],
  [f|->"BaseMetadata.default",o|->"BaseMetadata",n|->"default",s|->"",a|-><<>>],
  [f|->"BlobResourceContents.default",o|->"BlobResourceContents",n|->"default",s|->"",a|-><<>>],
  [f|->"CancelledNotificationParams.default",o|->"CancelledNotificationParams",n|->"default",s|->"",a|-><<>>],
  [f|->"ClientCapabilities.default",o|->"ClientCapabilities",n|->"default",s|->"",a|-><<>>],
  [f|->"ClientElicitation.default",o|->"ClientElicitation",n|->"default",s|->"",a|-><<>>],
  [f|->"ClientSampling.default",o|->"ClientSampling",n|->"default",s|->"",a|-><<>>],
  [f|->"CompleteRequestArgument.default",o|->"CompleteRequestArgument",n|->"default",s|->"",a|-><<>>],
  [f|->"CompleteRequestContext.default",o|->"CompleteRequestContext",n|->"default",s|->"",a|-><<>>],
  [f|->"Cursor.default",o|->"Cursor",n|->"default",s|->"",a|-><<>>],
  [f|->"EmptyResult.default",o|->"EmptyResult",n|->"default",s|->"",a|-><<>>],
  [f|->"Icons.default",o|->"Icons",n|->"default",s|->"",a|-><<>>],
  [f|->"Implementation.default",o|->"Implementation",n|->"default",s|->"",a|-><<>>],
  [f|->"InputResponses.default",o|->"InputResponses",n|->"default",s|->"",a|-><<>>],
  [f|->"ListRootsRequestParams.default",o|->"ListRootsRequestParams",n|->"default",s|->"",a|-><<>>],
  [f|->"LoggingLevel.default",o|->"LoggingLevel",n|->"default",s|->"",a|-><<>>],
  [f|->"LoggingMessageNotificationParams.default",o|->"LoggingMessageNotificationParams",n|->"default",s|->"",a|-><<>>],
  [f|->"MetaObject.default",o|->"MetaObject",n|->"default",s|->"",a|-><<>>],
  [f|->"ModelHint.default",o|->"ModelHint",n|->"default",s|->"",a|-><<>>],
  [f|->"ModelPreferences.default",o|->"ModelPreferences",n|->"default",s|->"",a|-><<>>],
  [f|->"NotificationMetaObject.default",o|->"NotificationMetaObject",n|->"default",s|->"",a|-><<>>],
  [f|->"NotificationParams.default",o|->"NotificationParams",n|->"default",s|->"",a|-><<>>],
  [f|->"PaginatedRequestParams.default",o|->"PaginatedRequestParams",n|->"default",s|->"",a|-><<>>],
  [f|->"PaginatedResult.default",o|->"PaginatedResult",n|->"default",s|->"",a|-><<>>],
  [f|->"ProgressNotificationParams.default",o|->"ProgressNotificationParams",n|->"default",s|->"",a|-><<>>],
  [f|->"ProgressToken.default",o|->"ProgressToken",n|->"default",s|->"",a|-><<>>],
  [f|->"RequestId.default",o|->"RequestId",n|->"default",s|->"",a|-><<>>],
  [f|->"RequestMetaObject.default",o|->"RequestMetaObject",n|->"default",s|->"",a|-><<>>],
  [f|->"RequestParams.default",o|->"RequestParams",n|->"default",s|->"",a|-><<>>],
  [f|->"ResourceUpdatedNotificationParams.default",o|->"ResourceUpdatedNotificationParams",n|->"default",s|->"",a|-><<>>],
  [f|->"Result.default",o|->"Result",n|->"default",s|->"",a|-><<>>],
  [f|->"ResultMetaObject.default",o|->"ResultMetaObject",n|->"default",s|->"",a|-><<>>],
  [f|->"ServerCapabilities.default",o|->"ServerCapabilities",n|->"default",s|->"",a|-><<>>],
  [f|->"ServerCapabilitiesPrompts.default",o|->"ServerCapabilitiesPrompts",n|->"default",s|->"",a|-><<>>],
  [f|->"ServerCapabilitiesResources.default",o|->"ServerCapabilitiesResources",n|->"default",s|->"",a|-><<>>],
  [f|->"ServerCapabilitiesTools.default",o|->"ServerCapabilitiesTools",n|->"default",s|->"",a|-><<>>],
  [f|->"SubscriptionFilter.default",o|->"SubscriptionFilter",n|->"default",s|->"",a|-><<>>],
  [f|->"SubscriptionsAcknowledgedNotificationParams.default",o|->"SubscriptionsAcknowledgedNotificationParams",n|->"default",s|->"",a|-><<>>],
  [f|->"ToolAnnotations.default",o|->"ToolAnnotations",n|->"default",s|->"",a|-><<>>],
  [f|->"ToolChoice.default",o|->"ToolChoice",n|->"default",s|->"",a|-><<>>],
  [f|->"ToolOutputSchema.default",o|->"ToolOutputSchema",n|->"default",s|->"",a|-><<>>],
  [f|->"RequestId.eq",o|->"RequestId",n|->"eq",s|->"ref",a|-><<<<"other",<<"ref","RequestId">>>>>>],
  [f|->"RequestId.find",o|->"RequestId",n|->"find",s|->"",a|-><<<<"ids",<<"vec",<<"ref","RequestId">>>>>>,<<"id",<<"ref","RequestId">>>>>>]>>
=============================================================================
