-------------------------------- MODULE Api ---------------------------------
(* The public functions of schema version 2025_11_25: f name, o owner, n function or trait,     *)
(* s receiver ("" none), a parameters as <<name, type>>.                               *)
EXTENDS TLC

Fns == <<[f|->"AudioContent.new",o|->"AudioContent",n|->"new",s|->"",a|-><<<<"data",<<"str">>>>,<<"mime_type",<<"str">>>>,<<"annotations",<<"opt",<<"ref","Annotations">>>>>>,<<"meta",<<"opt",<<"map">>>>>>>>],
  [f|->"AudioContent.type_",o|->"AudioContent",n|->"type_",s|->"ref",a|-><<>>],
  [f|->"AudioContent.type_value",o|->"AudioContent",n|->"type_value",s|->"",a|-><<>>],
  [f|->"AudioContent.type_name",o|->"AudioContent",n|->"type_name",s|->"",a|-><<>>],
  [f|->"BooleanSchema.new",o|->"BooleanSchema",n|->"new",s|->"",a|-><<<<"default",<<"opt",<<"bool">>>>>>,<<"description",<<"opt",<<"str">>>>>>,<<"title",<<"opt",<<"str">>>>>>>>],
  [f|->"BooleanSchema.type_",o|->"BooleanSchema",n|->"type_",s|->"ref",a|-><<>>],
  [f|->"BooleanSchema.type_value",o|->"BooleanSchema",n|->"type_value",s|->"",a|-><<>>],
  [f|->"BooleanSchema.type_name",o|->"BooleanSchema",n|->"type_name",s|->"",a|-><<>>],
  [f|->"CallToolRequest.new",o|->"CallToolRequest",n|->"new",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"params",<<"ref","CallToolRequestParams">>>>>>],
  [f|->"CallToolRequest.jsonrpc",o|->"CallToolRequest",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"CallToolRequest.method",o|->"CallToolRequest",n|->"method",s|->"ref",a|-><<>>],
  [f|->"CallToolRequest.method_value",o|->"CallToolRequest",n|->"method_value",s|->"",a|-><<>>],
  [f|->"CallToolRequest.method_name",o|->"CallToolRequest",n|->"method_name",s|->"",a|-><<>>],
  [f|->"CancelTaskRequest.new",o|->"CancelTaskRequest",n|->"new",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"params",<<"ref","CancelTaskParams">>>>>>],
  [f|->"CancelTaskRequest.jsonrpc",o|->"CancelTaskRequest",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"CancelTaskRequest.method",o|->"CancelTaskRequest",n|->"method",s|->"ref",a|-><<>>],
  [f|->"CancelTaskRequest.method_value",o|->"CancelTaskRequest",n|->"method_value",s|->"",a|-><<>>],
  [f|->"CancelTaskRequest.method_name",o|->"CancelTaskRequest",n|->"method_name",s|->"",a|-><<>>],
  [f|->"CancelledNotification.new",o|->"CancelledNotification",n|->"new",s|->"",a|-><<<<"params",<<"ref","CancelledNotificationParams">>>>>>],
  [f|->"CancelledNotification.jsonrpc",o|->"CancelledNotification",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"CancelledNotification.method",o|->"CancelledNotification",n|->"method",s|->"ref",a|-><<>>],
  [f|->"CancelledNotification.method_value",o|->"CancelledNotification",n|->"method_value",s|->"",a|-><<>>],
  [f|->"CancelledNotification.method_name",o|->"CancelledNotification",n|->"method_name",s|->"",a|-><<>>],
  [f|->"ClientNotification.From<CancelledNotification>",o|->"ClientNotification",n|->"From",s|->"",a|-><<<<"value",<<"ref","CancelledNotification">>>>>>],
  [f|->"ClientNotification.From<InitializedNotification>",o|->"ClientNotification",n|->"From",s|->"",a|-><<<<"value",<<"ref","InitializedNotification">>>>>>],
  [f|->"ClientNotification.From<ProgressNotification>",o|->"ClientNotification",n|->"From",s|->"",a|-><<<<"value",<<"ref","ProgressNotification">>>>>>],
  [f|->"ClientNotification.From<TaskStatusNotification>",o|->"ClientNotification",n|->"From",s|->"",a|-><<<<"value",<<"ref","TaskStatusNotification">>>>>>],
  [f|->"ClientNotification.From<RootsListChangedNotification>",o|->"ClientNotification",n|->"From",s|->"",a|-><<<<"value",<<"ref","RootsListChangedNotification">>>>>>],
  [f|->"ClientRequest.From<InitializeRequest>",o|->"ClientRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","InitializeRequest">>>>>>],
  [f|->"ClientRequest.From<PingRequest>",o|->"ClientRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","PingRequest">>>>>>],
  [f|->"ClientRequest.From<ListResourcesRequest>",o|->"ClientRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListResourcesRequest">>>>>>],
  [f|->"ClientRequest.From<ListResourceTemplatesRequest>",o|->"ClientRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListResourceTemplatesRequest">>>>>>],
  [f|->"ClientRequest.From<ReadResourceRequest>",o|->"ClientRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","ReadResourceRequest">>>>>>],
  [f|->"ClientRequest.From<SubscribeRequest>",o|->"ClientRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","SubscribeRequest">>>>>>],
  [f|->"ClientRequest.From<UnsubscribeRequest>",o|->"ClientRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","UnsubscribeRequest">>>>>>],
  [f|->"ClientRequest.From<ListPromptsRequest>",o|->"ClientRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListPromptsRequest">>>>>>],
  [f|->"ClientRequest.From<GetPromptRequest>",o|->"ClientRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","GetPromptRequest">>>>>>],
  [f|->"ClientRequest.From<ListToolsRequest>",o|->"ClientRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListToolsRequest">>>>>>],
  [f|->"ClientRequest.From<CallToolRequest>",o|->"ClientRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","CallToolRequest">>>>>>],
  [f|->"ClientRequest.From<GetTaskRequest>",o|->"ClientRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","GetTaskRequest">>>>>>],
  [f|->"ClientRequest.From<GetTaskPayloadRequest>",o|->"ClientRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","GetTaskPayloadRequest">>>>>>],
  [f|->"ClientRequest.From<CancelTaskRequest>",o|->"ClientRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","CancelTaskRequest">>>>>>],
  [f|->"ClientRequest.From<ListTasksRequest>",o|->"ClientRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListTasksRequest">>>>>>],
  [f|->"ClientRequest.From<SetLevelRequest>",o|->"ClientRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","SetLevelRequest">>>>>>],
  [f|->"ClientRequest.From<CompleteRequest>",o|->"ClientRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","CompleteRequest">>>>>>],
  [f|->"ClientResult.From<GetTaskResult>",o|->"ClientResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","GetTaskResult">>>>>>],
  [f|->"ClientResult.From<CancelTaskResult>",o|->"ClientResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","CancelTaskResult">>>>>>],
  [f|->"ClientResult.From<ListTasksResult>",o|->"ClientResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListTasksResult">>>>>>],
  [f|->"ClientResult.From<CreateMessageResult>",o|->"ClientResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","CreateMessageResult">>>>>>],
  [f|->"ClientResult.From<ListRootsResult>",o|->"ClientResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListRootsResult">>>>>>],
  [f|->"ClientResult.From<ElicitResult>",o|->"ClientResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","ElicitResult">>>>>>],
  [f|->"ClientResult.From<Result>",o|->"ClientResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","Result">>>>>>],
  [f|->"ClientResult.From<GetTaskPayloadResult>",o|->"ClientResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","GetTaskPayloadResult">>>>>>],
  [f|->"CompleteRequest.new",o|->"CompleteRequest",n|->"new",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"params",<<"ref","CompleteRequestParams">>>>>>],
  [f|->"CompleteRequest.jsonrpc",o|->"CompleteRequest",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"CompleteRequest.method",o|->"CompleteRequest",n|->"method",s|->"ref",a|-><<>>],
  [f|->"CompleteRequest.method_value",o|->"CompleteRequest",n|->"method_value",s|->"",a|-><<>>],
  [f|->"CompleteRequest.method_name",o|->"CompleteRequest",n|->"method_name",s|->"",a|-><<>>],
  [f|->"CompleteRequestRef.From<PromptReference>",o|->"CompleteRequestRef",n|->"From",s|->"",a|-><<<<"value",<<"ref","PromptReference">>>>>>],
  [f|->"CompleteRequestRef.From<ResourceTemplateReference>",o|->"CompleteRequestRef",n|->"From",s|->"",a|-><<<<"value",<<"ref","ResourceTemplateReference">>>>>>],
  [f|->"ContentBlock.From<TextContent>",o|->"ContentBlock",n|->"From",s|->"",a|-><<<<"value",<<"ref","TextContent">>>>>>],
  [f|->"ContentBlock.From<ImageContent>",o|->"ContentBlock",n|->"From",s|->"",a|-><<<<"value",<<"ref","ImageContent">>>>>>],
  [f|->"ContentBlock.From<AudioContent>",o|->"ContentBlock",n|->"From",s|->"",a|-><<<<"value",<<"ref","AudioContent">>>>>>],
  [f|->"ContentBlock.From<ResourceLink>",o|->"ContentBlock",n|->"From",s|->"",a|-><<<<"value",<<"ref","ResourceLink">>>>>>],
  [f|->"ContentBlock.From<EmbeddedResource>",o|->"ContentBlock",n|->"From",s|->"",a|-><<<<"value",<<"ref","EmbeddedResource">>>>>>],
  [f|->"CreateMessageContent.From<TextContent>",o|->"CreateMessageContent",n|->"From",s|->"",a|-><<<<"value",<<"ref","TextContent">>>>>>],
  [f|->"CreateMessageContent.From<ImageContent>",o|->"CreateMessageContent",n|->"From",s|->"",a|-><<<<"value",<<"ref","ImageContent">>>>>>],
  [f|->"CreateMessageContent.From<AudioContent>",o|->"CreateMessageContent",n|->"From",s|->"",a|-><<<<"value",<<"ref","AudioContent">>>>>>],
  [f|->"CreateMessageContent.From<ToolUseContent>",o|->"CreateMessageContent",n|->"From",s|->"",a|-><<<<"value",<<"ref","ToolUseContent">>>>>>],
  [f|->"CreateMessageContent.From<ToolResultContent>",o|->"CreateMessageContent",n|->"From",s|->"",a|-><<<<"value",<<"ref","ToolResultContent">>>>>>],
  [f|->"CreateMessageContent.From<Vec<SamplingMessageContentBlock>>",o|->"CreateMessageContent",n|->"From",s|->"",a|-><<<<"value",<<"vec",<<"ref","SamplingMessageContentBlock">>>>>>>>],
  [f|->"CreateMessageRequest.new",o|->"CreateMessageRequest",n|->"new",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"params",<<"ref","CreateMessageRequestParams">>>>>>],
  [f|->"CreateMessageRequest.jsonrpc",o|->"CreateMessageRequest",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"CreateMessageRequest.method",o|->"CreateMessageRequest",n|->"method",s|->"ref",a|-><<>>],
  [f|->"CreateMessageRequest.method_value",o|->"CreateMessageRequest",n|->"method_value",s|->"",a|-><<>>],
  [f|->"CreateMessageRequest.method_name",o|->"CreateMessageRequest",n|->"method_name",s|->"",a|-><<>>],
  [f|->"ElicitFormSchema.new",o|->"ElicitFormSchema",n|->"new",s|->"",a|-><<<<"properties",<<"hmap",<<"ref","PrimitiveSchemaDefinition">>>>>>,<<"required",<<"vec",<<"str">>>>>>,<<"schema",<<"opt",<<"str">>>>>>>>],
  [f|->"ElicitFormSchema.type_",o|->"ElicitFormSchema",n|->"type_",s|->"ref",a|-><<>>],
  [f|->"ElicitFormSchema.type_value",o|->"ElicitFormSchema",n|->"type_value",s|->"",a|-><<>>],
  [f|->"ElicitFormSchema.type_name",o|->"ElicitFormSchema",n|->"type_name",s|->"",a|-><<>>],
  [f|->"ElicitRequest.new",o|->"ElicitRequest",n|->"new",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"params",<<"ref","ElicitRequestParams">>>>>>],
  [f|->"ElicitRequest.jsonrpc",o|->"ElicitRequest",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"ElicitRequest.method",o|->"ElicitRequest",n|->"method",s|->"ref",a|-><<>>],
  [f|->"ElicitRequest.method_value",o|->"ElicitRequest",n|->"method_value",s|->"",a|-><<>>],
  [f|->"ElicitRequest.method_name",o|->"ElicitRequest",n|->"method_name",s|->"",a|-><<>>],
  [f|->"ElicitRequestFormParams.new",o|->"ElicitRequestFormParams",n|->"new",s|->"",a|-><<<<"message",<<"str">>>>,<<"requested_schema",<<"ref","ElicitFormSchema">>>>,<<"meta",<<"opt",<<"ref","ElicitFormMeta">>>>>>,<<"task",<<"opt",<<"ref","TaskMetadata">>>>>>>>],
  [f|->"ElicitRequestFormParams.mode",o|->"ElicitRequestFormParams",n|->"mode",s|->"ref",a|-><<>>],
  [f|->"ElicitRequestFormParams.mode_value",o|->"ElicitRequestFormParams",n|->"mode_value",s|->"",a|-><<>>],
  [f|->"ElicitRequestFormParams.mode_name",o|->"ElicitRequestFormParams",n|->"mode_name",s|->"",a|-><<>>],
  [f|->"ElicitRequestParams.From<ElicitRequestUrlParams>",o|->"ElicitRequestParams",n|->"From",s|->"",a|-><<<<"value",<<"ref","ElicitRequestUrlParams">>>>>>],
  [f|->"ElicitRequestParams.From<ElicitRequestFormParams>",o|->"ElicitRequestParams",n|->"From",s|->"",a|-><<<<"value",<<"ref","ElicitRequestFormParams">>>>>>],
  [f|->"ElicitRequestUrlParams.new",o|->"ElicitRequestUrlParams",n|->"new",s|->"",a|-><<<<"elicitation_id",<<"str">>>>,<<"message",<<"str">>>>,<<"url",<<"str">>>>,<<"meta",<<"opt",<<"ref","ElicitUrlMeta">>>>>>,<<"task",<<"opt",<<"ref","TaskMetadata">>>>>>>>],
  [f|->"ElicitRequestUrlParams.mode",o|->"ElicitRequestUrlParams",n|->"mode",s|->"ref",a|-><<>>],
  [f|->"ElicitRequestUrlParams.mode_value",o|->"ElicitRequestUrlParams",n|->"mode_value",s|->"",a|-><<>>],
  [f|->"ElicitRequestUrlParams.mode_name",o|->"ElicitRequestUrlParams",n|->"mode_name",s|->"",a|-><<>>],
  [f|->"ElicitResultAction.Display",o|->"ElicitResultAction",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"ElicitResultContent.From<Vec<String>>",o|->"ElicitResultContent",n|->"From",s|->"",a|-><<<<"value",<<"vec",<<"str">>>>>>>>],
  [f|->"ElicitResultContent.From<ElicitResultContentPrimitive>",o|->"ElicitResultContent",n|->"From",s|->"",a|-><<<<"value",<<"ref","ElicitResultContentPrimitive">>>>>>],
  [f|->"ElicitResultContentPrimitive.From<bool>",o|->"ElicitResultContentPrimitive",n|->"From",s|->"",a|-><<<<"value",<<"bool">>>>>>],
  [f|->"ElicitResultContentPrimitive.From<i64>",o|->"ElicitResultContentPrimitive",n|->"From",s|->"",a|-><<<<"value",<<"i64">>>>>>],
  [f|->"ElicitationCompleteNotification.new",o|->"ElicitationCompleteNotification",n|->"new",s|->"",a|-><<<<"params",<<"ref","ElicitCompleteParams">>>>>>],
  [f|->"ElicitationCompleteNotification.jsonrpc",o|->"ElicitationCompleteNotification",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"ElicitationCompleteNotification.method",o|->"ElicitationCompleteNotification",n|->"method",s|->"ref",a|-><<>>],
  [f|->"ElicitationCompleteNotification.method_value",o|->"ElicitationCompleteNotification",n|->"method_value",s|->"",a|-><<>>],
  [f|->"ElicitationCompleteNotification.method_name",o|->"ElicitationCompleteNotification",n|->"method_name",s|->"",a|-><<>>],
  [f|->"EmbeddedResource.new",o|->"EmbeddedResource",n|->"new",s|->"",a|-><<<<"resource",<<"ref","EmbeddedResourceResource">>>>,<<"annotations",<<"opt",<<"ref","Annotations">>>>>>,<<"meta",<<"opt",<<"map">>>>>>>>],
  [f|->"EmbeddedResource.type_",o|->"EmbeddedResource",n|->"type_",s|->"ref",a|-><<>>],
  [f|->"EmbeddedResource.type_value",o|->"EmbeddedResource",n|->"type_value",s|->"",a|-><<>>],
  [f|->"EmbeddedResource.type_name",o|->"EmbeddedResource",n|->"type_name",s|->"",a|-><<>>],
  [f|->"EmbeddedResourceResource.From<TextResourceContents>",o|->"EmbeddedResourceResource",n|->"From",s|->"",a|-><<<<"value",<<"ref","TextResourceContents">>>>>>],
  [f|->"EmbeddedResourceResource.From<BlobResourceContents>",o|->"EmbeddedResourceResource",n|->"From",s|->"",a|-><<<<"value",<<"ref","BlobResourceContents">>>>>>],
  [f|->"EnumSchema.From<UntitledSingleSelectEnumSchema>",o|->"EnumSchema",n|->"From",s|->"",a|-><<<<"value",<<"ref","UntitledSingleSelectEnumSchema">>>>>>],
  [f|->"EnumSchema.From<TitledSingleSelectEnumSchema>",o|->"EnumSchema",n|->"From",s|->"",a|-><<<<"value",<<"ref","TitledSingleSelectEnumSchema">>>>>>],
  [f|->"EnumSchema.From<UntitledMultiSelectEnumSchema>",o|->"EnumSchema",n|->"From",s|->"",a|-><<<<"value",<<"ref","UntitledMultiSelectEnumSchema">>>>>>],
  [f|->"EnumSchema.From<TitledMultiSelectEnumSchema>",o|->"EnumSchema",n|->"From",s|->"",a|-><<<<"value",<<"ref","TitledMultiSelectEnumSchema">>>>>>],
  [f|->"EnumSchema.From<LegacyTitledEnumSchema>",o|->"EnumSchema",n|->"From",s|->"",a|-><<<<"value",<<"ref","LegacyTitledEnumSchema">>>>>>],
  [f|->"GetPromptRequest.new",o|->"GetPromptRequest",n|->"new",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"params",<<"ref","GetPromptRequestParams">>>>>>],
  [f|->"GetPromptRequest.jsonrpc",o|->"GetPromptRequest",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"GetPromptRequest.method",o|->"GetPromptRequest",n|->"method",s|->"ref",a|-><<>>],
  [f|->"GetPromptRequest.method_value",o|->"GetPromptRequest",n|->"method_value",s|->"",a|-><<>>],
  [f|->"GetPromptRequest.method_name",o|->"GetPromptRequest",n|->"method_name",s|->"",a|-><<>>],
  [f|->"GetTaskPayloadRequest.new",o|->"GetTaskPayloadRequest",n|->"new",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"params",<<"ref","GetTaskPayloadParams">>>>>>],
  [f|->"GetTaskPayloadRequest.jsonrpc",o|->"GetTaskPayloadRequest",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"GetTaskPayloadRequest.method",o|->"GetTaskPayloadRequest",n|->"method",s|->"ref",a|-><<>>],
  [f|->"GetTaskPayloadRequest.method_value",o|->"GetTaskPayloadRequest",n|->"method_value",s|->"",a|-><<>>],
  [f|->"GetTaskPayloadRequest.method_name",o|->"GetTaskPayloadRequest",n|->"method_name",s|->"",a|-><<>>],
  [f|->"GetTaskRequest.new",o|->"GetTaskRequest",n|->"new",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"params",<<"ref","GetTaskParams">>>>>>],
  [f|->"GetTaskRequest.jsonrpc",o|->"GetTaskRequest",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"GetTaskRequest.method",o|->"GetTaskRequest",n|->"method",s|->"ref",a|-><<>>],
  [f|->"GetTaskRequest.method_value",o|->"GetTaskRequest",n|->"method_value",s|->"",a|-><<>>],
  [f|->"GetTaskRequest.method_name",o|->"GetTaskRequest",n|->"method_name",s|->"",a|-><<>>],
  [f|->"IconTheme.Display",o|->"IconTheme",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"ImageContent.new",o|->"ImageContent",n|->"new",s|->"",a|-><<<<"data",<<"str">>>>,<<"mime_type",<<"str">>>>,<<"annotations",<<"opt",<<"ref","Annotations">>>>>>,<<"meta",<<"opt",<<"map">>>>>>>>],
  [f|->"ImageContent.type_",o|->"ImageContent",n|->"type_",s|->"ref",a|-><<>>],
  [f|->"ImageContent.type_value",o|->"ImageContent",n|->"type_value",s|->"",a|-><<>>],
  [f|->"ImageContent.type_name",o|->"ImageContent",n|->"type_name",s|->"",a|-><<>>],
  [f|->"IncludeContext.Display",o|->"IncludeContext",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"InitializeRequest.new",o|->"InitializeRequest",n|->"new",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"params",<<"ref","InitializeRequestParams">>>>>>],
  [f|->"InitializeRequest.jsonrpc",o|->"InitializeRequest",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"InitializeRequest.method",o|->"InitializeRequest",n|->"method",s|->"ref",a|-><<>>],
  [f|->"InitializeRequest.method_value",o|->"InitializeRequest",n|->"method_value",s|->"",a|-><<>>],
  [f|->"InitializeRequest.method_name",o|->"InitializeRequest",n|->"method_name",s|->"",a|-><<>>],
  [f|->"InitializedNotification.new",o|->"InitializedNotification",n|->"new",s|->"",a|-><<<<"params",<<"opt",<<"ref","NotificationParams">>>>>>>>],
  [f|->"InitializedNotification.jsonrpc",o|->"InitializedNotification",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"InitializedNotification.method",o|->"InitializedNotification",n|->"method",s|->"ref",a|-><<>>],
  [f|->"InitializedNotification.method_value",o|->"InitializedNotification",n|->"method_value",s|->"",a|-><<>>],
  [f|->"InitializedNotification.method_name",o|->"InitializedNotification",n|->"method_name",s|->"",a|-><<>>],
  [f|->"JsonrpcErrorResponse.new",o|->"JsonrpcErrorResponse",n|->"new",s|->"",a|-><<<<"error",<<"ref","RpcError">>>>,<<"id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"JsonrpcErrorResponse.jsonrpc",o|->"JsonrpcErrorResponse",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"JsonrpcMessage.From<JsonrpcRequest>",o|->"JsonrpcMessage",n|->"From",s|->"",a|-><<<<"value",<<"ref","JsonrpcRequest">>>>>>],
  [f|->"JsonrpcMessage.From<JsonrpcNotification>",o|->"JsonrpcMessage",n|->"From",s|->"",a|-><<<<"value",<<"ref","JsonrpcNotification">>>>>>],
  [f|->"JsonrpcMessage.From<JsonrpcResultResponse>",o|->"JsonrpcMessage",n|->"From",s|->"",a|-><<<<"value",<<"ref","JsonrpcResultResponse">>>>>>],
  [f|->"JsonrpcMessage.From<JsonrpcErrorResponse>",o|->"JsonrpcMessage",n|->"From",s|->"",a|-><<<<"value",<<"ref","JsonrpcErrorResponse">>>>>>],
  [f|->"JsonrpcNotification.new",o|->"JsonrpcNotification",n|->"new",s|->"",a|-><<<<"method",<<"str">>>>,<<"params",<<"opt",<<"map">>>>>>>>],
  [f|->"JsonrpcNotification.jsonrpc",o|->"JsonrpcNotification",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"JsonrpcRequest.new",o|->"JsonrpcRequest",n|->"new",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"method",<<"str">>>>,<<"params",<<"opt",<<"map">>>>>>>>],
  [f|->"JsonrpcRequest.jsonrpc",o|->"JsonrpcRequest",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"JsonrpcResponse.From<JsonrpcResultResponse>",o|->"JsonrpcResponse",n|->"From",s|->"",a|-><<<<"value",<<"ref","JsonrpcResultResponse">>>>>>],
  [f|->"JsonrpcResponse.From<JsonrpcErrorResponse>",o|->"JsonrpcResponse",n|->"From",s|->"",a|-><<<<"value",<<"ref","JsonrpcErrorResponse">>>>>>],
  [f|->"JsonrpcResultResponse.new",o|->"JsonrpcResultResponse",n|->"new",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"result",<<"ref","Result">>>>>>],
  [f|->"JsonrpcResultResponse.jsonrpc",o|->"JsonrpcResultResponse",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"LegacyTitledEnumSchema.new",o|->"LegacyTitledEnumSchema",n|->"new",s|->"",a|-><<<<"enum_",<<"vec",<<"str">>>>>>,<<"enum_names",<<"vec",<<"str">>>>>>,<<"default",<<"opt",<<"str">>>>>>,<<"description",<<"opt",<<"str">>>>>>,<<"title",<<"opt",<<"str">>>>>>>>],
  [f|->"LegacyTitledEnumSchema.type_",o|->"LegacyTitledEnumSchema",n|->"type_",s|->"ref",a|-><<>>],
  [f|->"LegacyTitledEnumSchema.type_value",o|->"LegacyTitledEnumSchema",n|->"type_value",s|->"",a|-><<>>],
  [f|->"LegacyTitledEnumSchema.type_name",o|->"LegacyTitledEnumSchema",n|->"type_name",s|->"",a|-><<>>],
  [f|->"ListPromptsRequest.new",o|->"ListPromptsRequest",n|->"new",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"params",<<"opt",<<"ref","PaginatedRequestParams">>>>>>>>],
  [f|->"ListPromptsRequest.jsonrpc",o|->"ListPromptsRequest",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"ListPromptsRequest.method",o|->"ListPromptsRequest",n|->"method",s|->"ref",a|-><<>>],
  [f|->"ListPromptsRequest.method_value",o|->"ListPromptsRequest",n|->"method_value",s|->"",a|-><<>>],
  [f|->"ListPromptsRequest.method_name",o|->"ListPromptsRequest",n|->"method_name",s|->"",a|-><<>>],
  [f|->"ListResourceTemplatesRequest.new",o|->"ListResourceTemplatesRequest",n|->"new",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"params",<<"opt",<<"ref","PaginatedRequestParams">>>>>>>>],
  [f|->"ListResourceTemplatesRequest.jsonrpc",o|->"ListResourceTemplatesRequest",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"ListResourceTemplatesRequest.method",o|->"ListResourceTemplatesRequest",n|->"method",s|->"ref",a|-><<>>],
  [f|->"ListResourceTemplatesRequest.method_value",o|->"ListResourceTemplatesRequest",n|->"method_value",s|->"",a|-><<>>],
  [f|->"ListResourceTemplatesRequest.method_name",o|->"ListResourceTemplatesRequest",n|->"method_name",s|->"",a|-><<>>],
  [f|->"ListResourcesRequest.new",o|->"ListResourcesRequest",n|->"new",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"params",<<"opt",<<"ref","PaginatedRequestParams">>>>>>>>],
  [f|->"ListResourcesRequest.jsonrpc",o|->"ListResourcesRequest",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"ListResourcesRequest.method",o|->"ListResourcesRequest",n|->"method",s|->"ref",a|-><<>>],
  [f|->"ListResourcesRequest.method_value",o|->"ListResourcesRequest",n|->"method_value",s|->"",a|-><<>>],
  [f|->"ListResourcesRequest.method_name",o|->"ListResourcesRequest",n|->"method_name",s|->"",a|-><<>>],
  [f|->"ListRootsRequest.new",o|->"ListRootsRequest",n|->"new",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"params",<<"opt",<<"ref","RequestParams">>>>>>>>],
  [f|->"ListRootsRequest.jsonrpc",o|->"ListRootsRequest",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"ListRootsRequest.method",o|->"ListRootsRequest",n|->"method",s|->"ref",a|-><<>>],
  [f|->"ListRootsRequest.method_value",o|->"ListRootsRequest",n|->"method_value",s|->"",a|-><<>>],
  [f|->"ListRootsRequest.method_name",o|->"ListRootsRequest",n|->"method_name",s|->"",a|-><<>>],
  [f|->"ListTasksRequest.new",o|->"ListTasksRequest",n|->"new",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"params",<<"opt",<<"ref","PaginatedRequestParams">>>>>>>>],
  [f|->"ListTasksRequest.jsonrpc",o|->"ListTasksRequest",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"ListTasksRequest.method",o|->"ListTasksRequest",n|->"method",s|->"ref",a|-><<>>],
  [f|->"ListTasksRequest.method_value",o|->"ListTasksRequest",n|->"method_value",s|->"",a|-><<>>],
  [f|->"ListTasksRequest.method_name",o|->"ListTasksRequest",n|->"method_name",s|->"",a|-><<>>],
  [f|->"ListToolsRequest.new",o|->"ListToolsRequest",n|->"new",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"params",<<"opt",<<"ref","PaginatedRequestParams">>>>>>>>],
  [f|->"ListToolsRequest.jsonrpc",o|->"ListToolsRequest",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"ListToolsRequest.method",o|->"ListToolsRequest",n|->"method",s|->"ref",a|-><<>>],
  [f|->"ListToolsRequest.method_value",o|->"ListToolsRequest",n|->"method_value",s|->"",a|-><<>>],
  [f|->"ListToolsRequest.method_name",o|->"ListToolsRequest",n|->"method_name",s|->"",a|-><<>>],
  [f|->"LoggingLevel.Display",o|->"LoggingLevel",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"LoggingMessageNotification.new",o|->"LoggingMessageNotification",n|->"new",s|->"",a|-><<<<"params",<<"ref","LoggingMessageNotificationParams">>>>>>],
  [f|->"LoggingMessageNotification.jsonrpc",o|->"LoggingMessageNotification",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"LoggingMessageNotification.method",o|->"LoggingMessageNotification",n|->"method",s|->"ref",a|-><<>>],
  [f|->"LoggingMessageNotification.method_value",o|->"LoggingMessageNotification",n|->"method_value",s|->"",a|-><<>>],
  [f|->"LoggingMessageNotification.method_name",o|->"LoggingMessageNotification",n|->"method_name",s|->"",a|-><<>>],
  [f|->"MultiSelectEnumSchema.From<UntitledMultiSelectEnumSchema>",o|->"MultiSelectEnumSchema",n|->"From",s|->"",a|-><<<<"value",<<"ref","UntitledMultiSelectEnumSchema">>>>>>],
  [f|->"MultiSelectEnumSchema.From<TitledMultiSelectEnumSchema>",o|->"MultiSelectEnumSchema",n|->"From",s|->"",a|-><<<<"value",<<"ref","TitledMultiSelectEnumSchema">>>>>>],
  [f|->"NumberSchemaType.Display",o|->"NumberSchemaType",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"PaginatedRequest.new",o|->"PaginatedRequest",n|->"new",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"method",<<"str">>>>,<<"params",<<"opt",<<"ref","PaginatedRequestParams">>>>>>>>],
  [f|->"PaginatedRequest.jsonrpc",o|->"PaginatedRequest",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"PingRequest.new",o|->"PingRequest",n|->"new",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"params",<<"opt",<<"ref","RequestParams">>>>>>>>],
  [f|->"PingRequest.jsonrpc",o|->"PingRequest",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"PingRequest.method",o|->"PingRequest",n|->"method",s|->"ref",a|-><<>>],
  [f|->"PingRequest.method_value",o|->"PingRequest",n|->"method_value",s|->"",a|-><<>>],
  [f|->"PingRequest.method_name",o|->"PingRequest",n|->"method_name",s|->"",a|-><<>>],
  [f|->"PrimitiveSchemaDefinition.From<StringSchema>",o|->"PrimitiveSchemaDefinition",n|->"From",s|->"",a|-><<<<"value",<<"ref","StringSchema">>>>>>],
  [f|->"PrimitiveSchemaDefinition.From<NumberSchema>",o|->"PrimitiveSchemaDefinition",n|->"From",s|->"",a|-><<<<"value",<<"ref","NumberSchema">>>>>>],
  [f|->"PrimitiveSchemaDefinition.From<BooleanSchema>",o|->"PrimitiveSchemaDefinition",n|->"From",s|->"",a|-><<<<"value",<<"ref","BooleanSchema">>>>>>],
  [f|->"PrimitiveSchemaDefinition.From<UntitledSingleSelectEnumSchema>",o|->"PrimitiveSchemaDefinition",n|->"From",s|->"",a|-><<<<"value",<<"ref","UntitledSingleSelectEnumSchema">>>>>>],
  [f|->"PrimitiveSchemaDefinition.From<TitledSingleSelectEnumSchema>",o|->"PrimitiveSchemaDefinition",n|->"From",s|->"",a|-><<<<"value",<<"ref","TitledSingleSelectEnumSchema">>>>>>],
  [f|->"PrimitiveSchemaDefinition.From<UntitledMultiSelectEnumSchema>",o|->"PrimitiveSchemaDefinition",n|->"From",s|->"",a|-><<<<"value",<<"ref","UntitledMultiSelectEnumSchema">>>>>>],
  [f|->"PrimitiveSchemaDefinition.From<TitledMultiSelectEnumSchema>",o|->"PrimitiveSchemaDefinition",n|->"From",s|->"",a|-><<<<"value",<<"ref","TitledMultiSelectEnumSchema">>>>>>],
  [f|->"PrimitiveSchemaDefinition.From<LegacyTitledEnumSchema>",o|->"PrimitiveSchemaDefinition",n|->"From",s|->"",a|-><<<<"value",<<"ref","LegacyTitledEnumSchema">>>>>>],
  [f|->"ProgressNotification.new",o|->"ProgressNotification",n|->"new",s|->"",a|-><<<<"params",<<"ref","ProgressNotificationParams">>>>>>],
  [f|->"ProgressNotification.jsonrpc",o|->"ProgressNotification",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"ProgressNotification.method",o|->"ProgressNotification",n|->"method",s|->"ref",a|-><<>>],
  [f|->"ProgressNotification.method_value",o|->"ProgressNotification",n|->"method_value",s|->"",a|-><<>>],
  [f|->"ProgressNotification.method_name",o|->"ProgressNotification",n|->"method_name",s|->"",a|-><<>>],
  [f|->"ProgressToken.From<i64>",o|->"ProgressToken",n|->"From",s|->"",a|-><<<<"value",<<"i64">>>>>>],
  [f|->"PromptListChangedNotification.new",o|->"PromptListChangedNotification",n|->"new",s|->"",a|-><<<<"params",<<"opt",<<"ref","NotificationParams">>>>>>>>],
  [f|->"PromptListChangedNotification.jsonrpc",o|->"PromptListChangedNotification",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"PromptListChangedNotification.method",o|->"PromptListChangedNotification",n|->"method",s|->"ref",a|-><<>>],
  [f|->"PromptListChangedNotification.method_value",o|->"PromptListChangedNotification",n|->"method_value",s|->"",a|-><<>>],
  [f|->"PromptListChangedNotification.method_name",o|->"PromptListChangedNotification",n|->"method_name",s|->"",a|-><<>>],
  [f|->"PromptReference.new",o|->"PromptReference",n|->"new",s|->"",a|-><<<<"name",<<"str">>>>,<<"title",<<"opt",<<"str">>>>>>>>],
  [f|->"PromptReference.type_",o|->"PromptReference",n|->"type_",s|->"ref",a|-><<>>],
  [f|->"PromptReference.type_value",o|->"PromptReference",n|->"type_value",s|->"",a|-><<>>],
  [f|->"PromptReference.type_name",o|->"PromptReference",n|->"type_name",s|->"",a|-><<>>],
  [f|->"ReadResourceContent.From<TextResourceContents>",o|->"ReadResourceContent",n|->"From",s|->"",a|-><<<<"value",<<"ref","TextResourceContents">>>>>>],
  [f|->"ReadResourceContent.From<BlobResourceContents>",o|->"ReadResourceContent",n|->"From",s|->"",a|-><<<<"value",<<"ref","BlobResourceContents">>>>>>],
  [f|->"ReadResourceRequest.new",o|->"ReadResourceRequest",n|->"new",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"params",<<"ref","ReadResourceRequestParams">>>>>>],
  [f|->"ReadResourceRequest.jsonrpc",o|->"ReadResourceRequest",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"ReadResourceRequest.method",o|->"ReadResourceRequest",n|->"method",s|->"ref",a|-><<>>],
  [f|->"ReadResourceRequest.method_value",o|->"ReadResourceRequest",n|->"method_value",s|->"",a|-><<>>],
  [f|->"ReadResourceRequest.method_name",o|->"ReadResourceRequest",n|->"method_name",s|->"",a|-><<>>],
  [f|->"RequestId.From<i64>",o|->"RequestId",n|->"From",s|->"",a|-><<<<"value",<<"i64">>>>>>],
  [f|->"ResourceLink.new",o|->"ResourceLink",n|->"new",s|->"",a|-><<<<"icons",<<"vec",<<"ref","Icon">>>>>>,<<"name",<<"str">>>>,<<"uri",<<"str">>>>,<<"annotations",<<"opt",<<"ref","Annotations">>>>>>,<<"description",<<"opt",<<"str">>>>>>,<<"meta",<<"opt",<<"map">>>>>>,<<"mime_type",<<"opt",<<"str">>>>>>,<<"size",<<"opt",<<"i64">>>>>>,<<"title",<<"opt",<<"str">>>>>>>>],
  [f|->"ResourceLink.type_",o|->"ResourceLink",n|->"type_",s|->"ref",a|-><<>>],
  [f|->"ResourceLink.type_value",o|->"ResourceLink",n|->"type_value",s|->"",a|-><<>>],
  [f|->"ResourceLink.type_name",o|->"ResourceLink",n|->"type_name",s|->"",a|-><<>>],
  [f|->"ResourceListChangedNotification.new",o|->"ResourceListChangedNotification",n|->"new",s|->"",a|-><<<<"params",<<"opt",<<"ref","NotificationParams">>>>>>>>],
  [f|->"ResourceListChangedNotification.jsonrpc",o|->"ResourceListChangedNotification",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"ResourceListChangedNotification.method",o|->"ResourceListChangedNotification",n|->"method",s|->"ref",a|-><<>>],
  [f|->"ResourceListChangedNotification.method_value",o|->"ResourceListChangedNotification",n|->"method_value",s|->"",a|-><<>>],
  [f|->"ResourceListChangedNotification.method_name",o|->"ResourceListChangedNotification",n|->"method_name",s|->"",a|-><<>>],
  [f|->"ResourceTemplateReference.new",o|->"ResourceTemplateReference",n|->"new",s|->"",a|-><<<<"uri",<<"str">>>>>>],
  [f|->"ResourceTemplateReference.type_",o|->"ResourceTemplateReference",n|->"type_",s|->"ref",a|-><<>>],
  [f|->"ResourceTemplateReference.type_value",o|->"ResourceTemplateReference",n|->"type_value",s|->"",a|-><<>>],
  [f|->"ResourceTemplateReference.type_name",o|->"ResourceTemplateReference",n|->"type_name",s|->"",a|-><<>>],
  [f|->"ResourceUpdatedNotification.new",o|->"ResourceUpdatedNotification",n|->"new",s|->"",a|-><<<<"params",<<"ref","ResourceUpdatedNotificationParams">>>>>>],
  [f|->"ResourceUpdatedNotification.jsonrpc",o|->"ResourceUpdatedNotification",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"ResourceUpdatedNotification.method",o|->"ResourceUpdatedNotification",n|->"method",s|->"ref",a|-><<>>],
  [f|->"ResourceUpdatedNotification.method_value",o|->"ResourceUpdatedNotification",n|->"method_value",s|->"",a|-><<>>],
  [f|->"ResourceUpdatedNotification.method_name",o|->"ResourceUpdatedNotification",n|->"method_name",s|->"",a|-><<>>],
  [f|->"Role.Display",o|->"Role",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"RootsListChangedNotification.new",o|->"RootsListChangedNotification",n|->"new",s|->"",a|-><<<<"params",<<"opt",<<"ref","NotificationParams">>>>>>>>],
  [f|->"RootsListChangedNotification.jsonrpc",o|->"RootsListChangedNotification",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"RootsListChangedNotification.method",o|->"RootsListChangedNotification",n|->"method",s|->"ref",a|-><<>>],
  [f|->"RootsListChangedNotification.method_value",o|->"RootsListChangedNotification",n|->"method_value",s|->"",a|-><<>>],
  [f|->"RootsListChangedNotification.method_name",o|->"RootsListChangedNotification",n|->"method_name",s|->"",a|-><<>>],
  [f|->"SamplingMessageContent.From<TextContent>",o|->"SamplingMessageContent",n|->"From",s|->"",a|-><<<<"value",<<"ref","TextContent">>>>>>],
  [f|->"SamplingMessageContent.From<ImageContent>",o|->"SamplingMessageContent",n|->"From",s|->"",a|-><<<<"value",<<"ref","ImageContent">>>>>>],
  [f|->"SamplingMessageContent.From<AudioContent>",o|->"SamplingMessageContent",n|->"From",s|->"",a|-><<<<"value",<<"ref","AudioContent">>>>>>],
  [f|->"SamplingMessageContent.From<ToolUseContent>",o|->"SamplingMessageContent",n|->"From",s|->"",a|-><<<<"value",<<"ref","ToolUseContent">>>>>>],
  [f|->"SamplingMessageContent.From<ToolResultContent>",o|->"SamplingMessageContent",n|->"From",s|->"",a|-><<<<"value",<<"ref","ToolResultContent">>>>>>],
  [f|->"SamplingMessageContent.From<Vec<SamplingMessageContentBlock>>",o|->"SamplingMessageContent",n|->"From",s|->"",a|-><<<<"value",<<"vec",<<"ref","SamplingMessageContentBlock">>>>>>>>],
  [f|->"SamplingMessageContentBlock.From<TextContent>",o|->"SamplingMessageContentBlock",n|->"From",s|->"",a|-><<<<"value",<<"ref","TextContent">>>>>>],
  [f|->"SamplingMessageContentBlock.From<ImageContent>",o|->"SamplingMessageContentBlock",n|->"From",s|->"",a|-><<<<"value",<<"ref","ImageContent">>>>>>],
  [f|->"SamplingMessageContentBlock.From<AudioContent>",o|->"SamplingMessageContentBlock",n|->"From",s|->"",a|-><<<<"value",<<"ref","AudioContent">>>>>>],
  [f|->"SamplingMessageContentBlock.From<ToolUseContent>",o|->"SamplingMessageContentBlock",n|->"From",s|->"",a|-><<<<"value",<<"ref","ToolUseContent">>>>>>],
  [f|->"SamplingMessageContentBlock.From<ToolResultContent>",o|->"SamplingMessageContentBlock",n|->"From",s|->"",a|-><<<<"value",<<"ref","ToolResultContent">>>>>>],
  [f|->"ServerNotification.From<CancelledNotification>",o|->"ServerNotification",n|->"From",s|->"",a|-><<<<"value",<<"ref","CancelledNotification">>>>>>],
  [f|->"ServerNotification.From<ProgressNotification>",o|->"ServerNotification",n|->"From",s|->"",a|-><<<<"value",<<"ref","ProgressNotification">>>>>>],
  [f|->"ServerNotification.From<ResourceListChangedNotification>",o|->"ServerNotification",n|->"From",s|->"",a|-><<<<"value",<<"ref","ResourceListChangedNotification">>>>>>],
  [f|->"ServerNotification.From<ResourceUpdatedNotification>",o|->"ServerNotification",n|->"From",s|->"",a|-><<<<"value",<<"ref","ResourceUpdatedNotification">>>>>>],
  [f|->"ServerNotification.From<PromptListChangedNotification>",o|->"ServerNotification",n|->"From",s|->"",a|-><<<<"value",<<"ref","PromptListChangedNotification">>>>>>],
  [f|->"ServerNotification.From<ToolListChangedNotification>",o|->"ServerNotification",n|->"From",s|->"",a|-><<<<"value",<<"ref","ToolListChangedNotification">>>>>>],
  [f|->"ServerNotification.From<TaskStatusNotification>",o|->"ServerNotification",n|->"From",s|->"",a|-><<<<"value",<<"ref","TaskStatusNotification">>>>>>],
  [f|->"ServerNotification.From<LoggingMessageNotification>",o|->"ServerNotification",n|->"From",s|->"",a|-><<<<"value",<<"ref","LoggingMessageNotification">>>>>>],
  [f|->"ServerNotification.From<ElicitationCompleteNotification>",o|->"ServerNotification",n|->"From",s|->"",a|-><<<<"value",<<"ref","ElicitationCompleteNotification">>>>>>],
  [f|->"ServerRequest.From<PingRequest>",o|->"ServerRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","PingRequest">>>>>>],
  [f|->"ServerRequest.From<GetTaskRequest>",o|->"ServerRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","GetTaskRequest">>>>>>],
  [f|->"ServerRequest.From<GetTaskPayloadRequest>",o|->"ServerRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","GetTaskPayloadRequest">>>>>>],
  [f|->"ServerRequest.From<CancelTaskRequest>",o|->"ServerRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","CancelTaskRequest">>>>>>],
  [f|->"ServerRequest.From<ListTasksRequest>",o|->"ServerRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListTasksRequest">>>>>>],
  [f|->"ServerRequest.From<CreateMessageRequest>",o|->"ServerRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","CreateMessageRequest">>>>>>],
  [f|->"ServerRequest.From<ListRootsRequest>",o|->"ServerRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListRootsRequest">>>>>>],
  [f|->"ServerRequest.From<ElicitRequest>",o|->"ServerRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","ElicitRequest">>>>>>],
  [f|->"ServerResult.From<InitializeResult>",o|->"ServerResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","InitializeResult">>>>>>],
  [f|->"ServerResult.From<ListResourcesResult>",o|->"ServerResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListResourcesResult">>>>>>],
  [f|->"ServerResult.From<ListResourceTemplatesResult>",o|->"ServerResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListResourceTemplatesResult">>>>>>],
  [f|->"ServerResult.From<ReadResourceResult>",o|->"ServerResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","ReadResourceResult">>>>>>],
  [f|->"ServerResult.From<ListPromptsResult>",o|->"ServerResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListPromptsResult">>>>>>],
  [f|->"ServerResult.From<GetPromptResult>",o|->"ServerResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","GetPromptResult">>>>>>],
  [f|->"ServerResult.From<ListToolsResult>",o|->"ServerResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListToolsResult">>>>>>],
  [f|->"ServerResult.From<CallToolResult>",o|->"ServerResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","CallToolResult">>>>>>],
  [f|->"ServerResult.From<GetTaskResult>",o|->"ServerResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","GetTaskResult">>>>>>],
  [f|->"ServerResult.From<CancelTaskResult>",o|->"ServerResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","CancelTaskResult">>>>>>],
  [f|->"ServerResult.From<ListTasksResult>",o|->"ServerResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListTasksResult">>>>>>],
  [f|->"ServerResult.From<CompleteResult>",o|->"ServerResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","CompleteResult">>>>>>],
  [f|->"ServerResult.From<Result>",o|->"ServerResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","Result">>>>>>],
  [f|->"ServerResult.From<GetTaskPayloadResult>",o|->"ServerResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","GetTaskPayloadResult">>>>>>],
  [f|->"SetLevelRequest.new",o|->"SetLevelRequest",n|->"new",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"params",<<"ref","SetLevelRequestParams">>>>>>],
  [f|->"SetLevelRequest.jsonrpc",o|->"SetLevelRequest",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"SetLevelRequest.method",o|->"SetLevelRequest",n|->"method",s|->"ref",a|-><<>>],
  [f|->"SetLevelRequest.method_value",o|->"SetLevelRequest",n|->"method_value",s|->"",a|-><<>>],
  [f|->"SetLevelRequest.method_name",o|->"SetLevelRequest",n|->"method_name",s|->"",a|-><<>>],
  [f|->"SingleSelectEnumSchema.From<UntitledSingleSelectEnumSchema>",o|->"SingleSelectEnumSchema",n|->"From",s|->"",a|-><<<<"value",<<"ref","UntitledSingleSelectEnumSchema">>>>>>],
  [f|->"SingleSelectEnumSchema.From<TitledSingleSelectEnumSchema>",o|->"SingleSelectEnumSchema",n|->"From",s|->"",a|-><<<<"value",<<"ref","TitledSingleSelectEnumSchema">>>>>>],
  [f|->"StringSchema.new",o|->"StringSchema",n|->"new",s|->"",a|-><<<<"default",<<"opt",<<"str">>>>>>,<<"description",<<"opt",<<"str">>>>>>,<<"format",<<"opt",<<"ref","StringSchemaFormat">>>>>>,<<"max_length",<<"opt",<<"i64">>>>>>,<<"min_length",<<"opt",<<"i64">>>>>>,<<"title",<<"opt",<<"str">>>>>>>>],
  [f|->"StringSchema.type_",o|->"StringSchema",n|->"type_",s|->"ref",a|-><<>>],
  [f|->"StringSchema.type_value",o|->"StringSchema",n|->"type_value",s|->"",a|-><<>>],
  [f|->"StringSchema.type_name",o|->"StringSchema",n|->"type_name",s|->"",a|-><<>>],
  [f|->"StringSchemaFormat.Display",o|->"StringSchemaFormat",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"SubscribeRequest.new",o|->"SubscribeRequest",n|->"new",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"params",<<"ref","SubscribeRequestParams">>>>>>],
  [f|->"SubscribeRequest.jsonrpc",o|->"SubscribeRequest",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"SubscribeRequest.method",o|->"SubscribeRequest",n|->"method",s|->"ref",a|-><<>>],
  [f|->"SubscribeRequest.method_value",o|->"SubscribeRequest",n|->"method_value",s|->"",a|-><<>>],
  [f|->"SubscribeRequest.method_name",o|->"SubscribeRequest",n|->"method_name",s|->"",a|-><<>>],
  [f|->"TaskStatus.Display",o|->"TaskStatus",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"TaskStatusNotification.new",o|->"TaskStatusNotification",n|->"new",s|->"",a|-><<<<"params",<<"ref","TaskStatusNotificationParams">>>>>>],
  [f|->"TaskStatusNotification.jsonrpc",o|->"TaskStatusNotification",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"TaskStatusNotification.method",o|->"TaskStatusNotification",n|->"method",s|->"ref",a|-><<>>],
  [f|->"TaskStatusNotification.method_value",o|->"TaskStatusNotification",n|->"method_value",s|->"",a|-><<>>],
  [f|->"TaskStatusNotification.method_name",o|->"TaskStatusNotification",n|->"method_name",s|->"",a|-><<>>],
  [f|->"TextContent.new",o|->"TextContent",n|->"new",s|->"",a|-><<<<"text",<<"str">>>>,<<"annotations",<<"opt",<<"ref","Annotations">>>>>>,<<"meta",<<"opt",<<"map">>>>>>>>],
  [f|->"TextContent.type_",o|->"TextContent",n|->"type_",s|->"ref",a|-><<>>],
  [f|->"TextContent.type_value",o|->"TextContent",n|->"type_value",s|->"",a|-><<>>],
  [f|->"TextContent.type_name",o|->"TextContent",n|->"type_name",s|->"",a|-><<>>],
  [f|->"TitledMultiSelectEnumSchema.new",o|->"TitledMultiSelectEnumSchema",n|->"new",s|->"",a|-><<<<"default",<<"vec",<<"str">>>>>>,<<"items",<<"ref","TitledMultiSelectEnumSchemaItems">>>>,<<"description",<<"opt",<<"str">>>>>>,<<"max_items",<<"opt",<<"i64">>>>>>,<<"min_items",<<"opt",<<"i64">>>>>>,<<"title",<<"opt",<<"str">>>>>>>>],
  [f|->"TitledMultiSelectEnumSchema.type_",o|->"TitledMultiSelectEnumSchema",n|->"type_",s|->"ref",a|-><<>>],
  [f|->"TitledMultiSelectEnumSchema.type_value",o|->"TitledMultiSelectEnumSchema",n|->"type_value",s|->"",a|-><<>>],
  [f|->"TitledMultiSelectEnumSchema.type_name",o|->"TitledMultiSelectEnumSchema",n|->"type_name",s|->"",a|-><<>>],
  [f|->"TitledSingleSelectEnumSchema.new",o|->"TitledSingleSelectEnumSchema",n|->"new",s|->"",a|-><<<<"one_of",<<"vec",<<"ref","TitledSingleSelectEnumSchemaOneOfItem">>>>>>,<<"default",<<"opt",<<"str">>>>>>,<<"description",<<"opt",<<"str">>>>>>,<<"title",<<"opt",<<"str">>>>>>>>],
  [f|->"TitledSingleSelectEnumSchema.type_",o|->"TitledSingleSelectEnumSchema",n|->"type_",s|->"ref",a|-><<>>],
  [f|->"TitledSingleSelectEnumSchema.type_value",o|->"TitledSingleSelectEnumSchema",n|->"type_value",s|->"",a|-><<>>],
  [f|->"TitledSingleSelectEnumSchema.type_name",o|->"TitledSingleSelectEnumSchema",n|->"type_name",s|->"",a|-><<>>],
  [f|->"ToolChoiceMode.Display",o|->"ToolChoiceMode",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"ToolExecutionTaskSupport.Display",o|->"ToolExecutionTaskSupport",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"ToolInputSchema.new",o|->"ToolInputSchema",n|->"new",s|->"",a|-><<<<"required",<<"vec",<<"str">>>>>>,<<"properties",<<"opt",<<"hmap",<<"map">>>>>>>>,<<"schema",<<"opt",<<"str">>>>>>>>],
  [f|->"ToolInputSchema.type_",o|->"ToolInputSchema",n|->"type_",s|->"ref",a|-><<>>],
  [f|->"ToolInputSchema.type_value",o|->"ToolInputSchema",n|->"type_value",s|->"",a|-><<>>],
  [f|->"ToolInputSchema.type_name",o|->"ToolInputSchema",n|->"type_name",s|->"",a|-><<>>],
  [f|->"ToolListChangedNotification.new",o|->"ToolListChangedNotification",n|->"new",s|->"",a|-><<<<"params",<<"opt",<<"ref","NotificationParams">>>>>>>>],
  [f|->"ToolListChangedNotification.jsonrpc",o|->"ToolListChangedNotification",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"ToolListChangedNotification.method",o|->"ToolListChangedNotification",n|->"method",s|->"ref",a|-><<>>],
  [f|->"ToolListChangedNotification.method_value",o|->"ToolListChangedNotification",n|->"method_value",s|->"",a|-><<>>],
  [f|->"ToolListChangedNotification.method_name",o|->"ToolListChangedNotification",n|->"method_name",s|->"",a|-><<>>],
  [f|->"ToolOutputSchema.new",o|->"ToolOutputSchema",n|->"new",s|->"",a|-><<<<"required",<<"vec",<<"str">>>>>>,<<"properties",<<"opt",<<"hmap",<<"map">>>>>>>>,<<"schema",<<"opt",<<"str">>>>>>>>],
  [f|->"ToolOutputSchema.type_",o|->"ToolOutputSchema",n|->"type_",s|->"ref",a|-><<>>],
  [f|->"ToolOutputSchema.type_value",o|->"ToolOutputSchema",n|->"type_value",s|->"",a|-><<>>],
  [f|->"ToolOutputSchema.type_name",o|->"ToolOutputSchema",n|->"type_name",s|->"",a|-><<>>],
  [f|->"ToolResultContent.new",o|->"ToolResultContent",n|->"new",s|->"",a|-><<<<"content",<<"vec",<<"ref","ContentBlock">>>>>>,<<"tool_use_id",<<"str">>>>,<<"is_error",<<"opt",<<"bool">>>>>>,<<"meta",<<"opt",<<"map">>>>>>,<<"structured_content",<<"opt",<<"map">>>>>>>>],
  [f|->"ToolResultContent.type_",o|->"ToolResultContent",n|->"type_",s|->"ref",a|-><<>>],
  [f|->"ToolResultContent.type_value",o|->"ToolResultContent",n|->"type_value",s|->"",a|-><<>>],
  [f|->"ToolResultContent.type_name",o|->"ToolResultContent",n|->"type_name",s|->"",a|-><<>>],
  [f|->"ToolUseContent.new",o|->"ToolUseContent",n|->"new",s|->"",a|-><<<<"id",<<"str">>>>,<<"input",<<"map">>>>,<<"name",<<"str">>>>,<<"meta",<<"opt",<<"map">>>>>>>>],
  [f|->"ToolUseContent.type_",o|->"ToolUseContent",n|->"type_",s|->"ref",a|-><<>>],
  [f|->"ToolUseContent.type_value",o|->"ToolUseContent",n|->"type_value",s|->"",a|-><<>>],
  [f|->"ToolUseContent.type_name",o|->"ToolUseContent",n|->"type_name",s|->"",a|-><<>>],
  [f|->"UnsubscribeRequest.new",o|->"UnsubscribeRequest",n|->"new",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"params",<<"ref","UnsubscribeRequestParams">>>>>>],
  [f|->"UnsubscribeRequest.jsonrpc",o|->"UnsubscribeRequest",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"UnsubscribeRequest.method",o|->"UnsubscribeRequest",n|->"method",s|->"ref",a|-><<>>],
  [f|->"UnsubscribeRequest.method_value",o|->"UnsubscribeRequest",n|->"method_value",s|->"",a|-><<>>],
  [f|->"UnsubscribeRequest.method_name",o|->"UnsubscribeRequest",n|->"method_name",s|->"",a|-><<>>],
  [f|->"UntitledMultiSelectEnumSchema.new",o|->"UntitledMultiSelectEnumSchema",n|->"new",s|->"",a|-><<<<"default",<<"vec",<<"str">>>>>>,<<"items",<<"ref","UntitledMultiSelectEnumSchemaItems">>>>,<<"description",<<"opt",<<"str">>>>>>,<<"max_items",<<"opt",<<"i64">>>>>>,<<"min_items",<<"opt",<<"i64">>>>>>,<<"title",<<"opt",<<"str">>>>>>>>],
  [f|->"UntitledMultiSelectEnumSchema.type_",o|->"UntitledMultiSelectEnumSchema",n|->"type_",s|->"ref",a|-><<>>],
  [f|->"UntitledMultiSelectEnumSchema.type_value",o|->"UntitledMultiSelectEnumSchema",n|->"type_value",s|->"",a|-><<>>],
  [f|->"UntitledMultiSelectEnumSchema.type_name",o|->"UntitledMultiSelectEnumSchema",n|->"type_name",s|->"",a|-><<>>],
  [f|->"UntitledMultiSelectEnumSchemaItems.new",o|->"UntitledMultiSelectEnumSchemaItems",n|->"new",s|->"",a|-><<<<"enum_",<<"vec",<<"str">>>>>>>>],
  [f|->"UntitledMultiSelectEnumSchemaItems.type_",o|->"UntitledMultiSelectEnumSchemaItems",n|->"type_",s|->"ref",a|-><<>>],
  [f|->"UntitledMultiSelectEnumSchemaItems.type_value",o|->"UntitledMultiSelectEnumSchemaItems",n|->"type_value",s|->"",a|-><<>>],
  [f|->"UntitledMultiSelectEnumSchemaItems.type_name",o|->"UntitledMultiSelectEnumSchemaItems",n|->"type_name",s|->"",a|-><<>>],
  [f|->"UntitledSingleSelectEnumSchema.new",o|->"UntitledSingleSelectEnumSchema",n|->"new",s|->"",a|-><<<<"enum_",<<"vec",<<"str">>>>>>,<<"default",<<"opt",<<"str">>>>>>,<<"description",<<"opt",<<"str">>>>>>,<<"title",<<"opt",<<"str">>>>>>>>],
  [f|->"UntitledSingleSelectEnumSchema.type_",o|->"UntitledSingleSelectEnumSchema",n|->"type_",s|->"ref",a|-><<>>],
  [f|->"UntitledSingleSelectEnumSchema.type_value",o|->"UntitledSingleSelectEnumSchema",n|->"type_value",s|->"",a|-><<>>],
  [f|->"UntitledSingleSelectEnumSchema.type_name",o|->"UntitledSingleSelectEnumSchema",n|->"type_name",s|->"",a|-><<>>],
  [f|->"UrlElicitError.new",o|->"UrlElicitError",n|->"new",s|->"",a|-><<<<"data",<<"ref","UrlElicitErrorData">>>>,<<"message",<<"str">>>>>>],
  [f|->"UrlElicitError.code",o|->"UrlElicitError",n|->"code",s|->"ref",a|-><<>>],
  [f|->"UrlElicitError.code_value",o|->"UrlElicitError",n|->"code_value",s|->"",a|-><<>>],
  [f|->"UrlElicitError.code_name",o|->"UrlElicitError",n|->"code_name",s|->"",a|-><<>>],
  [f|->"UrlElicitationRequiredError.new",o|->"UrlElicitationRequiredError",n|->"new",s|->"",a|-><<<<"error",<<"ref","UrlElicitError">>>>,<<"id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"UrlElicitationRequiredError.jsonrpc",o|->"UrlElicitationRequiredError",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"ClientRequest.method",o|->"ClientRequest",n|->"method",s|->"ref",a|-><<>>],
  [f|->"ClientNotification.method",o|->"ClientNotification",n|->"method",s|->"ref",a|-><<>>],
  [f|->"ServerRequest.method",o|->"ServerRequest",n|->"method",s|->"ref",a|-><<>>],
  [f|->"ServerNotification.method",o|->"ServerNotification",n|->"method",s|->"ref",a|-><<>>],
  [f|->"GenericResult.From<InitializeResult>",o|->"GenericResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","InitializeResult">>>>>>],
  [f|->"GenericResult.From<ListResourcesResult>",o|->"GenericResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListResourcesResult">>>>>>],
  [f|->"GenericResult.From<ListResourceTemplatesResult>",o|->"GenericResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListResourceTemplatesResult">>>>>>],
  [f|->"GenericResult.From<ReadResourceResult>",o|->"GenericResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","ReadResourceResult">>>>>>],
  [f|->"GenericResult.From<ListPromptsResult>",o|->"GenericResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListPromptsResult">>>>>>],
  [f|->"GenericResult.From<GetPromptResult>",o|->"GenericResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","GetPromptResult">>>>>>],
  [f|->"GenericResult.From<ListToolsResult>",o|->"GenericResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListToolsResult">>>>>>],
  [f|->"GenericResult.From<CallToolResult>",o|->"GenericResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","CallToolResult">>>>>>],
  [f|->"GenericResult.From<GetTaskResult>",o|->"GenericResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","GetTaskResult">>>>>>],
  [f|->"GenericResult.From<GetTaskPayloadResult>",o|->"GenericResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","GetTaskPayloadResult">>>>>>],
  [f|->"GenericResult.From<CancelTaskResult>",o|->"GenericResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","CancelTaskResult">>>>>>],
  [f|->"GenericResult.From<ListTasksResult>",o|->"GenericResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListTasksResult">>>>>>],
  [f|->"GenericResult.From<CompleteResult>",o|->"GenericResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","CompleteResult">>>>>>],
  [f|->"MessageTypes.Display",o|->"MessageTypes",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"RequestId.Display",o|->"RequestId",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"ClientMessage.as_response",o|->"ClientMessage",n|->"as_response",s|->"self",a|-><<>>],
  [f|->"ClientMessage.as_request",o|->"ClientMessage",n|->"as_request",s|->"self",a|-><<>>],
  [f|->"ClientMessage.as_notification",o|->"ClientMessage",n|->"as_notification",s|->"self",a|-><<>>],
  [f|->"ClientMessage.as_error",o|->"ClientMessage",n|->"as_error",s|->"self",a|-><<>>],
  [f|->"ClientMessage.is_initialize_request",o|->"ClientMessage",n|->"is_initialize_request",s|->"ref",a|-><<>>],
  [f|->"ClientMessage.is_initialized_notification",o|->"ClientMessage",n|->"is_initialized_notification",s|->"ref",a|-><<>>],
  [f|->"ClientMessage.From<ClientJsonrpcNotification>",o|->"ClientMessage",n|->"From",s|->"",a|-><<<<"value",<<"ref","ClientJsonrpcNotification">>>>>>],
  [f|->"ClientMessage.From<ClientJsonrpcRequest>",o|->"ClientMessage",n|->"From",s|->"",a|-><<<<"value",<<"ref","ClientJsonrpcRequest">>>>>>],
  [f|->"ClientMessage.From<ClientJsonrpcResponse>",o|->"ClientMessage",n|->"From",s|->"",a|-><<<<"value",<<"ref","ClientJsonrpcResponse">>>>>>],
  [f|->"ClientMessage.request_id",o|->"ClientMessage",n|->"request_id",s|->"ref",a|-><<>>],
  [f|->"ClientMessage.jsonrpc",o|->"ClientMessage",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"ClientMessage.method",o|->"ClientMessage",n|->"method",s|->"ref",a|-><<>>],
  [f|->"ClientMessage.is_response",o|->"ClientMessage",n|->"is_response",s|->"ref",a|-><<>>],
  [f|->"ClientMessage.is_request",o|->"ClientMessage",n|->"is_request",s|->"ref",a|-><<>>],
  [f|->"ClientMessage.is_notification",o|->"ClientMessage",n|->"is_notification",s|->"ref",a|-><<>>],
  [f|->"ClientMessage.is_error",o|->"ClientMessage",n|->"is_error",s|->"ref",a|-><<>>],
  [f|->"ClientMessage.message_type",o|->"ClientMessage",n|->"message_type",s|->"ref",a|-><<>>],
  [f|->"ClientJsonrpcRequest.new",o|->"ClientJsonrpcRequest",n|->"new",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"request",<<"ref","RequestFromClient">>>>>>],
  [f|->"ClientJsonrpcRequest.jsonrpc",o|->"ClientJsonrpcRequest",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"ClientJsonrpcRequest.request_id",o|->"ClientJsonrpcRequest",n|->"request_id",s|->"ref",a|-><<>>],
  [f|->"ClientJsonrpcRequest.is_task_augmented",o|->"ClientJsonrpcRequest",n|->"is_task_augmented",s|->"ref",a|-><<>>],
  [f|->"ClientJsonrpcRequest.method",o|->"ClientJsonrpcRequest",n|->"method",s|->"ref",a|-><<>>],
  [f|->"RequestFromClient.From<ClientJsonrpcRequest>",o|->"RequestFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","ClientJsonrpcRequest">>>>>>],
  [f|->"ClientJsonrpcRequest.Display",o|->"ClientJsonrpcRequest",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"ClientJsonrpcRequest.FromStr",o|->"ClientJsonrpcRequest",n|->"FromStr",s|->"",a|-><<<<"s",<<"str">>>>>>],
  [f|->"RequestFromClient.method",o|->"RequestFromClient",n|->"method",s|->"ref",a|-><<>>],
  [f|->"RequestFromClient.is_initialize_request",o|->"RequestFromClient",n|->"is_initialize_request",s|->"ref",a|-><<>>],
  [f|->"ClientJsonrpcNotification.new",o|->"ClientJsonrpcNotification",n|->"new",s|->"",a|-><<<<"notification",<<"ref","NotificationFromClient">>>>>>],
  [f|->"ClientJsonrpcNotification.jsonrpc",o|->"ClientJsonrpcNotification",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"ClientJsonrpcNotification.is_initialized_notification",o|->"ClientJsonrpcNotification",n|->"is_initialized_notification",s|->"ref",a|-><<>>],
  [f|->"ClientJsonrpcNotification.method",o|->"ClientJsonrpcNotification",n|->"method",s|->"ref",a|-><<>>],
  [f|->"NotificationFromClient.From<ClientJsonrpcNotification>",o|->"NotificationFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","ClientJsonrpcNotification">>>>>>],
  [f|->"ClientJsonrpcNotification.Display",o|->"ClientJsonrpcNotification",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"ClientJsonrpcNotification.FromStr",o|->"ClientJsonrpcNotification",n|->"FromStr",s|->"",a|-><<<<"s",<<"str">>>>>>],
  [f|->"NotificationFromClient.is_initialized_notification",o|->"NotificationFromClient",n|->"is_initialized_notification",s|->"ref",a|-><<>>],
  [f|->"NotificationFromClient.method",o|->"NotificationFromClient",n|->"method",s|->"ref",a|-><<>>],
  [f|->"ClientJsonrpcResponse.new",o|->"ClientJsonrpcResponse",n|->"new",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"result",<<"ref","ResultFromClient">>>>>>],
  [f|->"ClientJsonrpcResponse.jsonrpc",o|->"ClientJsonrpcResponse",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"ClientJsonrpcResponse.Display",o|->"ClientJsonrpcResponse",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"ClientJsonrpcResponse.FromStr",o|->"ClientJsonrpcResponse",n|->"FromStr",s|->"",a|-><<<<"s",<<"str">>>>>>],
  [f|->"ClientTaskResult.TryFrom<ResultFromClient>",o|->"ClientTaskResult",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","ResultFromClient">>>>>>],
  [f|->"ResultFromClient.From<ClientTaskResult>",o|->"ResultFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","ClientTaskResult">>>>>>],
  [f|->"ClientMessage.FromStr",o|->"ClientMessage",n|->"FromStr",s|->"",a|-><<<<"s",<<"str">>>>>>],
  [f|->"ClientMessage.Display",o|->"ClientMessage",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"ServerMessage.as_response",o|->"ServerMessage",n|->"as_response",s|->"self",a|-><<>>],
  [f|->"ServerMessage.as_request",o|->"ServerMessage",n|->"as_request",s|->"self",a|-><<>>],
  [f|->"ServerMessage.as_notification",o|->"ServerMessage",n|->"as_notification",s|->"self",a|-><<>>],
  [f|->"ServerMessage.as_error",o|->"ServerMessage",n|->"as_error",s|->"self",a|-><<>>],
  [f|->"ServerMessage.From<ServerJsonrpcNotification>",o|->"ServerMessage",n|->"From",s|->"",a|-><<<<"value",<<"ref","ServerJsonrpcNotification">>>>>>],
  [f|->"ServerMessage.From<ServerJsonrpcRequest>",o|->"ServerMessage",n|->"From",s|->"",a|-><<<<"value",<<"ref","ServerJsonrpcRequest">>>>>>],
  [f|->"ServerMessage.From<ServerJsonrpcResponse>",o|->"ServerMessage",n|->"From",s|->"",a|-><<<<"value",<<"ref","ServerJsonrpcResponse">>>>>>],
  [f|->"ServerMessage.request_id",o|->"ServerMessage",n|->"request_id",s|->"ref",a|-><<>>],
  [f|->"ServerMessage.jsonrpc",o|->"ServerMessage",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"ServerMessage.method",o|->"ServerMessage",n|->"method",s|->"ref",a|-><<>>],
  [f|->"ServerMessage.is_response",o|->"ServerMessage",n|->"is_response",s|->"ref",a|-><<>>],
  [f|->"ServerMessage.is_request",o|->"ServerMessage",n|->"is_request",s|->"ref",a|-><<>>],
  [f|->"ServerMessage.is_notification",o|->"ServerMessage",n|->"is_notification",s|->"ref",a|-><<>>],
  [f|->"ServerMessage.is_error",o|->"ServerMessage",n|->"is_error",s|->"ref",a|-><<>>],
  [f|->"ServerMessage.message_type",o|->"ServerMessage",n|->"message_type",s|->"ref",a|-><<>>],
  [f|->"ServerMessage.FromStr",o|->"ServerMessage",n|->"FromStr",s|->"",a|-><<<<"s",<<"str">>>>>>],
  [f|->"ServerMessage.Display",o|->"ServerMessage",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"ServerJsonrpcRequest.new",o|->"ServerJsonrpcRequest",n|->"new",s|->"",a|-><<<<"request_id",<<"ref","RequestId">>>>,<<"request",<<"ref","RequestFromServer">>>>>>],
  [f|->"ServerJsonrpcRequest.request_id",o|->"ServerJsonrpcRequest",n|->"request_id",s|->"ref",a|-><<>>],
  [f|->"ServerJsonrpcRequest.jsonrpc",o|->"ServerJsonrpcRequest",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"ServerJsonrpcRequest.is_task_augmented",o|->"ServerJsonrpcRequest",n|->"is_task_augmented",s|->"ref",a|-><<>>],
  [f|->"ServerJsonrpcRequest.method",o|->"ServerJsonrpcRequest",n|->"method",s|->"ref",a|-><<>>],
  [f|->"ServerJsonrpcRequest.Display",o|->"ServerJsonrpcRequest",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"ServerJsonrpcRequest.FromStr",o|->"ServerJsonrpcRequest",n|->"FromStr",s|->"",a|-><<<<"s",<<"str">>>>>>],
  [f|->"RequestFromServer.From<ServerJsonrpcRequest>",o|->"RequestFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","ServerJsonrpcRequest">>>>>>],
  [f|->"RequestFromServer.method",o|->"RequestFromServer",n|->"method",s|->"ref",a|-><<>>],
  [f|->"NotificationFromServer.From<ServerJsonrpcNotification>",o|->"NotificationFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","ServerJsonrpcNotification">>>>>>],
  [f|->"ServerJsonrpcNotification.new",o|->"ServerJsonrpcNotification",n|->"new",s|->"",a|-><<<<"notification",<<"ref","NotificationFromServer">>>>>>],
  [f|->"ServerJsonrpcNotification.jsonrpc",o|->"ServerJsonrpcNotification",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"ServerJsonrpcNotification.Display",o|->"ServerJsonrpcNotification",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"ServerJsonrpcNotification.FromStr",o|->"ServerJsonrpcNotification",n|->"FromStr",s|->"",a|-><<<<"s",<<"str">>>>>>],
  [f|->"NotificationFromServer.method",o|->"NotificationFromServer",n|->"method",s|->"ref",a|-><<>>],
  [f|->"ServerJsonrpcResponse.new",o|->"ServerJsonrpcResponse",n|->"new",s|->"",a|-><<<<"id",<<"ref","RequestId">>>>,<<"result",<<"ref","ResultFromServer">>>>>>],
  [f|->"ServerJsonrpcResponse.jsonrpc",o|->"ServerJsonrpcResponse",n|->"jsonrpc",s|->"ref",a|-><<>>],
  [f|->"ServerJsonrpcResponse.Display",o|->"ServerJsonrpcResponse",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"ServerJsonrpcResponse.FromStr",o|->"ServerJsonrpcResponse",n|->"FromStr",s|->"",a|-><<<<"s",<<"str">>>>>>],
  [f|->"JsonrpcErrorResponse.Display",o|->"JsonrpcErrorResponse",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"JsonrpcErrorResponse.FromStr",o|->"JsonrpcErrorResponse",n|->"FromStr",s|->"",a|-><<<<"s",<<"str">>>>>>],
  [f|->"MessageFromServer.From<RequestFromServer>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","RequestFromServer">>>>>>],
  [f|->"MessageFromServer.From<ResultFromServer>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","ResultFromServer">>>>>>],
  [f|->"MessageFromServer.From<NotificationFromServer>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","NotificationFromServer">>>>>>],
  [f|->"MessageFromServer.From<RpcError>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","RpcError">>>>>>],
  [f|->"MessageFromServer.is_response",o|->"MessageFromServer",n|->"is_response",s|->"ref",a|-><<>>],
  [f|->"MessageFromServer.is_request",o|->"MessageFromServer",n|->"is_request",s|->"ref",a|-><<>>],
  [f|->"MessageFromServer.is_notification",o|->"MessageFromServer",n|->"is_notification",s|->"ref",a|-><<>>],
  [f|->"MessageFromServer.is_error",o|->"MessageFromServer",n|->"is_error",s|->"ref",a|-><<>>],
  [f|->"MessageFromServer.message_type",o|->"MessageFromServer",n|->"message_type",s|->"ref",a|-><<>>],
  [f|->"ServerMessage.FromMessage<MessageFromServer>",o|->"ServerMessage",n|->"FromMessage",s|->"",a|-><<<<"message",<<"ref","MessageFromServer">>>>,<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"MessageFromClient.is_initialize_request",o|->"MessageFromClient",n|->"is_initialize_request",s|->"ref",a|-><<>>],
  [f|->"MessageFromClient.is_initialized_notification",o|->"MessageFromClient",n|->"is_initialized_notification",s|->"ref",a|-><<>>],
  [f|->"MessageFromClient.From<RequestFromClient>",o|->"MessageFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","RequestFromClient">>>>>>],
  [f|->"MessageFromClient.From<ResultFromClient>",o|->"MessageFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","ResultFromClient">>>>>>],
  [f|->"MessageFromClient.From<NotificationFromClient>",o|->"MessageFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","NotificationFromClient">>>>>>],
  [f|->"MessageFromClient.From<RpcError>",o|->"MessageFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","RpcError">>>>>>],
  [f|->"MessageFromClient.is_response",o|->"MessageFromClient",n|->"is_response",s|->"ref",a|-><<>>],
  [f|->"MessageFromClient.is_request",o|->"MessageFromClient",n|->"is_request",s|->"ref",a|-><<>>],
  [f|->"MessageFromClient.is_notification",o|->"MessageFromClient",n|->"is_notification",s|->"ref",a|-><<>>],
  [f|->"MessageFromClient.is_error",o|->"MessageFromClient",n|->"is_error",s|->"ref",a|-><<>>],
  [f|->"MessageFromClient.message_type",o|->"MessageFromClient",n|->"message_type",s|->"ref",a|-><<>>],
  [f|->"ClientMessage.FromMessage<MessageFromClient>",o|->"ClientMessage",n|->"FromMessage",s|->"",a|-><<<<"message",<<"ref","MessageFromClient">>>>,<<"request_id",<<"opt",<<"ref","RequestId">>>>>>>>],
  [f|->"UnknownTool.Display",o|->"UnknownTool",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"CallToolError.unknown_tool",o|->"CallToolError",n|->"unknown_tool",s|->"",a|-><<<<"tool_name",<<"str">>>>>>],
  [f|->"CallToolError.unsupported_task_augmented_tool_call",o|->"CallToolError",n|->"unsupported_task_augmented_tool_call",s|->"",a|-><<>>],
  [f|->"CallToolError.invalid_arguments",o|->"CallToolError",n|->"invalid_arguments",s|->"",a|-><<<<"tool_name",<<"str">>>>,<<"message",<<"opt",<<"str">>>>>>>>],
  [f|->"CallToolError.from_message",o|->"CallToolError",n|->"from_message",s|->"",a|-><<<<"message",<<"str">>>>>>],
  [f|->"RpcError.From<CallToolError>",o|->"RpcError",n|->"From",s|->"",a|-><<<<"value",<<"ref","CallToolError">>>>>>],
  [f|->"CallToolResult.From<CallToolError>",o|->"CallToolResult",n|->"From",s|->"",a|-><<<<"value",<<"ref","CallToolError">>>>>>],
  [f|->"CallToolError.Display",o|->"CallToolError",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"CallToolRequest.tool_name",o|->"CallToolRequest",n|->"tool_name",s|->"ref",a|-><<>>],
  [f|->"TextContent.From<T>",o|->"TextContent",n|->"From",s|->"",a|-><<<<"value",<<"str">>>>>>],
  [f|->"TextResourceContents.new",o|->"TextResourceContents",n|->"new",s|->"",a|-><<<<"text",<<"str">>>>,<<"uri",<<"str">>>>>>],
  [f|->"TextResourceContents.with_meta",o|->"TextResourceContents",n|->"with_meta",s|->"self",a|-><<<<"meta",<<"map">>>>>>],
  [f|->"TextResourceContents.with_mime_type",o|->"TextResourceContents",n|->"with_mime_type",s|->"self",a|-><<<<"mime_type",<<"str">>>>>>],
  [f|->"TextResourceContents.with_uri",o|->"TextResourceContents",n|->"with_uri",s|->"self",a|-><<<<"uri",<<"str">>>>>>],
  [f|->"BlobResourceContents.new",o|->"BlobResourceContents",n|->"new",s|->"",a|-><<<<"base64_text",<<"str">>>>,<<"uri",<<"str">>>>>>],
  [f|->"BlobResourceContents.with_meta",o|->"BlobResourceContents",n|->"with_meta",s|->"self",a|-><<<<"meta",<<"map">>>>>>],
  [f|->"BlobResourceContents.with_mime_type",o|->"BlobResourceContents",n|->"with_mime_type",s|->"self",a|-><<<<"mime_type",<<"str">>>>>>],
  [f|->"BlobResourceContents.with_uri",o|->"BlobResourceContents",n|->"with_uri",s|->"self",a|-><<<<"uri",<<"str">>>>>>],
  [f|->"ClientMessages.is_batch",o|->"ClientMessages",n|->"is_batch",s|->"ref",a|-><<>>],
  [f|->"ClientMessages.includes_request",o|->"ClientMessages",n|->"includes_request",s|->"ref",a|-><<>>],
  [f|->"ClientMessages.as_single",o|->"ClientMessages",n|->"as_single",s|->"self",a|-><<>>],
  [f|->"ClientMessages.as_batch",o|->"ClientMessages",n|->"as_batch",s|->"self",a|-><<>>],
  [f|->"ClientMessages.From<ClientMessage>",o|->"ClientMessages",n|->"From",s|->"",a|-><<<<"value",<<"ref","ClientMessage">>>>>>],
  [f|->"ClientMessages.From<Vec<ClientMessage>>",o|->"ClientMessages",n|->"From",s|->"",a|-><<<<"value",<<"vec",<<"ref","ClientMessage">>>>>>>>],
  [f|->"ClientMessages.Display",o|->"ClientMessages",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"ServerMessages.is_batch",o|->"ServerMessages",n|->"is_batch",s|->"ref",a|-><<>>],
  [f|->"ServerMessages.includes_request",o|->"ServerMessages",n|->"includes_request",s|->"ref",a|-><<>>],
  [f|->"ServerMessages.as_single",o|->"ServerMessages",n|->"as_single",s|->"self",a|-><<>>],
  [f|->"ServerMessages.as_batch",o|->"ServerMessages",n|->"as_batch",s|->"self",a|-><<>>],
  [f|->"ServerMessages.From<ServerMessage>",o|->"ServerMessages",n|->"From",s|->"",a|-><<<<"value",<<"ref","ServerMessage">>>>>>],
  [f|->"ServerMessages.From<Vec<ServerMessage>>",o|->"ServerMessages",n|->"From",s|->"",a|-><<<<"value",<<"vec",<<"ref","ServerMessage">>>>>>>>],
  [f|->"ServerMessages.Display",o|->"ServerMessages",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"MessagesFromServer.is_batch",o|->"MessagesFromServer",n|->"is_batch",s|->"ref",a|-><<>>],
  [f|->"MessagesFromServer.includes_request",o|->"MessagesFromServer",n|->"includes_request",s|->"ref",a|-><<>>],
  [f|->"MessagesFromServer.as_single",o|->"MessagesFromServer",n|->"as_single",s|->"self",a|-><<>>],
  [f|->"MessagesFromServer.as_batch",o|->"MessagesFromServer",n|->"as_batch",s|->"self",a|-><<>>],
  [f|->"MessagesFromServer.From<MessageFromServer>",o|->"MessagesFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","MessageFromServer">>>>>>],
  [f|->"MessagesFromServer.From<Vec<MessageFromServer>>",o|->"MessagesFromServer",n|->"From",s|->"",a|-><<<<"value",<<"vec",<<"ref","MessageFromServer">>>>>>>>],
  [f|->"MessagesFromClient.is_batch",o|->"MessagesFromClient",n|->"is_batch",s|->"ref",a|-><<>>],
  [f|->"MessagesFromClient.includes_request",o|->"MessagesFromClient",n|->"includes_request",s|->"ref",a|-><<>>],
  [f|->"MessagesFromClient.as_single",o|->"MessagesFromClient",n|->"as_single",s|->"self",a|-><<>>],
  [f|->"MessagesFromClient.as_batch",o|->"MessagesFromClient",n|->"as_batch",s|->"self",a|-><<>>],
  [f|->"MessagesFromClient.From<MessageFromClient>",o|->"MessagesFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","MessageFromClient">>>>>>],
  [f|->"MessagesFromClient.From<Vec<MessageFromClient>>",o|->"MessagesFromClient",n|->"From",s|->"",a|-><<<<"value",<<"vec",<<"ref","MessageFromClient">>>>>>>>],
  [f|->"StringSchemaFormat.FromStr",o|->"StringSchemaFormat",n|->"FromStr",s|->"",a|-><<<<"s",<<"str">>>>>>],
  [f|->"PrimitiveSchemaDefinition.TryFrom<&Map<String,Value>>",o|->"PrimitiveSchemaDefinition",n|->"TryFrom",s|->"",a|-><<<<"value",<<"map">>>>>>],
  [f|->"RequestFromServer.is_task_augmented",o|->"RequestFromServer",n|->"is_task_augmented",s|->"ref",a|-><<>>],
  [f|->"MessageFromServer.is_task_augmented",o|->"MessageFromServer",n|->"is_task_augmented",s|->"ref",a|-><<>>],
  [f|->"CallToolRequest.is_task_augmented",o|->"CallToolRequest",n|->"is_task_augmented",s|->"ref",a|-><<>>],
  [f|->"CallToolRequestParams.is_task_augmented",o|->"CallToolRequestParams",n|->"is_task_augmented",s|->"ref",a|-><<>>],
  [f|->"CreateMessageRequestParams.is_task_augmented",o|->"CreateMessageRequestParams",n|->"is_task_augmented",s|->"ref",a|-><<>>],
  [f|->"ElicitRequestParams.is_task_augmented",o|->"ElicitRequestParams",n|->"is_task_augmented",s|->"ref",a|-><<>>],
  [f|->"ElicitRequestParams.message",o|->"ElicitRequestParams",n|->"message",s|->"ref",a|-><<>>],
  [f|->"ElicitRequestParams.with_task",o|->"ElicitRequestParams",n|->"with_task",s|->"self",a|-><<<<"task",<<"ref","TaskMetadata">>>>>>],
  [f|->"ElicitRequestUrlParams.with_task",o|->"ElicitRequestUrlParams",n|->"with_task",s|->"self",a|-><<<<"task",<<"ref","TaskMetadata">>>>>>],
  [f|->"ElicitRequestFormParams.with_task",o|->"ElicitRequestFormParams",n|->"with_task",s|->"self",a|-><<<<"task",<<"ref","TaskMetadata">>>>>>],
  [f|->"ServerCapabilities.can_list_tasks",o|->"ServerCapabilities",n|->"can_list_tasks",s|->"ref",a|-><<>>],
  [f|->"ServerCapabilities.can_cancel_tasks",o|->"ServerCapabilities",n|->"can_cancel_tasks",s|->"ref",a|-><<>>],
  [f|->"ServerCapabilities.can_run_task_augmented_tools",o|->"ServerCapabilities",n|->"can_run_task_augmented_tools",s|->"ref",a|-><<>>],
  [f|->"ServerCapabilities.can_handle_request",o|->"ServerCapabilities",n|->"can_handle_request",s|->"ref",a|-><<<<"client_request",<<"ref","ClientJsonrpcRequest">>>>>>],
  [f|->"ServerCapabilities.can_accept_notification",o|->"ServerCapabilities",n|->"can_accept_notification",s|->"ref",a|-><<<<"notification_method",<<"str">>>>>>],
  [f|->"ServerTasks.can_list_tasks",o|->"ServerTasks",n|->"can_list_tasks",s|->"ref",a|-><<>>],
  [f|->"ServerTasks.can_cancel_tasks",o|->"ServerTasks",n|->"can_cancel_tasks",s|->"ref",a|-><<>>],
  [f|->"ServerTasks.can_run_task_augmented_tools",o|->"ServerTasks",n|->"can_run_task_augmented_tools",s|->"ref",a|-><<>>],
  [f|->"ClientCapabilities.can_list_tasks",o|->"ClientCapabilities",n|->"can_list_tasks",s|->"ref",a|-><<>>],
  [f|->"ClientCapabilities.can_cancel_tasks",o|->"ClientCapabilities",n|->"can_cancel_tasks",s|->"ref",a|-><<>>],
  [f|->"ClientCapabilities.can_accept_elicitation_task",o|->"ClientCapabilities",n|->"can_accept_elicitation_task",s|->"ref",a|-><<>>],
  [f|->"ClientCapabilities.can_accept_sampling_task",o|->"ClientCapabilities",n|->"can_accept_sampling_task",s|->"ref",a|-><<>>],
  [f|->"ClientCapabilities.can_handle_request",o|->"ClientCapabilities",n|->"can_handle_request",s|->"ref",a|-><<<<"server_jsonrpc_request",<<"ref","ServerJsonrpcRequest">>>>>>],
  [f|->"ClientCapabilities.can_accept_notification",o|->"ClientCapabilities",n|->"can_accept_notification",s|->"ref",a|-><<<<"notification_method",<<"str">>>>>>],
  [f|->"ClientTasks.can_list_tasks",o|->"ClientTasks",n|->"can_list_tasks",s|->"ref",a|-><<>>],
  [f|->"ClientTasks.can_cancel_tasks",o|->"ClientTasks",n|->"can_cancel_tasks",s|->"ref",a|-><<>>],
  [f|->"ClientTasks.can_accept_elicitation_task",o|->"ClientTasks",n|->"can_accept_elicitation_task",s|->"ref",a|-><<>>],
  [f|->"ClientTasks.can_accept_sampling_task",o|->"ClientTasks",n|->"can_accept_sampling_task",s|->"ref",a|-><<>>],
  [f|->"CustomRequest.From<JsonrpcRequest>",o|->"CustomRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","JsonrpcRequest">>>>>>],
  [f|->"CustomNotification.From<JsonrpcNotification>",o|->"CustomNotification",n|->"From",s|->"",a|-><<<<"value",<<"ref","JsonrpcNotification">>>>>>],
  [f|->"TaskStatus.is_terminal",o|->"TaskStatus",n|->"is_terminal",s|->"ref",a|-><<>>],
  [f|->"Task.is_terminal",o|->"Task",n|->"is_terminal",s|->"ref",a|-><<>>],
  [f|->"GetTaskResult.is_terminal",o|->"GetTaskResult",n|->"is_terminal",s|->"ref",a|-><<>>],
  [f|->"GetTaskPayloadResult.related_task_id",o|->"GetTaskPayloadResult",n|->"related_task_id",s|->"ref",a|-><<>>],
  [f|->"GetTaskPayloadResult.set_related_task_id",o|->"GetTaskPayloadResult",n|->"set_related_task_id",s|->"ref",a|-><<<<"task_id",<<"str">>>>>>],
  [f|->"Map.related_task_id",o|->"Map",n|->"related_task_id",s|->"ref",a|-><<>>],
  [f|->"Map.set_related_task_id",o|->"Map",n|->"set_related_task_id",s|->"ref",a|-><<<<"task_id",<<"str">>>>>>],
  [f|->"Map.with_related_task_id",o|->"Map",n|->"with_related_task_id",s|->"self",a|-><<<<"task_id",<<"str">>>>>>],
  [f|->"Map.add",o|->"Map",n|->"add",s|->"self",a|-><<<<"key",<<"str">>>>,<<"value",<<"val">>>>>>],
  [f|->"Map.add_if",o|->"Map",n|->"add_if",s|->"self",a|-><<<<"condition",<<"bool">>>>,<<"key",<<"str">>>>,<<"value",<<"val">>>>>>],
  [f|->"Map.add_raw",o|->"Map",n|->"add_raw",s|->"self",a|-><<<<"key",<<"str">>>>,<<"value",<<"val">>>>>>],
  [f|->"Role.FromStr",o|->"Role",n|->"FromStr",s|->"",a|-><<<<"s",<<"str">>>>>>],
  [f|->"ResultFromClient.From<Result>",o|->"ResultFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","Result">>>>>>],
  [f|->"ResultFromClient.From<GetTaskResult>",o|->"ResultFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","GetTaskResult">>>>>>],
  [f|->"ResultFromClient.From<GetTaskPayloadResult>",o|->"ResultFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","GetTaskPayloadResult">>>>>>],
  [f|->"ResultFromClient.From<CancelTaskResult>",o|->"ResultFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","CancelTaskResult">>>>>>],
  [f|->"ResultFromClient.From<ListTasksResult>",o|->"ResultFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListTasksResult">>>>>>],
  [f|->"ResultFromClient.From<CreateMessageResult>",o|->"ResultFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","CreateMessageResult">>>>>>],
  [f|->"ResultFromClient.From<ListRootsResult>",o|->"ResultFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListRootsResult">>>>>>],
  [f|->"ResultFromClient.From<ElicitResult>",o|->"ResultFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","ElicitResult">>>>>>],
  [f|->"ResultFromClient.From<CreateTaskResult>",o|->"ResultFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","CreateTaskResult">>>>>>],
  [f|->"MessageFromClient.From<Result>",o|->"MessageFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","Result">>>>>>],
  [f|->"MessageFromClient.From<GetTaskResult>",o|->"MessageFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","GetTaskResult">>>>>>],
  [f|->"MessageFromClient.From<GetTaskPayloadResult>",o|->"MessageFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","GetTaskPayloadResult">>>>>>],
  [f|->"MessageFromClient.From<CancelTaskResult>",o|->"MessageFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","CancelTaskResult">>>>>>],
  [f|->"MessageFromClient.From<ListTasksResult>",o|->"MessageFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListTasksResult">>>>>>],
  [f|->"MessageFromClient.From<CreateMessageResult>",o|->"MessageFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","CreateMessageResult">>>>>>],
  [f|->"MessageFromClient.From<ListRootsResult>",o|->"MessageFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListRootsResult">>>>>>],
  [f|->"MessageFromClient.From<ElicitResult>",o|->"MessageFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","ElicitResult">>>>>>],
  [f|->"MessageFromClient.From<CreateTaskResult>",o|->"MessageFromClient",n|->"From",s|->"",a|-><<<<"value",<<"ref","CreateTaskResult">>>>>>],
  [f|->"ServerJsonrpcRequest.From<PingRequest>",o|->"ServerJsonrpcRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","PingRequest">>>>>>],
  [f|->"ServerJsonrpcRequest.From<GetTaskRequest>",o|->"ServerJsonrpcRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","GetTaskRequest">>>>>>],
  [f|->"ServerJsonrpcRequest.From<GetTaskPayloadRequest>",o|->"ServerJsonrpcRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","GetTaskPayloadRequest">>>>>>],
  [f|->"ServerJsonrpcRequest.From<CancelTaskRequest>",o|->"ServerJsonrpcRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","CancelTaskRequest">>>>>>],
  [f|->"ServerJsonrpcRequest.From<ListTasksRequest>",o|->"ServerJsonrpcRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListTasksRequest">>>>>>],
  [f|->"ServerJsonrpcRequest.From<CreateMessageRequest>",o|->"ServerJsonrpcRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","CreateMessageRequest">>>>>>],
  [f|->"ServerJsonrpcRequest.From<ListRootsRequest>",o|->"ServerJsonrpcRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListRootsRequest">>>>>>],
  [f|->"ServerJsonrpcRequest.From<ElicitRequest>",o|->"ServerJsonrpcRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","ElicitRequest">>>>>>],
  [f|->"ClientJsonrpcRequest.From<InitializeRequest>",o|->"ClientJsonrpcRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","InitializeRequest">>>>>>],
  [f|->"ClientJsonrpcRequest.From<PingRequest>",o|->"ClientJsonrpcRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","PingRequest">>>>>>],
  [f|->"ClientJsonrpcRequest.From<ListResourcesRequest>",o|->"ClientJsonrpcRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListResourcesRequest">>>>>>],
  [f|->"ClientJsonrpcRequest.From<ListResourceTemplatesRequest>",o|->"ClientJsonrpcRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListResourceTemplatesRequest">>>>>>],
  [f|->"ClientJsonrpcRequest.From<ReadResourceRequest>",o|->"ClientJsonrpcRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","ReadResourceRequest">>>>>>],
  [f|->"ClientJsonrpcRequest.From<SubscribeRequest>",o|->"ClientJsonrpcRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","SubscribeRequest">>>>>>],
  [f|->"ClientJsonrpcRequest.From<UnsubscribeRequest>",o|->"ClientJsonrpcRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","UnsubscribeRequest">>>>>>],
  [f|->"ClientJsonrpcRequest.From<ListPromptsRequest>",o|->"ClientJsonrpcRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListPromptsRequest">>>>>>],
  [f|->"ClientJsonrpcRequest.From<GetPromptRequest>",o|->"ClientJsonrpcRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","GetPromptRequest">>>>>>],
  [f|->"ClientJsonrpcRequest.From<ListToolsRequest>",o|->"ClientJsonrpcRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListToolsRequest">>>>>>],
  [f|->"ClientJsonrpcRequest.From<CallToolRequest>",o|->"ClientJsonrpcRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","CallToolRequest">>>>>>],
  [f|->"ClientJsonrpcRequest.From<GetTaskRequest>",o|->"ClientJsonrpcRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","GetTaskRequest">>>>>>],
  [f|->"ClientJsonrpcRequest.From<GetTaskPayloadRequest>",o|->"ClientJsonrpcRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","GetTaskPayloadRequest">>>>>>],
  [f|->"ClientJsonrpcRequest.From<CancelTaskRequest>",o|->"ClientJsonrpcRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","CancelTaskRequest">>>>>>],
  [f|->"ClientJsonrpcRequest.From<ListTasksRequest>",o|->"ClientJsonrpcRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListTasksRequest">>>>>>],
  [f|->"ClientJsonrpcRequest.From<SetLevelRequest>",o|->"ClientJsonrpcRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","SetLevelRequest">>>>>>],
  [f|->"ClientJsonrpcRequest.From<CompleteRequest>",o|->"ClientJsonrpcRequest",n|->"From",s|->"",a|-><<<<"value",<<"ref","CompleteRequest">>>>>>],
  [f|->"i64.From<SdkErrorCodes>",o|->"i64",n|->"From",s|->"",a|-><<<<"value",<<"ref","SdkErrorCodes">>>>>>],
  [f|->"SdkError.Display",o|->"SdkError",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"SdkError.new",o|->"SdkError",n|->"new",s|->"",a|-><<<<"error_code",<<"ref","SdkErrorCodes">>>>,<<"message",<<"str">>>>,<<"data",<<"opt",<<"val">>>>>>>>],
  [f|->"SdkError.connection_closed",o|->"SdkError",n|->"connection_closed",s|->"",a|-><<>>],
  [f|->"SdkError.request_timeout",o|->"SdkError",n|->"request_timeout",s|->"",a|-><<<<"timeout",<<"ref","u128">>>>>>],
  [f|->"SdkError.session_not_found",o|->"SdkError",n|->"session_not_found",s|->"",a|-><<>>],
  [f|->"SdkError.invalid_request",o|->"SdkError",n|->"invalid_request",s|->"",a|-><<>>],
  [f|->"SdkError.method_not_found",o|->"SdkError",n|->"method_not_found",s|->"",a|-><<>>],
  [f|->"SdkError.invalid_params",o|->"SdkError",n|->"invalid_params",s|->"",a|-><<>>],
  [f|->"SdkError.internal_error",o|->"SdkError",n|->"internal_error",s|->"",a|-><<>>],
  [f|->"SdkError.parse_error",o|->"SdkError",n|->"parse_error",s|->"",a|-><<>>],
  [f|->"SdkError.url_elicit_required",o|->"SdkError",n|->"url_elicit_required",s|->"",a|-><<<<"elicit_url_params",<<"vec",<<"ref","ElicitRequestUrlParams">>>>>>>>],
  [f|->"SdkError.resource_not_found",o|->"SdkError",n|->"resource_not_found",s|->"",a|-><<>>],
  [f|->"SdkError.bad_request",o|->"SdkError",n|->"bad_request",s|->"",a|-><<>>],
  [f|->"SdkError.with_message",o|->"SdkError",n|->"with_message",s|->"self",a|-><<<<"message",<<"str">>>>>>],
  [f|->"SdkError.with_data",o|->"SdkError",n|->"with_data",s|->"self",a|-><<<<"data",<<"opt",<<"val">>>>>>>>],
  [f|->"i64.From<RpcErrorCodes>",o|->"i64",n|->"From",s|->"",a|-><<<<"value",<<"ref","RpcErrorCodes">>>>>>],
  [f|->"RpcError.new",o|->"RpcError",n|->"new",s|->"",a|-><<<<"error_code",<<"ref","RpcErrorCodes">>>>,<<"message",<<"str">>>>,<<"data",<<"opt",<<"val">>>>>>>>],
  [f|->"RpcError.method_not_found",o|->"RpcError",n|->"method_not_found",s|->"",a|-><<>>],
  [f|->"RpcError.url_elicit_required",o|->"RpcError",n|->"url_elicit_required",s|->"",a|-><<<<"elicit_url_params",<<"vec",<<"ref","ElicitRequestUrlParams">>>>>>>>],
  [f|->"RpcError.invalid_params",o|->"RpcError",n|->"invalid_params",s|->"",a|-><<>>],
  [f|->"RpcError.invalid_request",o|->"RpcError",n|->"invalid_request",s|->"",a|-><<>>],
  [f|->"RpcError.internal_error",o|->"RpcError",n|->"internal_error",s|->"",a|-><<>>],
  [f|->"RpcError.parse_error",o|->"RpcError",n|->"parse_error",s|->"",a|-><<>>],
  [f|->"RpcError.with_message",o|->"RpcError",n|->"with_message",s|->"self",a|-><<<<"message",<<"str">>>>>>],
  [f|->"RpcError.with_data",o|->"RpcError",n|->"with_data",s|->"self",a|-><<<<"data",<<"opt",<<"val">>>>>>>>],
  [f|->"RpcError.Display",o|->"RpcError",n|->"Display",s|->"ref",a|-><<>>],
  [f|->"RpcError.FromStr",o|->"RpcError",n|->"FromStr",s|->"",a|-><<<<"s",<<"str">>>>>>],
  [f|->"JsonrpcErrorResponse.create",o|->"JsonrpcErrorResponse",n|->"create",s|->"",a|-><<<<"id",<<"opt",<<"ref","RequestId">>>>>>,<<"error_code",<<"ref","RpcErrorCodes">>>>,<<"error_message",<<"str">>>>,<<"error_data",<<"opt",<<"val">>>>>>>>],
  [f|->"ResultFromServer.From<Result>",o|->"ResultFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","Result">>>>>>],
  [f|->"ResultFromServer.From<InitializeResult>",o|->"ResultFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","InitializeResult">>>>>>],
  [f|->"ResultFromServer.From<ListResourcesResult>",o|->"ResultFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListResourcesResult">>>>>>],
  [f|->"ResultFromServer.From<ListResourceTemplatesResult>",o|->"ResultFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListResourceTemplatesResult">>>>>>],
  [f|->"ResultFromServer.From<ReadResourceResult>",o|->"ResultFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","ReadResourceResult">>>>>>],
  [f|->"ResultFromServer.From<ListPromptsResult>",o|->"ResultFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListPromptsResult">>>>>>],
  [f|->"ResultFromServer.From<GetPromptResult>",o|->"ResultFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","GetPromptResult">>>>>>],
  [f|->"ResultFromServer.From<ListToolsResult>",o|->"ResultFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListToolsResult">>>>>>],
  [f|->"ResultFromServer.From<CallToolResult>",o|->"ResultFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","CallToolResult">>>>>>],
  [f|->"ResultFromServer.From<GetTaskResult>",o|->"ResultFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","GetTaskResult">>>>>>],
  [f|->"ResultFromServer.From<GetTaskPayloadResult>",o|->"ResultFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","GetTaskPayloadResult">>>>>>],
  [f|->"ResultFromServer.From<CancelTaskResult>",o|->"ResultFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","CancelTaskResult">>>>>>],
  [f|->"ResultFromServer.From<ListTasksResult>",o|->"ResultFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListTasksResult">>>>>>],
  [f|->"ResultFromServer.From<CompleteResult>",o|->"ResultFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","CompleteResult">>>>>>],
  [f|->"ResultFromServer.From<CreateTaskResult>",o|->"ResultFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","CreateTaskResult">>>>>>],
  [f|->"MessageFromServer.From<Result>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","Result">>>>>>],
  [f|->"MessageFromServer.From<InitializeResult>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","InitializeResult">>>>>>],
  [f|->"MessageFromServer.From<ListResourcesResult>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListResourcesResult">>>>>>],
  [f|->"MessageFromServer.From<ListResourceTemplatesResult>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListResourceTemplatesResult">>>>>>],
  [f|->"MessageFromServer.From<ReadResourceResult>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","ReadResourceResult">>>>>>],
  [f|->"MessageFromServer.From<ListPromptsResult>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListPromptsResult">>>>>>],
  [f|->"MessageFromServer.From<GetPromptResult>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","GetPromptResult">>>>>>],
  [f|->"MessageFromServer.From<ListToolsResult>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListToolsResult">>>>>>],
  [f|->"MessageFromServer.From<CallToolResult>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","CallToolResult">>>>>>],
  [f|->"MessageFromServer.From<GetTaskResult>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","GetTaskResult">>>>>>],
  [f|->"MessageFromServer.From<GetTaskPayloadResult>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","GetTaskPayloadResult">>>>>>],
  [f|->"MessageFromServer.From<CancelTaskResult>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","CancelTaskResult">>>>>>],
  [f|->"MessageFromServer.From<ListTasksResult>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","ListTasksResult">>>>>>],
  [f|->"MessageFromServer.From<CompleteResult>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","CompleteResult">>>>>>],
  [f|->"MessageFromServer.From<CreateTaskResult>",o|->"MessageFromServer",n|->"From",s|->"",a|-><<<<"value",<<"ref","CreateTaskResult">>>>>>],
  [f|->"GenericResult.TryFrom<ResultFromClient>",o|->"GenericResult",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","ResultFromClient">>>>>>],
  [f|->"GetTaskResult.TryFrom<ResultFromClient>",o|->"GetTaskResult",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","ResultFromClient">>>>>>],
  [f|->"GetTaskPayloadResult.TryFrom<ResultFromClient>",o|->"GetTaskPayloadResult",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","ResultFromClient">>>>>>],
  [f|->"CancelTaskResult.TryFrom<ResultFromClient>",o|->"CancelTaskResult",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","ResultFromClient">>>>>>],
  [f|->"ListTasksResult.TryFrom<ResultFromClient>",o|->"ListTasksResult",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","ResultFromClient">>>>>>],
  [f|->"CreateMessageResult.TryFrom<ResultFromClient>",o|->"CreateMessageResult",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","ResultFromClient">>>>>>],
  [f|->"ListRootsResult.TryFrom<ResultFromClient>",o|->"ListRootsResult",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","ResultFromClient">>>>>>],
  [f|->"ElicitResult.TryFrom<ResultFromClient>",o|->"ElicitResult",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","ResultFromClient">>>>>>],
  [f|->"CreateTaskResult.TryFrom<ResultFromClient>",o|->"CreateTaskResult",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","ResultFromClient">>>>>>],
  [f|->"GenericResult.TryFrom<ResultFromServer>",o|->"GenericResult",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","ResultFromServer">>>>>>],
  [f|->"InitializeResult.TryFrom<ResultFromServer>",o|->"InitializeResult",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","ResultFromServer">>>>>>],
  [f|->"ListResourcesResult.TryFrom<ResultFromServer>",o|->"ListResourcesResult",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","ResultFromServer">>>>>>],
  [f|->"ListResourceTemplatesResult.TryFrom<ResultFromServer>",o|->"ListResourceTemplatesResult",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","ResultFromServer">>>>>>],
  [f|->"ReadResourceResult.TryFrom<ResultFromServer>",o|->"ReadResourceResult",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","ResultFromServer">>>>>>],
  [f|->"ListPromptsResult.TryFrom<ResultFromServer>",o|->"ListPromptsResult",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","ResultFromServer">>>>>>],
  [f|->"GetPromptResult.TryFrom<ResultFromServer>",o|->"GetPromptResult",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","ResultFromServer">>>>>>],
  [f|->"ListToolsResult.TryFrom<ResultFromServer>",o|->"ListToolsResult",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","ResultFromServer">>>>>>],
  [f|->"CallToolResult.TryFrom<ResultFromServer>",o|->"CallToolResult",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","ResultFromServer">>>>>>],
  [f|->"GetTaskResult.TryFrom<ResultFromServer>",o|->"GetTaskResult",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","ResultFromServer">>>>>>],
  [f|->"GetTaskPayloadResult.TryFrom<ResultFromServer>",o|->"GetTaskPayloadResult",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","ResultFromServer">>>>>>],
  [f|->"CancelTaskResult.TryFrom<ResultFromServer>",o|->"CancelTaskResult",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","ResultFromServer">>>>>>],
  [f|->"ListTasksResult.TryFrom<ResultFromServer>",o|->"ListTasksResult",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","ResultFromServer">>>>>>],
  [f|->"CompleteResult.TryFrom<ResultFromServer>",o|->"CompleteResult",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","ResultFromServer">>>>>>],
  [f|->"CreateTaskResult.TryFrom<ResultFromServer>",o|->"CreateTaskResult",n|->"TryFrom",s|->"",a|-><<<<"value",<<"ref","ResultFromServer">>>>>>],
  [f|->"ContentBlock.text_content",o|->"ContentBlock",n|->"text_content",s|->"",a|-><<<<"text",<<"str">>>>>>],
  [f|->"ContentBlock.image_content",o|->"ContentBlock",n|->"image_content",s|->"",a|-><<<<"data",<<"str">>>>,<<"mime_type",<<"str">>>>>>],
  [f|->"ContentBlock.audio_content",o|->"ContentBlock",n|->"audio_content",s|->"",a|-><<<<"data",<<"str">>>>,<<"mime_type",<<"str">>>>>>],
  [f|->"ContentBlock.resource_link",o|->"ContentBlock",n|->"resource_link",s|->"",a|-><<<<"value",<<"ref","ResourceLink">>>>>>],
  [f|->"ContentBlock.embedded_resource",o|->"ContentBlock",n|->"embedded_resource",s|->"",a|-><<<<"resource",<<"ref","EmbeddedResourceResource">>>>>>],
  [f|->"ContentBlock.content_type",o|->"ContentBlock",n|->"content_type",s|->"ref",a|-><<>>],
  [f|->"ContentBlock.as_text_content",o|->"ContentBlock",n|->"as_text_content",s|->"ref",a|-><<>>],
  [f|->"ContentBlock.as_image_content",o|->"ContentBlock",n|->"as_image_content",s|->"ref",a|-><<>>],
  [f|->"ContentBlock.as_audio_content",o|->"ContentBlock",n|->"as_audio_content",s|->"ref",a|-><<>>],
  [f|->"ContentBlock.as_resource_link",o|->"ContentBlock",n|->"as_resource_link",s|->"ref",a|-><<>>],
  [f|->"ContentBlock.as_embedded_resource",o|->"ContentBlock",n|->"as_embedded_resource",s|->"ref",a|-><<>>],
  [f|->"CallToolResult.text_content",o|->"CallToolResult",n|->"text_content",s|->"",a|-><<<<"content",<<"vec",<<"ref","TextContent">>>>>>>>],
  [f|->"CallToolResult.image_content",o|->"CallToolResult",n|->"image_content",s|->"",a|-><<<<"content",<<"vec",<<"ref","ImageContent">>>>>>>>],
  [f|->"CallToolResult.audio_content",o|->"CallToolResult",n|->"audio_content",s|->"",a|-><<<<"content",<<"vec",<<"ref","AudioContent">>>>>>>>],
  [f|->"CallToolResult.resource_link",o|->"CallToolResult",n|->"resource_link",s|->"",a|-><<<<"content",<<"vec",<<"ref","ResourceLink">>>>>>>>],
  [f|->"CallToolResult.embedded_resource",o|->"CallToolResult",n|->"embedded_resource",s|->"",a|-><<<<"content",<<"vec",<<"ref","EmbeddedResource">>>>>>>>],
  [f|->"CallToolResult.with_error",o|->"CallToolResult",n|->"with_error",s|->"",a|-><<<<"error",<<"ref","CallToolError">>>>>>],
  [f|->"CallToolResult.with_meta",o|->"CallToolResult",n|->"with_meta",s|->"self",a|-><<<<"meta",<<"opt",<<"map">>>>>>>>],
  [f|->"CallToolResult.with_structured_content",o|->"CallToolResult",n|->"with_structured_content",s|->"self",a|-><<<<"structured_content",<<"map">>>>>>],
  [f|->"CallToolResult.from_content",o|->"CallToolResult",n|->"from_content",s|->"",a|-><<<<"content",<<"vec",<<"ref","ContentBlock">>>>>>>>],
  [f|->"CallToolResult.add_content",o|->"CallToolResult",n|->"add_content",s|->"self",a|-><<<<"content",<<"ref","ContentBlock">>>>>>],
  [f|->"ServerRequest.request_id",o|->"ServerRequest",n|->"request_id",s|->"ref",a|-><<>>],
  [f|->"ClientRequest.request_id",o|->"ClientRequest",n|->"request_id",s|->"ref",a|-><<>>],
  [f|->"IconTheme.From<&str>",o|->"IconTheme",n|->"From",s|->"",a|-><<<<"value",<<"str">>>>>>],
  [f|->"ElicitResultContent.From<&str>",o|->"ElicitResultContent",n|->"From",s|->"",a|-><<<<"value",<<"str">>>>>>],
  [f|->"ElicitResultContentPrimitive.From<&str>",o|->"ElicitResultContentPrimitive",n|->"From",s|->"",a|-><<<<"value",<<"str">>>>>>],
  [f|->"ElicitResultContentPrimitive.From<String>",o|->"ElicitResultContentPrimitive",n|->"From",s|->"",a|-><<<<"value",<<"str">>>>>>],
  [f|->"ElicitResultContent.From<String>",o|->"ElicitResultContent",n|->"From",s|->"",a|-><<<<"value",<<"str">>>>>>],
  [f|->"ElicitResultContent.From<Vec<&str>>",o|->"ElicitResultContent",n|->"From",s|->"",a|-><<<<"value",<<"vec",<<"str">>>>>>>>],
  [f|->"ElicitResultContent.From<i64>",o|->"ElicitResultContent",n|->"From",s|->"",a|-><<<<"value",<<"i64">>>>>>],
  [f|->"CallToolRequestParams.new",o|->"CallToolRequestParams",n|->"new",s|->"",a|-><<<<"tool_name",<<"str">>>>>>],
  [f|->"CallToolRequestParams.with_arguments",o|->"CallToolRequestParams",n|->"with_arguments",s|->"self",a|-><<<<"arguments",<<"map">>>>>>],
  [f|->"CallToolRequestParams.with_meta",o|->"CallToolRequestParams",n|->"with_meta",s|->"self",a|-><<<<"meta",<<"ref","CallToolMeta">>>>>>],
  [f|->"CallToolRequestParams.with_task",o|->"CallToolRequestParams",n|->"with_task",s|->"self",a|-><<<<"task",<<"ref","TaskMetadata">>>>>>],
  [f|->"Annotations.default",o|->"Annotations",n|->"default",s|->"",a|-><<>>],
  [f|->"CallToolMeta.default",o|->"CallToolMeta",n|->"default",s|->"",a|-><<>>],
  [f|->"CancelledNotificationParams.default",o|->"CancelledNotificationParams",n|->"default",s|->"",a|-><<>>],
  [f|->"ClientCapabilities.default",o|->"ClientCapabilities",n|->"default",s|->"",a|-><<>>],
  [f|->"ClientElicitation.default",o|->"ClientElicitation",n|->"default",s|->"",a|-><<>>],
  [f|->"ClientRoots.default",o|->"ClientRoots",n|->"default",s|->"",a|-><<>>],
  [f|->"ClientSampling.default",o|->"ClientSampling",n|->"default",s|->"",a|-><<>>],
  [f|->"ClientTaskElicitation.default",o|->"ClientTaskElicitation",n|->"default",s|->"",a|-><<>>],
  [f|->"ClientTaskRequest.default",o|->"ClientTaskRequest",n|->"default",s|->"",a|-><<>>],
  [f|->"ClientTaskSampling.default",o|->"ClientTaskSampling",n|->"default",s|->"",a|-><<>>],
  [f|->"ClientTasks.default",o|->"ClientTasks",n|->"default",s|->"",a|-><<>>],
  [f|->"CompleteRequestContext.default",o|->"CompleteRequestContext",n|->"default",s|->"",a|-><<>>],
  [f|->"CompleteRequestMeta.default",o|->"CompleteRequestMeta",n|->"default",s|->"",a|-><<>>],
  [f|->"ElicitFormMeta.default",o|->"ElicitFormMeta",n|->"default",s|->"",a|-><<>>],
  [f|->"ElicitUrlMeta.default",o|->"ElicitUrlMeta",n|->"default",s|->"",a|-><<>>],
  [f|->"GetPromptMeta.default",o|->"GetPromptMeta",n|->"default",s|->"",a|-><<>>],
  [f|->"GetTaskPayloadResult.default",o|->"GetTaskPayloadResult",n|->"default",s|->"",a|-><<>>],
  [f|->"Icons.default",o|->"Icons",n|->"default",s|->"",a|-><<>>],
  [f|->"InitializeMeta.default",o|->"InitializeMeta",n|->"default",s|->"",a|-><<>>],
  [f|->"MessageMeta.default",o|->"MessageMeta",n|->"default",s|->"",a|-><<>>],
  [f|->"ModelHint.default",o|->"ModelHint",n|->"default",s|->"",a|-><<>>],
  [f|->"ModelPreferences.default",o|->"ModelPreferences",n|->"default",s|->"",a|-><<>>],
  [f|->"NotificationParams.default",o|->"NotificationParams",n|->"default",s|->"",a|-><<>>],
  [f|->"PaginatedMeta.default",o|->"PaginatedMeta",n|->"default",s|->"",a|-><<>>],
  [f|->"PaginatedRequestParams.default",o|->"PaginatedRequestParams",n|->"default",s|->"",a|-><<>>],
  [f|->"PaginatedResult.default",o|->"PaginatedResult",n|->"default",s|->"",a|-><<>>],
  [f|->"ReadResourceMeta.default",o|->"ReadResourceMeta",n|->"default",s|->"",a|-><<>>],
  [f|->"RequestParams.default",o|->"RequestParams",n|->"default",s|->"",a|-><<>>],
  [f|->"RequestParamsMeta.default",o|->"RequestParamsMeta",n|->"default",s|->"",a|-><<>>],
  [f|->"ResourceMeta.default",o|->"ResourceMeta",n|->"default",s|->"",a|-><<>>],
  [f|->"Result.default",o|->"Result",n|->"default",s|->"",a|-><<>>],
  [f|->"ServerCapabilities.default",o|->"ServerCapabilities",n|->"default",s|->"",a|-><<>>],
  [f|->"ServerCapabilitiesPrompts.default",o|->"ServerCapabilitiesPrompts",n|->"default",s|->"",a|-><<>>],
  [f|->"ServerCapabilitiesResources.default",o|->"ServerCapabilitiesResources",n|->"default",s|->"",a|-><<>>],
  [f|->"ServerCapabilitiesTools.default",o|->"ServerCapabilitiesTools",n|->"default",s|->"",a|-><<>>],
  [f|->"ServerTaskRequest.default",o|->"ServerTaskRequest",n|->"default",s|->"",a|-><<>>],
  [f|->"ServerTaskTools.default",o|->"ServerTaskTools",n|->"default",s|->"",a|-><<>>],
  [f|->"ServerTasks.default",o|->"ServerTasks",n|->"default",s|->"",a|-><<>>],
  [f|->"SetLevelMeta.default",o|->"SetLevelMeta",n|->"default",s|->"",a|-><<>>],
  [f|->"SubscribeMeta.default",o|->"SubscribeMeta",n|->"default",s|->"",a|-><<>>],
  [f|->"TaskAugmentedMeta.default",o|->"TaskAugmentedMeta",n|->"default",s|->"",a|-><<>>],
  [f|->"TaskAugmentedRequestParams.default",o|->"TaskAugmentedRequestParams",n|->"default",s|->"",a|-><<>>],
  [f|->"TaskMetadata.default",o|->"TaskMetadata",n|->"default",s|->"",a|-><<>>],
  [f|->"ToolAnnotations.default",o|->"ToolAnnotations",n|->"default",s|->"",a|-><<>>],
  [f|->"ToolChoice.default",o|->"ToolChoice",n|->"default",s|->"",a|-><<>>],
  [f|->"ToolExecution.default",o|->"ToolExecution",n|->"default",s|->"",a|-><<>>],
  [f|->"UnsubscribeMeta.default",o|->"UnsubscribeMeta",n|->"default",s|->"",a|-><<>>],
  [f|->"RequestId.eq",o|->"RequestId",n|->"eq",s|->"ref",a|-><<<<"other",<<"ref","RequestId">>>>>>],
  [f|->"RequestId.find",o|->"RequestId",n|->"find",s|->"",a|-><<<<"ids",<<"vec",<<"ref","RequestId">>>>>>,<<"id",<<"ref","RequestId">>>>>>]>>
=============================================================================
