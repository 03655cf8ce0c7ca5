--------------------------------- MODULE Call ---------------------------------
(* The meaning of every public function: Call(f, s, a) for the entries f of Api!Fns, and the   *)
(* properties each function belongs to.                                                        *)
EXTENDS Elicit

P(f, a) == [p \in {f.a[i][1] : i \in DOMAIN f.a} |-> a[CHOOSE i \in DOMAIN f.a : f.a[i][1] = p]]
Trait(f, nm) == f.n = nm
RecT(f) == Ref(f.o)
(* The encoding of values that hold a custom message of the old versions is K1's matter.        *)
RK(t, v) == IF K1Of(v) THEN Val(v) ELSE R(t, v)
OkRK(t, v) == IF K1Of(v) THEN Val(<<"ok", v>>) ELSE OkR(t, v)
OptK(t, v) == IF K1Of(v) THEN Val(v) ELSE OptR(t, v)

(* The part of a text: the harness knows the text, the model only its name, so that a text can  *)
(* be put into another one without knowing its letters.                                         *)
Txt(s) == s[2]

(* ------------------------------------------------------------ construction ------------- *)
FieldNames(o) == RustFields(Types[o].f)
ErrNew(f, p) == ErrV(CodeTab[p.error_code[2]], p.message, p.data)
WrapOpt(o, r, v) ==      \* a value for field r, which may be optional
  LET t == FieldOf(Types[o].f, r).t IN
  IF t[1] \in {"opt", "nopt"} /\ v[1] \notin {"N", "J"} THEN Some(v) ELSE v
Rename(f, p) ==
  CASE f.o = "BlobResourceContents" -> [blob |-> p.base64_text, uri |-> p.uri]
    [] f.o = "CallToolRequestParams" /\ "tool_name" \in DOMAIN p ->
         (IF "meta" \in DOMAIN p THEN [name |-> p.tool_name, meta |-> p.meta] ELSE [name |-> p.tool_name])
    [] OTHER -> p
IdOf(p) == IF "id" \in DOMAIN p THEN p.id ELSE p.request_id
NewCall(f, a) ==
  LET p == P(f, a) o == f.o t == RecT(f) IN
  CASE o \in {"SdkError", "RpcError"} -> R(t, ErrNew(f, p))
    [] o = "InputResponses" -> R(t, <<"M", Empty>>)
    [] o \in {"ClientJsonrpcRequest", "ServerJsonrpcRequest"} -> RK(t, WireReq(SideOf(o), IdOf(p), p.request))
    [] o \in {"ClientJsonrpcNotification", "ServerJsonrpcNotification"} -> RK(t, WireNot(SideOf(o), p.notification))
    [] o \in {"ClientJsonrpcResponse", "ServerJsonrpcResponse"} -> R(t, WireRes(p.id, p.result))
    [] OTHER -> LET q == Rename(f, p) IN
                R(t, StructN(o, [r \in DOMAIN q |-> WrapOpt(o, r, q[r])]))

(* ------------------------------------------------------------ fixed members ------------ *)
(* jsonrpc, method, type, mode, code of a value.                                               *)
RECURSIVE JsonrpcOf(_, _)
ConstBase == ("type_" :> "type_") @@ ("type_value" :> "type_") @@ ("type_name" :> "type_")
   @@ ("mode" :> "mode") @@ ("mode_value" :> "mode") @@ ("mode_name" :> "mode")
   @@ ("method" :> "method") @@ ("method_value" :> "method") @@ ("method_name" :> "method")
   @@ ("code" :> "code") @@ ("code_value" :> "code") @@ ("code_name" :> "code")
   @@ ("jsonrpc" :> "jsonrpc") @@ ("jsonrpc_value" :> "jsonrpc") @@ ("jsonrpc_name" :> "jsonrpc")
IsConstAcc(f) == /\ f.n \in DOMAIN ConstBase /\ f.a = << >> /\ HasField(f.o, ConstBase[f.n])
                 /\ ConstT(FieldOf(Types[f.o].f, ConstBase[f.n]).t)
ConstAcc(f, s) == LET r == ConstBase[f.n] t == FieldOf(Types[f.o].f, r).t
                   b == IF t[1] \in {"opt", "nopt"} THEN t[2] ELSE t
                   v == ConstV(b)
               IN IF t = b \/ f.s = "" THEN [v |-> v, o |-> <<v>>]
                  ELSE IF s[2][r] = None THEN [v |-> None, o |-> <<Z>>]
                  ELSE [v |-> Some(v), o |-> <<v>>]
JsonrpcOf(n, v) == S("2.0")

(* The method of a message, a payload or a wire structure; None when it has none.               *)
RECURSIVE MethodIn(_, _)
MethodIn(n, v) ==
  LET T == Types[n] IN
  CASE n \in {"RequestFromClient", "RequestFromServer", "NotificationFromClient", "NotificationFromServer"} -> Some(MethodOf(v))
    [] n \in {"ClientMessage", "ServerMessage"} ->
         IF v[2] \in {"Request", "Notification"} THEN MethodIn(SideOf(n) \o "Jsonrpc" \o v[2], v[3]) ELSE None
    [] T.k \in {"envreq", "envnot"} -> Some(v[2].method)
    [] T.k = "struct" -> Some(v[2].method)
    [] OTHER -> Some(WireMethod(v))
RECURSIVE IdIn(_, _)
IdIn(n, v) ==
  LET T == Types[n] IN
  CASE n \in {"ClientMessage", "ServerMessage"} ->
         (CASE v[2] = "Request" -> IdIn(SideOf(n) \o "JsonrpcRequest", v[3])
            [] v[2] = "Notification" -> None
            [] v[2] = "Response" -> Some(v[3][2].id)
            [] OTHER -> IF Old THEN Some(v[3][2].id) ELSE v[3][2].id)
    [] T.k \in {"envreq", "envres"} -> Some(v[2].id)
    [] T.k = "struct" -> Some(v[2].id)
    [] OTHER -> Some(WireId(v))

(* ------------------------------------------------------------ conversions -------------- *)
GenericOf(t, v) ==
  LET d == Enc(t, v) fs == Types["Result"].f
      hasMeta == Has(d, "_meta") /\ Get(d, "_meta") # Z
      drop == {"_meta"} \cup (IF "result_type" \in RustFields(fs) THEN {"resultType"} ELSE {})
      rest == OnlyKeys(d[2], DOMAIN d[2] \ drop)
      base == [meta |-> IF hasMeta THEN Dec(FieldOf(fs, "meta").t, Get(d, "_meta"))[2] ELSE None,
               extra |-> IF DOMAIN rest = {} THEN None ELSE Some(J(O(rest)))]
  IN St(IF "result_type" \in RustFields(fs)
        THEN ("result_type" :> (IF Has(d, "resultType") THEN Get(d, "resultType") ELSE S("complete"))) @@ base
        ELSE base)
TextBlock(text) == StructN("TextContent", [text |-> text])
BlockT == IF "ContentBlock" \in DOMAIN Types THEN "ContentBlock" ELSE "CallToolResultContentItem"
ToolResult(blocks, isErr) ==
  LET r == StructN("CallToolResult", [content |-> <<"V", blocks>>, is_error |-> isErr]) IN
  IF HasField("CallToolResult", "result_type") THEN [r EXCEPT ![2].result_type = S("complete")] ELSE r
PayErr(sd, n, v) == IF n = "custom" THEN v ELSE v
ToPayload(w, u) ==      \* wire request / notification w as a payload of union u
  LET p == PayloadOf(w) IN
  IF p.n = "custom" THEN E1(CHOOSE x \in AltNames(u) : x \in CustomName, p.v)
  ELSE E1(p.n, p.v)
FromVecName(o) == "Batch"

FromCall(f, a) ==
  LET x == f.a[1][2] v == a[1] o == f.o t == RecT(f)
      p == IF x[1] = "ref" \/ o \in DOMAIN Types THEN Path(x, o, 5) ELSE << >>
  IN
  CASE o = "GenericResult" -> R(Ref("Result"), GenericOf(x, v))
    [] o = "i64" -> [v |-> I(CodeTab[v[2]]), o |-> <<I(CodeTab[v[2]])>>]
    [] x = Ref("CallToolError") /\ o = "CallToolResult" -> R(t, ToolResult(<<E1("TextContent", TextBlock(v))>>, Some(B(TRUE))))
    [] x = Ref("CallToolError") -> R(t, ErrV("-32603", v, None))
    [] o = "TextContent" -> R(t, TextBlock(v))
    [] o = "IconTheme" -> R(t, <<"U", IF v = S("dark") THEN "Dark" ELSE "Light">>)
    [] o = "RpcError" -> LET e == v[2].error[2] IN
         R(t, ErrV(e.code[3], e.message, IF "data" \in DOMAIN e THEN Some(J(Enc(FieldOf(Types[FieldOf(Types[x[2]].f, "error").t[2]].f, "data").t, e.data))) ELSE None))
    [] o \in {"CustomRequest", "CustomNotification"} ->
         R(Ref("CustomRequest"), St([method |-> v[2].method, params |-> v[2].params]))
    [] o \in DOMAIN Types /\ Types[o].k = "envnot" ->
         LET pp == Path(x, "NotificationFrom" \o SideOf(o), 4) IN RK(t, WireNot(SideOf(o), LiftBy(pp, v)))
    [] o \in {"RequestFromClient", "RequestFromServer", "NotificationFromClient", "NotificationFromServer"}
         /\ x[1] = "ref" /\ x[2] \in {"ClientJsonrpcRequest", "ServerJsonrpcRequest", "ClientJsonrpcNotification", "ServerJsonrpcNotification"} ->
         R(t, ToPayload(v, o))
    [] o = "ResultFromClient" /\ x = Ref("ClientTaskResult") -> R(t, v)
    [] p # << >> -> RK(t, LiftBy(p, IF x = <<"val">> THEN v ELSE v))
    [] OTHER -> Unspecified

NotA(o) == Internal(S("Not a " \o o))
TryFromCall(f, a) ==
  LET x == f.a[1][2] v == a[1] o == f.o t == RecT(f) IN
  CASE o = "GenericResult" -> LET u == x[2] IN
         IF Old THEN Unspecified
         ELSE LET p == Path(Ref("Result"), u, 4) r == NarrowBy(p, v) IN
              CASE IsOk(r) -> OkR(Ref("Result"), r[2])
                [] v[2] = "GetTaskPayloadResult" ->     \* its free-form document is a generic result
                     OkR(Ref("Result"), GenericOf(Ref(v[2]), v[3]))
                [] OTHER -> ErrR(NotA("Result"))
    [] o = "ClientTaskResult" -> IF v[2] \in {"ElicitResult", "CreateMessageResult"} THEN OkR(t, v)
                                 ELSE ErrR(Internal(S("Not a ClientTaskResult variant")))
    [] o = PSD -> LET r == ElicitOf(v[2]) IN
         IF IsOk(r) THEN OkR(t, r[2]) ELSE Val(<<"err", ErrV("-32700", AnyV, AnyV)>>)
    [] OTHER -> LET p == Path(t, x[2], 5) r == NarrowBy(p, v) IN
                IF p = << >> THEN Unspecified
                ELSE IF IsOk(r) THEN OkRK(t, r[2])
                ELSE IF Old /\ v[2] \in CustomName /\ Len(p) > 1 THEN ErrR(NotA(p[1]))   \* reported by the outer step
                ELSE ErrR(NotA(o))

(* as_x of a content block                                                                      *)
BlockOf == ("as_text_content" :> "TextContent") @@ ("as_image_content" :> "ImageContent")
  @@ ("as_audio_content" :> "AudioContent") @@ ("as_resource_link" :> "ResourceLink")
  @@ ("as_embedded_resource" :> "EmbeddedResource")
ContentAs(f, v) ==
  LET w == BlockOf[f.n] IN
  IF v[2] = w THEN OkR(Ref(w), v[3])
  ELSE ErrR(Internal(CatT(<<"Invalid conversion, \"", Txt(v[3][2].type_), "\" is not a ", w>>)))

(* ------------------------------------------------------------ messages ----------------- *)
MsgU == {"ClientMessage", "ServerMessage", "MessageFromClient", "MessageFromServer"}
MsgsU == {"ClientMessages", "ServerMessages", "MessagesFromClient", "MessagesFromServer"}
PayU(sd) == "MessageFrom" \o sd
AsKind == ("as_request" :> "Request") @@ ("as_notification" :> "Notification")
          @@ ("as_response" :> "Response") @@ ("as_error" :> "Error")
IsKind == ("is_request" :> "Request") @@ ("is_notification" :> "Notification")
          @@ ("is_response" :> "Response") @@ ("is_error" :> "Error")
SingleOf(o) == SubSeq(o, 1, Len(o))
OneName == ("ClientMessages" :> "ClientMessage") @@ ("ServerMessages" :> "ServerMessage")
           @@ ("MessagesFromClient" :> "MessageFromClient") @@ ("MessagesFromServer" :> "MessageFromServer")
AsBatch(f, v) ==
  LET one == OneName[f.o] IN
  IF f.n = "as_single" THEN
    (IF v[2] = "Single" THEN OkRK(Ref(one), v[3])
     ELSE SdkErrR(Internal(S("Error: cannot convert " \o f.o \o "::Batch to " \o one \o "::Single"))))
  ELSE IF v[2] = "Batch" THEN OkRK(<<"vec", Ref(one)>>, v[3])
  ELSE SdkErrR(Internal(S("Error: cannot convert " \o one \o "::Single to " \o f.o \o "::Batch")))
AsKindCall(f, v) ==
  LET k == AsKind[f.n] sd == SideOf(f.o)
      ty == IF k = "Error" THEN ErrName ELSE sd \o "Jsonrpc" \o k
  IN IF v[2] = k THEN OkRK(Ref(ty), v[3])
     ELSE ErrR(WrongKind(k, v))
(* initialize and initialized                                                                   *)
IsInit(o, v) ==
  CASE Stateless -> FALSE
    [] o = "ClientMessage" -> v[2] = "Request" /\
         (IF Old THEN v[3][2].request[2] = "ClientRequest" /\ v[3][2].request[3][2] = "InitializeRequest"
          ELSE v[3][2] = "InitializeRequest")
    [] o = "MessageFromClient" -> v[2] = "RequestFromClient" /\
         (IF Old THEN v[3][2] = "ClientRequest" /\ v[3][3][2] = "InitializeRequest" ELSE v[3][2] = "InitializeRequest")
    [] OTHER -> IF Old THEN v[2] = "ClientRequest" /\ v[3][2] = "InitializeRequest" ELSE v[2] = "InitializeRequest"
IsInitd(o, v) ==
  CASE Stateless -> FALSE
    [] o = "ClientMessage" -> v[2] = "Notification" /\
         (IF Old THEN v[3][2].notification[2] = "ClientNotification" /\ v[3][2].notification[3][2] = "InitializedNotification"
          ELSE v[3][2] = "InitializedNotification")
    [] o = "MessageFromClient" -> v[2] = "NotificationFromClient" /\
         (IF Old THEN v[3][2] = "ClientNotification" /\ v[3][3][2] = "InitializedNotification" ELSE v[3][2] = "InitializedNotification")
    [] OTHER -> IF Old THEN v[2] = "ClientNotification" /\ v[3][2] = "InitializedNotification" ELSE v[2] = "InitializedNotification"
ToMsg(f, x, v, oid) ==      \* x the type of the payload, f.f ends with <ClientMessage> or <ServerMessage>
  LET sd == IF f.n = "FromMessage" THEN SideOf(f.o) ELSE SideOf(f.f)
      u == PayU(sd)
      p == IF x = Ref(u) THEN << >> ELSE Path(x, u, 5)
      r == FromMsg(sd, LiftBy(p, v), oid)
  IN IF IsOk(r.v) /\ K1Of(r.v) THEN Val(r.v) ELSE r

(* ------------------------------------------------------------ text --------------------- *)
WireNames == {"ClientJsonrpcRequest", "ClientJsonrpcNotification", "ClientJsonrpcResponse", "ServerJsonrpcRequest",
  "ServerJsonrpcNotification", "ServerJsonrpcResponse", "ClientMessage", "ServerMessage", "ClientMessages",
  "ServerMessages", "JsonrpcError", "JsonrpcErrorResponse", "RpcError"}
DisplayCall(f, v) ==
  LET o == f.o IN
  CASE o \in WireNames -> IF K1Of(v) THEN Val(AnyV) ELSE Val(<<"js", Enc(RecT(f), v)>>)
    [] o = "MessageTypes" -> StrR(S(v[2]))
    [] o = "RequestId" -> Val(IF v[3][1] = "n" THEN S(v[3][3]) ELSE v[3])
    [] o = "SdkError" -> Val(CatT(<<"MCP error ", v[2].code[3], ": ", Txt(v[2].message)>>))
    [] o = "UnknownTool" -> Val(CatT(<<"Unknown tool: ", Txt(v)>>))
    [] o = "CallToolError" -> Val(v)
    [] o \in DOMAIN Types /\ Types[o].k = "unit" -> Val(Enc(RecT(f), v))
    [] OTHER -> Unspecified
(* A text to parse is a <<"js", document>>, a plain text, or a <<"wrap", before, document, after>>: *)
(* a document between other characters.  Only the spaces of JSON may stand around a document.     *)
(* "other" is the same document spelled otherwise: members in another order, texts escaped.       *)
Blanks == {"", "spaces", "tab", "newline", "return", "other"}
ParseErrD == ErrV("-32700", S("Parse error"), Some(J(AnyV)))
FromStrCall(f, a) ==
  LET o == f.o t == RecT(f) x == a[1] IN
  CASE o = "Role" -> IF x[1] = "s" /\ IsOk(Dec(t, x)) THEN OkR(t, Dec(t, x)[2])
                     ELSE Val(<<"err", ErrV("-32700", CatT(<<"Invalid role '", Txt(x), "'. Expected one of: 'assistant', 'user'">>), None)>>)
    [] o = "StringSchemaFormat" -> IF IsOk(Dec(t, x)) THEN OkR(t, Dec(t, x)[2]) ELSE Val(<<"err", <<"X">>>>)
    [] x[1] = "wrap" /\ ~(x[2] \in Blanks /\ x[4] \in Blanks) -> Val(<<"err", ParseErrD>>)
    [] x[1] = "wrap" -> LET r == Dec(t, x[3]) IN IF IsOk(r) THEN OkRK(t, r[2]) ELSE Val(<<"err", ParseErrD>>)
    [] x[1] = "js" -> LET r == Dec(t, x[2]) IN IF IsOk(r) THEN OkRK(t, r[2]) ELSE Val(<<"err", ParseErrD>>)
    [] OTHER -> Val(<<"err", ParseErrD>>)

(* ------------------------------------------------------------ errors ------------------- *)
Blank == {"", "  ", "\t\n"}
ErrCtor(f, a) ==
  LET p == P(f, a)
      msg == IF f.n = "parse_error" /\ f.o = "SdkError" THEN "Parse Error" ELSE Message[f.n]
      data == CASE f.n = "request_timeout" -> Some(J(O("timeout" :> p.timeout)))
                [] f.n = "url_elicit_required" ->
                     Some(J(O("elicitations" :> Enc(<<"vec", Ref("ElicitRequestUrlParams")>>, p.elicit_url_params))))
                [] OTHER -> None
  IN R(RecT(f), ErrV(CtorCode[f.n], S(msg), data))
ToolErr(text) == Val(<<"X", "CallToolError", text>>)
Trimmed(x) == IF x = " padded " THEN "padded" ELSE IF x \in Blank THEN "" ELSE x
CallToolErrCall(f, a) ==
  LET p == P(f, a) IN
  CASE f.n = "unknown_tool" -> ToolErr(CatT(<<"Unknown tool: ", Txt(p.tool_name)>>))
    [] f.n = "unsupported_task_augmented_tool_call" -> ToolErr(S("Task-augmented tool calls are not supported."))
    [] f.n = "from_message" -> ToolErr(p.message)
    [] f.n = "invalid_arguments" ->
         IF Trimmed(Txt(p.tool_name)) = "" THEN ToolErr(S("Invalid arguments: tool name cannot be empty"))
         ELSE ToolErr(CatT(<<"Invalid arguments for tool '", Trimmed(Txt(p.tool_name)), "': ",
                             IF p.message = None THEN "no additional details provided" ELSE Txt(p.message[2])>>))

(* ------------------------------------------------------------ tool results ------------- *)
BlockCall(f, a) ==      \* X_content(..) of ContentBlock / CallToolResultContentItem / CallToolResult
  LET p == P(f, a)
      nm == CASE f.n = "text_content" -> "TextContent" [] f.n = "image_content" -> "ImageContent"
              [] f.n = "audio_content" -> "AudioContent" [] f.n = "resource_link" -> "ResourceLink"
              [] OTHER -> "EmbeddedResource"
      made == IF f.n = "resource_link" THEN p.value
              ELSE StructN(nm, [r \in DOMAIN p |-> WrapOpt(nm, r, p[r])])
  IN IF "content" \in DOMAIN p
     THEN R(RecT(f), ToolResult([i \in DOMAIN p.content[2] |-> E1(nm, p.content[2][i])], None))
     ELSE IF f.o = "CallToolResult" THEN R(RecT(f), ToolResult(<<E1(nm, made)>>, None))
     ELSE R(RecT(f), E1(nm, made))

(* ------------------------------------------------------------ builders ----------------- *)
SetField(o, v, r, x) == [v EXCEPT ![2] = (r :> WrapOpt(o, r, x)) @@ v[2]]
RelKey == "io.modelcontextprotocol/related-task"
RelTask(id) == O("taskId" :> id)
MapOf(v) == v[2]       \* the object document of <<"j", d>>
RelOf(d) == IF Has(d, RelKey) /\ Has(Get(d, RelKey), "taskId") /\ Get(Get(d, RelKey), "taskId")[1] = "s"
            THEN Some(Get(Get(d, RelKey), "taskId")) ELSE None
TraceKeys == {"traceparent", "tracestate", "baggage"}
ExtraOf(v) == IF v[2].extra = None THEN EO ELSE v[2].extra[2][2]
TraceOf(v, k) == IF Has(ExtraOf(v), k) /\ Get(ExtraOf(v), k)[1] = "s" THEN Some(Get(ExtraOf(v), k)) ELSE None
InputReq == {"CallToolRequest", "GetPromptRequest", "ReadResourceRequest"}
(* The member a builder with_x sets.                                                            *)
FieldOfBuilder == ("with_meta" :> "meta") @@ ("with_mime_type" :> "mime_type") @@ ("with_uri" :> "uri")
  @@ ("with_task" :> "task") @@ ("with_message" :> "message") @@ ("with_data" :> "data")
  @@ ("with_arguments" :> "arguments") @@ ("with_structured_content" :> "structured_content")
  @@ ("with_client_info" :> "client_info") @@ ("with_log_level" :> "log_level")
  @@ ("with_progress_token" :> "progress_token") @@ ("with_input_responses" :> "input_responses")
  @@ ("with_request_state" :> "request_state") @@ ("with_input_requests" :> "input_requests")
TraceOfBuilder == ("with_traceparent" :> "traceparent") @@ ("with_tracestate" :> "tracestate") @@ ("with_baggage" :> "baggage")

(* The new state of s after a builder call.                                                     *)
Build(o, n, s, a) ==
  CASE n \in DOMAIN TraceOfBuilder ->
         [s EXCEPT ![2].extra = Some(J(With(ExtraOf(s), TraceOfBuilder[n], a[1])))]
    [] o = "Map" /\ n = "add" -> J(With(MapOf(s), Txt(a[1]), a[2][2]))
    [] o = "Map" /\ n = "add_raw" -> J(With(MapOf(s), Txt(a[1]), a[2][2]))
    [] o = "Map" /\ n = "add_if" -> IF a[1] = B(TRUE) THEN J(With(MapOf(s), Txt(a[2]), a[3][2])) ELSE s
    [] o = "Map" -> J(With(MapOf(s), RelKey, RelTask(a[1])))
    [] o = "GetTaskPayloadResult" ->
         LET m == IF s[2].meta = None THEN EO ELSE s[2].meta[2][2] IN
         [s EXCEPT ![2].meta = Some(J(With(m, RelKey, RelTask(a[1]))))]
    [] o = "ElicitRequestParams" -> [s EXCEPT ![3][2].task = Some(a[1])]
    [] o = "CallToolResult" /\ n = "add_content" -> [s EXCEPT ![2].content = <<"V", Append(s[2].content[2], a[1])>>]
    [] o = "InputResponses" -> <<"M", (Txt(a[1]) :> a[2]) @@ s[2]>>
    [] o = "RequestFromClient" /\ n = "with_meta" ->
         IF s[2] \in CustomName THEN s ELSE [s EXCEPT ![3][2].meta = a[1]]
    [] OTHER -> SetField(o, s, FieldOfBuilder[n], a[1])

(* Keys of a map in the order of their texts, as far as the model knows it (see SortedKeys).     *)
KeyOrder(m) == DOMAIN m

HelperCall(f, s, a) ==
  LET t == RecT(f) IN
  CASE f.o = "Map" /\ f.n = "related_task_id" -> OptR(<<"str">>, RelOf(MapOf(s)))
    [] f.o = "GetTaskPayloadResult" /\ f.n = "related_task_id" ->
         OptR(<<"str">>, IF s[2].meta = None THEN None ELSE RelOf(s[2].meta[2][2]))
    [] f.n = "set_related_task_id" -> Val(<<"R", <<"any">>, Build(f.o, f.n, s, a)>>)
    [] f.n \in TraceKeys -> OptR(<<"str">>, TraceOf(s, f.n))
    [] f.n = "is_input_required" -> BoolR(s[2] = "InputRequiredResult")
    [] f.n = "is_complete" -> BoolR(s[2] # "InputRequiredResult")
    [] f.n = "as_input_required" -> OptR(Ref("InputRequiredResult"), IF s[2] = "InputRequiredResult" THEN Some(s[3]) ELSE None)
    [] f.n = "as_create_message" -> OptR(Ref("CreateMessageRequest"), IF s[2] = "CreateMessageRequest" THEN Some(s[3]) ELSE None)
    [] f.n = "as_list_roots" -> OptR(Ref("ListRootsRequest"), IF s[2] = "ListRootsRequest" THEN Some(s[3]) ELSE None)
    [] f.n = "as_elicit" -> OptR(Ref("ElicitRequest"), IF s[2] = "ElicitRequest" THEN Some(s[3]) ELSE None)
    [] f.n = "len" -> Val(I(ToString(Cardinality(DOMAIN s[2]))))
    [] f.n = "is_empty" -> BoolR(DOMAIN s[2] = {})
    [] f.o = "InputRequests" /\ f.n = "get" ->
         OptR(Ref("InputRequest"), IF Txt(a[1]) \in DOMAIN s[2] THEN Some(s[2][Txt(a[1])]) ELSE None)
    [] f.o = "InputRequests" /\ f.n = "keys" -> Val(<<"bag", [i \in 1..Cardinality(DOMAIN s[2]) |-> S(SetToSeq(DOMAIN s[2])[i])]>>)
    [] f.o = "InputRequests" /\ f.n = "iter" ->
         Val(<<"bag", [i \in 1..Cardinality(DOMAIN s[2]) |->
                         LET k == SetToSeq(DOMAIN s[2])[i] IN <<"V", <<S(k), s[2][k]>>>>]>>)
    [] f.o = "RequestFromClient" /\ f.n = "meta" ->
         OptR(Ref("RequestMetaObject"), IF s[2] \in CustomName THEN None ELSE Some(s[3][2].meta))
    [] f.o = "RequestFromClient" /\ f.n = "with_input_responses" ->
         IF s[2] \in InputReq
         THEN OkRK(t, [s EXCEPT ![3][2].input_responses = Some(a[1]), ![3][2].request_state = a[2]])
         ELSE ErrR(ErrV("-32602", CatT(<<"`", Txt(MethodOf(s)), "` does not accept inputResponses">>), None))
    [] OTHER -> Unspecified
Helpers == {"related_task_id", "set_related_task_id", "is_input_required", "is_complete", "as_input_required",
  "as_create_message", "as_list_roots", "as_elicit", "len", "is_empty", "get", "keys", "iter"} \cup TraceKeys
IsHelper(f) == f.n \in Helpers \/ (f.o = "RequestFromClient" /\ f.n \in {"meta", "with_input_responses"})

(* ------------------------------------------------------------ tasks -------------------- *)
Terminal(st) == st[2] \in {"Cancelled", "Completed", "Failed"}
StatusIn(o, s) == IF o = "TaskStatus" THEN s ELSE s[2].status

Gate(needs, method, o) ==
  LET bad == Unmet(needs) IN
  IF bad = {} THEN Val(<<"ok", None>>)
  ELSE LET i == CHOOSE i \in bad : \A k \in bad : i <= k IN
       ErrR(Internal(CatT(<<IF o = "ServerCapabilities" THEN "Server" ELSE "Client", " does not support ", needs[i].name,
                            " (required for ", method, ")">>)))

(* ------------------------------------------------------------ standard traits ---------- *)
(* The default value: nothing set, everything empty; the level of log messages is info and an    *)
(* identifier is the number 0.                                                                   *)
RECURSIVE DefOf(_)
DefOf(t) ==
  CASE t[1] = "ref" -> (LET T == Types[t[2]] IN
         CASE t[2] \in {"RequestId", "ProgressToken"} -> E1("Integer", I("0"))
           [] t[2] = "LoggingLevel" -> <<"U", "Info">>
           [] T.k = "struct" -> <<"S", [r \in {T.f[i].r : i \in DOMAIN T.f} |-> DefOf(FieldOf(T.f, r).t)]>>
           [] T.k = "new" -> DefOf(T.t))
    [] t[1] = "str" -> S("")
    [] t[1] \in {"opt", "nopt"} -> None
    [] t[1] = "vec" -> <<"V", << >>>>
    [] t[1] = "hmap" -> <<"M", Empty>>
    [] t[1] = "map" -> J(EO)
    [] t[1] = "val" -> J(Z)
    [] t[1] = "bool" -> B(FALSE)
    [] t[1] \in {"i64", "u64", "f64"} -> Dec(t, I("0"))[2]
(* Looking an id up among those noted before: where it was noted last, and how many there are.   *)
FindId(ids, id) ==
  LET at == {i \in DOMAIN ids : ids[i] = id} IN
  <<"V", <<IF at = {} THEN None ELSE Some(I(ToString(Max(at)))), I(ToString(Cardinality({ids[i] : i \in DOMAIN ids})))>>>>

(* ------------------------------------------------------------ all functions ------------ *)
Call(f, s, a) ==
  CASE f.n = "new" -> NewCall(f, a)
    [] IsConstAcc(f) -> ConstAcc(f, s)
    [] f.n = "jsonrpc" -> StrR(S("2.0"))
    [] f.n = "request_id" -> LET x == IdIn(f.o, s) IN
         IF f.o \in {"ClientMessage", "ServerMessage", "ClientJsonrpcResponse", "ServerJsonrpcResponse"} THEN OptR(IdT, x)
         ELSE R(IdT, x[2])
    [] f.n = "method" -> LET m == MethodIn(f.o, s) IN
         IF f.o \in {"ClientMessage", "ServerMessage"} THEN OptR(<<"str">>, m) ELSE StrR(m[2])
    [] f.n = "From" -> FromCall(f, a)
    [] f.n = "TryFrom" -> TryFromCall(f, a)
    [] f.n = "FromMessage" -> ToMsg(f, f.a[1][2], a[1], a[2])
    [] f.n = "ToMessage" -> ToMsg(f, Ref(f.o), s, a[1])
    [] f.n \in DOMAIN IsKind -> BoolR(KindOf(s) = IsKind[f.n])
    [] f.n = "message_type" -> Val(<<"U", KindOf(s)>>)
    [] f.n \in DOMAIN AsKind /\ f.o \in MsgU -> AsKindCall(f, s)
    [] f.n = "is_initialize_request" -> BoolR(IsInit(f.o, s))
    [] f.n = "is_initialized_notification" -> BoolR(IsInitd(f.o, s))
    [] f.n = "is_batch" -> BoolR(s[2] = "Batch")
    [] f.n = "includes_request" -> BoolR(IF s[2] = "Single" THEN KindOf(s[3]) = "Request"
                                         ELSE \E i \in DOMAIN s[3][2] : KindOf(s[3][2][i]) = "Request")
    [] f.n \in {"as_single", "as_batch"} -> AsBatch(f, s)
    [] f.n = "Display" -> DisplayCall(f, s)
    [] f.n = "FromStr" -> FromStrCall(f, a)
    [] f.n = "default" -> R(RecT(f), DefOf(RecT(f)))
    [] f.n = "eq" -> Val(B(s = a[1]))
    [] f.n = "find" -> Val(FindId(a[1][2], a[2]))
    [] f.o = "CallToolError" -> CallToolErrCall(f, a)
    [] f.n \in DOMAIN CtorCode -> ErrCtor(f, a)
    [] f.n = "create" -> LET p == P(f, a) IN R(RecT(f), StructN(f.o, [id |-> p.id,
                             error |-> ErrV(CodeTab[p.error_code[2]], p.error_message, p.error_data)]))
    [] f.n \in {"text_content", "image_content", "audio_content", "resource_link", "embedded_resource"} -> BlockCall(f, a)
    [] f.n = "content_type" -> StrR(s[3][2].type_)
    [] f.n \in DOMAIN BlockOf -> ContentAs(f, s)
    [] f.n = "with_error" -> R(RecT(f), ToolResult(<<E1("TextContent", TextBlock(a[1]))>>, Some(B(TRUE))))
    [] f.n = "from_content" -> R(RecT(f), ToolResult(a[1][2], None))
    [] f.n = "tool_name" -> StrR(s[2].params[2].name)
    [] f.n = "message" -> StrR(s[3][2].message)
    [] f.n = "is_task_augmented" -> BoolR(TaskAug(f.o, s))
    [] f.n \in DOMAIN CapPath -> BoolR(IF HasField(f.o, "tasks") THEN HasIn(s, <<"tasks">> \o CapPath[f.n]) ELSE HasIn(s, CapPath[f.n]))
    [] f.n = "is_terminal" -> BoolR(Terminal(StatusIn(f.o, s)))
    [] f.n = "can_handle_request" -> Gate(HandleGates(f.o, s, a[1]), Txt(WireMethod(a[1])), f.o)
    [] f.n = "can_accept_notification" -> Gate(NotifyGates(f.o, s, Txt(a[1])), Txt(a[1]), f.o)
    [] IsHelper(f) -> HelperCall(f, s, a)
    [] f.n \in DOMAIN FieldOfBuilder \cup DOMAIN TraceOfBuilder \cup {"add_content", "insert", "add", "add_raw", "add_if", "with_related_task_id"} ->
         LET v == Build(f.o, f.n, s, a) IN
         IF f.o = "Map" THEN [v |-> v, o |-> <<v[2]>>] ELSE RK(RecT(f), v)
    [] OTHER -> Unspecified

(* ------------------------------------------------------------ properties --------------- *)
Envelopes == {"ClientJsonrpcRequest", "ServerJsonrpcRequest", "ClientJsonrpcNotification", "ServerJsonrpcNotification",
  "ClientJsonrpcResponse", "ServerJsonrpcResponse", "JsonrpcRequest", "JsonrpcNotification", "JsonrpcError",
  "JsonrpcErrorResponse", "JsonrpcResultResponse", "JsonrpcResponse"}
HasId(o) == HasField(o, "jsonrpc")
Results == {"GenericResult", "ResultFromClient", "ResultFromServer", "ServerResult", "ClientResult", "ClientTaskResult", "InputRequiredResult"}
IsResultT(o) == o \in Results \/ o \in {"CallToolResult"} \/ (IsUnion("ServerResult") /\ o \in AltNames("ServerResult"))
UnionNames == {n \in DOMAIN Types : Types[n].k \in {"untag", "rtype"} /\ n \notin {"ClientMessage", "ServerMessage"}}
InFamily(x) == \/ x \in Envelopes \/ x \in {"ClientMessage", "ServerMessage", "CustomRequest", "CustomNotification", "JsonrpcRequest",
                    "JsonrpcNotification"}
               \/ (Len(x) > 10 /\ SubSeq(x, Len(x) - 9, Len(x)) \in {"FromServer", "FromClient"})
PropsOf(f) ==
  CASE f.n = "new" -> (IF f.o \in {"SdkError", "RpcError"} THEN {"C13"}
                       ELSE IF (f.o \in Envelopes \/ HasId(f.o)) THEN {"C08"} ELSE {}) \cup {"C03"}
    [] IsConstAcc(f) -> {"C03"} \cup (IF f.n = "method" THEN {"C05"} ELSE {})
    [] f.n \in {"jsonrpc", "request_id"} -> {"C08"}
    [] f.n = "method" -> {"C05", "C08"}
    [] f.o = "i64" \/ f.n = "create" \/ (f.o \in {"CallToolError", "SdkError", "RpcError"} /\ f.n \notin {"Display", "FromStr"}) -> {"C13"}
    [] f.n \in {"From", "TryFrom"} ->
         IF f.o = "PrimitiveSchemaDefinition" /\ f.n = "TryFrom" THEN {"C12"}
         ELSE IF f.o \in MsgsU THEN {"C16"}
         ELSE {"C10"} \cup (IF IsResultT(f.o) THEN {"C07"} ELSE {})
                     \cup (IF f.o \in UnionNames \/ (f.a[1][2][1] = "ref" /\ f.a[1][2][2] \in UnionNames) THEN {"C06"} ELSE {})
                     \cup (IF InFamily(f.o) \/ (f.a[1][2][1] = "ref" /\ InFamily(f.a[1][2][2])) THEN {"C05", "C08"} ELSE {})
                     \cup (IF f.o \in {"ClientMessage", "ServerMessage"} THEN {"C04"} ELSE {})
                     \cup (IF f.o = "CallToolResult" THEN {"C13"} ELSE {})
    [] f.n \in {"FromMessage", "ToMessage"} -> {"C09", "C08"}
    [] f.n \in DOMAIN IsKind \cup {"message_type"} -> {"C04"}
    [] f.n \in DOMAIN AsKind -> {"C04", "C10"}
    [] f.n \in {"is_initialize_request", "is_initialized_notification", "tool_name", "message"} -> {"C05"}
    [] f.n \in {"is_batch", "includes_request", "as_single", "as_batch"} -> {"C16"}
    [] f.n \in {"Display", "FromStr"} -> {"C18"}
    [] f.n = "default" -> {"C15"}
    [] f.n = "eq" -> {"C08", "C20"}
    [] f.n = "find" -> {"C20"}
    [] f.n = "with_error" -> {"C13", "C15"}
    [] f.n \in DOMAIN BlockOf \cup {"content_type"} -> {"C10"}
    [] f.n \in {"text_content", "image_content", "audio_content", "resource_link", "embedded_resource", "from_content"} -> {"C15", "C10"}
    [] f.n \in {"is_task_augmented", "can_handle_request", "can_accept_notification"} \cup DOMAIN CapPath -> {"C11"}
    [] f.n = "is_terminal" -> {"C17"}
    [] f.n \in {"is_input_required", "is_complete", "as_input_required"} -> {"C07", "C17"}
    [] IsHelper(f) -> {"C17"}
    [] OTHER -> {"C15"} \cup (IF f.o \in {"RequestMetaObject", "Map", "InputResponses", "RequestFromClient", "GetTaskPayloadResult",
                                         "InputResponseRequestParams", "InputRequiredResult"} \/ f.n \in {"with_input_responses", "with_request_state"}
                             THEN {"C17"} ELSE {})
=============================================================================
