-------------------------------- MODULE Caps ---------------------------------
(* What a peer may be sent, given the capabilities it declared in the handshake.               *)
EXTENDS Calls

RECURSIVE HasIn(_, _)
(* A chain of optional members is present throughout.                                           *)
HasIn(v, path) == IF path = << >> THEN TRUE
                  ELSE LET x == v[2][path[1]] IN x # None /\ HasIn(x[2], Tail(path))
TaskOf(p) == "task" \in DOMAIN p[2] /\ p[2].task # None
TaskAug(o, s) ==
  CASE o \in {"CallToolRequestParams", "CreateMessageRequestParams"} -> TaskOf(s)
    [] o = "ElicitRequestParams" -> TaskOf(s[3])
    [] o = "CallToolRequest" -> TaskOf(s[2].params)
    [] o = "RequestFromServer" -> (s[2] = "CreateMessageRequest" /\ TaskOf(s[3])) \/ (s[2] = "ElicitRequest" /\ TaskOf(s[3][3]))
    [] o = "ClientJsonrpcRequest" -> s[2] = "CallToolRequest" /\ TaskOf(s[3][2].params)
    [] o = "ServerJsonrpcRequest" -> (s[2] = "CreateMessageRequest" /\ TaskOf(s[3][2].params))
                                     \/ (s[2] = "ElicitRequest" /\ TaskOf(s[3][2].params[3]))
    [] o = "MessageFromServer" -> s[2] = "RequestFromServer" /\
         ((s[3][2] = "CreateMessageRequest" /\ TaskOf(s[3][3])) \/ (s[3][2] = "ElicitRequest" /\ TaskOf(s[3][3][3])))
CapPath == ("can_list_tasks" :> <<"list">>) @@ ("can_cancel_tasks" :> <<"cancel">>)
  @@ ("can_run_task_augmented_tools" :> <<"requests", "tools", "call">>)
  @@ ("can_accept_elicitation_task" :> <<"requests", "elicitation", "create">>)
  @@ ("can_accept_sampling_task" :> <<"requests", "sampling", "create_message">>)

(* ------------------------------------------------------------ gates -------------------- *)
(* A gate is a need: whether it is met, and how the refusal names it.  The first unmet need is  *)
(* the reported one; a request without gates is always allowed.                                 *)
Need(ok, name) == [ok |-> ok, name |-> name]
Decl(c, r) == HasIn(c, <<r>>)
SamplingP(c, p) == HasIn(c, <<"sampling", p>>)
Newest == SchemaVersion \in {"2026_07_28", "draft"}

ServerNeeds(c, m, r) ==     \* m: the request's kind, r: the request
  CASE m = "SetLevelRequest" -> <<Need(Decl(c, "logging"), "logging")>>
    [] m \in {"GetPromptRequest", "ListPromptsRequest"} -> <<Need(Decl(c, "prompts"), "prompts")>>
    [] m \in {"ListResourcesRequest", "ListResourceTemplatesRequest", "ReadResourceRequest", "SubscribeRequest", "UnsubscribeRequest"} ->
         <<Need(Decl(c, "resources"), "resources")>>
    [] m = "CallToolRequest" ->
         (IF ~Newest THEN <<Need(~TaskOf(r[2].params) \/ HasIn(c, <<"tasks", "requests", "tools", "call">>), "Task-augmented tool call")>> ELSE << >>)
         \o <<Need(Decl(c, "tools"), "tools")>>
    [] m = "ListToolsRequest" -> <<Need(Decl(c, "tools"), "tools")>>
    [] m = "CompleteRequest" -> <<Need(Decl(c, "completions"), "completions")>>
    [] m \in {"GetTaskRequest", "GetTaskPayloadRequest"} -> <<Need(Decl(c, "tasks"), "task")>>
    [] m = "ListTasksRequest" -> <<Need(Decl(c, "tasks"), "task"), Need(HasIn(c, <<"tasks", "list">>), "listing tasks")>>
    [] m = "CancelTaskRequest" -> <<Need(Decl(c, "tasks"), "task"), Need(HasIn(c, <<"tasks", "cancel">>), "task cancellation")>>
    [] OTHER -> << >>
ClientNeeds(c, m, r) ==
  IF Newest THEN
    CASE m = "CreateMessageRequest" -> <<Need(Decl(c, "sampling"), "sampling")>>
      [] m = "ListRootsRequest" -> <<Need(Decl(c, "roots"), "roots")>>
      [] m = "ElicitRequest" -> <<Need(Decl(c, "elicitation"), "elicitation")>>
      [] OTHER -> << >>
  ELSE
    CASE m = "CreateMessageRequest" ->
           LET p == r[2].params[2] IN
           <<Need(Decl(c, "sampling"), "sampling capability"),
             Need(p.include_context = None \/ p.include_context[2] = <<"U", "None">> \/ SamplingP(c, "context"), "context inclusion"),
             Need(p.tool_choice = None \/ SamplingP(c, "tools"), "tool choice"),
             Need(p.tools[2] = << >> \/ SamplingP(c, "tools"), "tools"),
             Need(p.task = None \/ HasIn(c, <<"tasks", "requests", "sampling", "create_message">>), "sampling task")>>
      [] m = "ListRootsRequest" -> <<Need(Decl(c, "roots"), "roots capability")>>
      [] m \in {"GetTaskRequest", "GetTaskPayloadRequest"} -> <<Need(Decl(c, "tasks"), "Task")>>
      [] m = "CancelTaskRequest" -> <<Need(HasIn(c, <<"tasks", "cancel">>), "task cancellation")>>
      [] m = "ListTasksRequest" -> <<Need(HasIn(c, <<"tasks", "list">>), "listing tasks")>>
      [] m = "ElicitRequest" -> <<Need(Decl(c, "elicitation"), "input elicitation"),
             Need(~TaskOf(r[2].params[3]) \/ HasIn(c, <<"tasks", "requests", "elicitation", "create">>), "elicitation task")>>
      [] OTHER -> << >>
HandleGates(o, c, w) ==
  LET q == IF w[2] = "Standard" THEN w[3] ELSE w IN       \* the typed request
  IF o = "ServerCapabilities" THEN ServerNeeds(c, q[2], q[3]) ELSE ClientNeeds(c, q[2], q[3])
NotifyGates(o, c, method) ==
  IF o = "ServerCapabilities" THEN
    CASE method = "notifications/message" -> <<Need(Decl(c, "logging"), "logging")>>
      [] method \in {"notifications/resources/updated", "notifications/resources/list_changed"} ->
           <<Need(Decl(c, "resources"), "notifying about resources")>>
      [] method = "notifications/tools/list_changed" -> <<Need(Decl(c, "tools"), "notifying of tool list changes")>>
      [] method = "notifications/prompts/list_changed" -> <<Need(Decl(c, "prompts"), "notifying of prompt list changes")>>
      [] OTHER -> << >>
  ELSE IF Newest THEN << >>
  ELSE IF method = "notifications/roots/list_changed" THEN <<Need(Decl(c, "roots"), "roots list changed notifications")>>
  ELSE << >>
Unmet(needs) == {i \in DOMAIN needs : ~needs[i].ok}

(* ------------------------------------------------------------ declared ----------------- *)
(* Every subset of the capabilities that a request can need, as documents.                      *)
RECURSIVE Prod(_, _)
Prod(opts, i) ==     \* opts: sequence of <<name, sequence of documents; Z for absent>>
  IF i > Len(opts) THEN <<Empty>>
  ELSE LET rest == Prod(opts, i + 1) IN
       Cat([k \in DOMAIN opts[i][2] |->
         Each(rest, LAMBDA r : IF opts[i][2][k] = Z THEN r ELSE (opts[i][1] :> opts[i][2][k]) @@ r)])
On(x) == <<Z, x>>
TaskDocs(reqs) == <<Z, EO, O("list" :> EO), O("cancel" :> EO), O("requests" :> EO)>>
  \o SetToSeq({O("requests" :> O(x :> EO)) : x \in DOMAIN reqs})
  \o SetToSeq({O("requests" :> O(x :> reqs[x])) : x \in DOMAIN reqs})
  \o <<O(("list" :> EO) @@ ("cancel" :> EO) @@ ("requests" :> O(reqs)))>>
ServerCapDocs ==
  LET base == <<<<"prompts", On(EO)>>, <<"resources", On(O("subscribe" :> B(FALSE)))>>, <<"tools", On(EO)>>,
                <<"completions", On(EO)>>, <<"logging", On(EO)>>>>
  IN Each(Prod(IF HasField("ServerCapabilities", "tasks")
               THEN base \o <<<<"tasks", TaskDocs("tools" :> O("call" :> EO))>>>> ELSE base, 1), O)
ClientCapDocs ==
  LET smp == IF HasField("ClientCapabilities", "tasks")
             THEN <<Z, EO, O("context" :> EO), O("tools" :> EO), O(("context" :> EO) @@ ("tools" :> EO))>> ELSE On(EO)
      base == <<<<"sampling", smp>>, <<"roots", On(EO)>>, <<"elicitation", On(EO)>>>>
  IN Each(Prod(IF HasField("ClientCapabilities", "tasks")
               THEN base \o <<<<"tasks", TaskDocs(("sampling" :> O("createMessage" :> EO)) @@ ("elicitation" :> O("create" :> EO)))>>>>
               ELSE base, 1), O)
CapVals(o) == DecOk(Ref(o), IF o = "ServerCapabilities" THEN ServerCapDocs ELSE ClientCapDocs)
(* Sampling requests asking for every combination of gated features.                            *)
SamplingDocs ==
  IF Newest \/ ~HasField("CreateMessageRequestParams", "task") THEN << >>
  ELSE LET opts == <<<<"includeContext", <<Z, S("none"), S("thisServer"), S("allServers")>>>>,
                     <<"toolChoice", <<Z, EO, O("mode" :> S("none"))>>>>,
                     <<"tools", <<Z, A(<< >>), A(<<DMin("Tool")>>)>>>>,
                     <<"task", <<Z, EO>>>>,
                     <<"messages", <<A(<< >>)>>>>, <<"maxTokens", <<I("7")>>>>>>
       IN Each(Prod(opts, 1), LAMBDA p : O(("jsonrpc" :> S("2.0")) @@ ("id" :> I("1"))
                                           @@ ("method" :> S("sampling/createMessage")) @@ ("params" :> O(p))))
AskVals(o) == Dedup(TV(Ref(IF o = "ServerCapabilities" THEN "ClientJsonrpcRequest" ELSE "ServerJsonrpcRequest"))
                    \o (IF o = "ServerCapabilities" THEN << >> ELSE DecOk(Ref("ServerJsonrpcRequest"), SamplingDocs)))
NotifyMethods == <<"notifications/message", "notifications/resources/updated", "notifications/resources/list_changed",
  "notifications/tools/list_changed", "notifications/prompts/list_changed", "notifications/roots/list_changed",
  "notifications/cancelled", "notifications/progress", "notifications/initialized", "notifications/tasks/status",
  "notifications/elicitation/complete", "notifications/subscriptions/acknowledged", "", "$U", "notifications", "notifications/messages", "tools/list",
  "$^notifications/message", "$^notifications/roots/list_changed", "$-notifications/tools/list_changed">>
=============================================================================
