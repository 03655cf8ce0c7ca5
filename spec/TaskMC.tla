-------------------------------- MODULE TaskMC --------------------------------
(* Tasks: one side (client or server) asks for something with task metadata, the other creates a *)
(* task, works on it, reports its status, and keeps the outcome for collection; the asker polls,  *)
(* cancels or collects.  All of it travels in real documents.                                     *)
EXTENDS Steps

CONSTANTS Moves,             \* at most that many changes of status
          Looks,             \* at most that many polls, cancellations and notices
          Starts

VARIABLES steps, asker, phase,
          task,              \* the task as its owner has it, or None
          seen,              \* the statuses the asker has read, in order
          past,              \* the statuses the task went through, in order
          kept,              \* the related task id the asker reads on the outcome
          moves, looks, turn
vars == <<steps, asker, phase, task, seen, past, kept, moves, looks, turn>>

Spin(s, k) == s[1 + (k % Len(s))]
NextTurn == turn' = (turn * 75 + 74) % 65537
Other(sd) == Peer(sd)
Lift(sd, n, v) == LiftBy(Path(Ref(n), Payload(sd), 5), v)
SrcOf(i) == OutOf(i, <<"Ok">>)
StatusV(n) == <<"E", n, None>>

(* ------------------------------------------------------------ values ------------------- *)
Metas == TV(Ref("TaskMetadata"))
TaskIds == <<S("task-1"), S("$U"), S("$L"), S("")>>
MetaDocs == <<None, Some(J(EO)), Some(J(O("k" :> S("x")))),
              Some(J(O("io.modelcontextprotocol/related-task" :> O("taskId" :> S("other")))))>>
Asked == [sd \in Sides |-> SelectSeq(List("Request", sd), LAMBDA p :
             AltName(p) = (IF sd = "Client" THEN "CallToolRequest" ELSE "CreateMessageRequest"))]
ElicitForms == SelectSeq(TV(Ref("ElicitRequestParams")), LAMBDA v : Dec(Ref("ElicitRequestParams"), Enc(Ref("ElicitRequestParams"), v)) = Ok(v))
Tasks == TV(Ref("Task"))
Legal(st) == IF Terminal(st) THEN {} ELSE IF st[2] = "Working" THEN {"Working", "InputRequired", "Completed", "Failed", "Cancelled"}
             ELSE {"Working", "Completed", "Failed", "Cancelled"}

(* A message goes over and is taken apart; d is what the receiver makes of it.                   *)
Exchange(sd, p, oid, n) ==
  LET b == BuildStep(sd, p, oid)
      m == Msg(sd, p, oid).v[2]
      d == Dec(MsgT(sd), Enc(MsgT(sd), m))[2]
  IN [steps |-> <<b>> \o TakeSteps(sd, d, n + 1, SrcOf(n + 1)), m |-> d, at |-> n + 1]
Add(ss) == steps' = steps \o ss

(* ------------------------------------------------------------ the task ----------------- *)
Init == /\ steps = << >> /\ asker \in Sides /\ phase = "ask" /\ task = None /\ seen = << >> /\ past = << >> /\ kept = None
        /\ moves = 0 /\ looks = 0
        /\ turn \in {(k * 7919 + 13) % 65537 : k \in Starts}

WithTask(p, md) == CASE asker = "Client" -> [p EXCEPT ![3][3][2].task = md]
                     [] OTHER -> [p EXCEPT ![3][3][2].task = md]
(* The asker asks, with a task or without one.                                                    *)
Ask ==
  /\ phase = "ask"
  /\ LET n == Len(steps)
         md == IF turn % 5 = 0 THEN None ELSE Some(Spin(Metas, turn))
         elicit == asker = "Server" /\ (turn \div 5) % 2 = 0
         e0 == Spin(ElicitForms, turn)
         e1 == IF md = None THEN e0 ELSE Build("ElicitRequestParams", "with_task", e0, <<md[2]>>)
         pre == IF elicit /\ md # None
                THEN <<CallStep("ElicitRequestParams.with_task", Arg(Ref("ElicitRequestParams"), e0), <<Arg(Ref("TaskMetadata"), md[2])>>, e0, <<md[2]>>)>>
                ELSE << >>
         q == IF elicit THEN Lift("Server", "ElicitRequestParams", e1) ELSE WithTask(Spin(Asked[asker], turn), md)
         x == Exchange(asker, q, Some(Spin(IdVals, turn)), n + Len(pre))
         o == asker \o "JsonrpcRequest"
         w == x.m[3]
         aug == CallStep(o \o ".is_task_augmented", SrcOf(x.at), << >>, w, << >>)
     IN /\ Add(pre \o x.steps \o <<aug>>)
        /\ phase' = IF aug.v = BoolR(TRUE).v THEN "create" ELSE "end"
  /\ NextTurn /\ UNCHANGED <<asker, task, seen, past, kept, moves, looks>>
(* The other side makes a task and says so.                                                      *)
Create ==
  /\ phase = "create"
  /\ LET n == Len(steps)
         t0 == Spin(Tasks, turn)
         t == [t0 EXCEPT ![2].task_id = Spin(TaskIds, turn \div 3), ![2].status = StatusV("Working")]
         r == StructN("CreateTaskResult", [task |-> t])
         x == Exchange(Other(asker), Lift(Other(asker), "CreateTaskResult", r), Some(Spin(IdVals, turn)), n)
         look == CallStep("Task.is_terminal", OutOf(x.at, <<"Ok", "result", "task">>), << >>, t, << >>)
     IN /\ Add(x.steps \o <<look>>)
        /\ task' = t /\ past' = <<t[2].status>> /\ seen' = <<t[2].status>>
  /\ phase' = "run" /\ NextTurn /\ UNCHANGED <<asker, kept, moves, looks>>
(* It works on the task ...                                                                       *)
Move(st) ==
  /\ phase = "run" /\ moves < Moves /\ st \in Legal(task[2].status)
  /\ task' = [task EXCEPT ![2].status = StatusV(st), ![2].last_updated_at = S("t" \o ToString(moves)),
                          ![2].status_message = IF moves % 2 = 0 THEN Some(S("$U")) ELSE None]
  /\ past' = Append(past, StatusV(st)) /\ moves' = moves + 1
  /\ NextTurn /\ UNCHANGED <<steps, asker, phase, seen, kept, looks>>
(* ... and tells of it, unasked.                                                                  *)
AsParams(o, m, extra) == StructN(o, [x \in (DOMAIN task[2] \cap {"created_at", "last_updated_at", "poll_interval", "status", "status_message", "task_id"}) |-> task[2][x]]
                                 @@ [meta |-> m, ttl |-> IF o = "TaskStatusNotificationParams" \/ task[2].ttl = None THEN task[2].ttl ELSE task[2].ttl[2]] @@ extra)
Tell ==
  /\ phase = "run" /\ looks < Looks /\ seen # past
  /\ LET n == Len(steps)
         md == Spin(MetaDocs, turn)
         p == AsParams("TaskStatusNotificationParams", md, [extra |-> Some(J(EO))])
         x == Exchange(Other(asker), Lift(Other(asker), "TaskStatusNotificationParams", p), None, n)
         st == CallStep("TaskStatus.is_terminal", OutOf(x.at, <<"Ok", "params", "status">>), << >>, task[2].status, << >>)
     IN Add(x.steps \o <<st>>)
  /\ seen' = past /\ looks' = looks + 1 /\ NextTurn /\ UNCHANGED <<asker, phase, task, past, kept, moves>>
AskAbout(kind, id, n) ==
  LET p == StructN(kind \o "Params", [task_id |-> task[2].task_id]) IN
  Exchange(asker, Lift(asker, kind \o "Params", p), Some(id), n)
(* The asker polls.                                                                               *)
Poll ==
  /\ phase = "run" /\ looks < Looks
  /\ LET n == Len(steps) id == Spin(IdVals, turn)
         x == AskAbout("GetTask", id, n)
         r == AsParams("GetTaskResult", Spin(MetaDocs, turn), [extra |-> Some(J(EO))])
         y == Exchange(Other(asker), Lift(Other(asker), "GetTaskResult", r), Some(id), n + Len(x.steps))
         st == CallStep("GetTaskResult.is_terminal", OutOf(y.at, <<"Ok", "result">>), << >>, r, << >>)
     IN Add(x.steps \o y.steps \o <<st>>)
  /\ seen' = past /\ looks' = looks + 1 /\ NextTurn /\ UNCHANGED <<asker, phase, task, past, kept, moves>>
(* The asker cancels.                                                                             *)
Cancel ==
  /\ phase = "run" /\ looks < Looks /\ ~Terminal(task[2].status)
  /\ LET n == Len(steps) id == Spin(IdVals, turn)
         x == AskAbout("CancelTask", id, n)
         t == [task EXCEPT ![2].status = StatusV("Cancelled")]
         r0 == AsParams("CancelTaskResult", None, [extra |-> Some(J(EO))])
         r == [r0 EXCEPT ![2].status = StatusV("Cancelled")]
         y == Exchange(Other(asker), Lift(Other(asker), "CancelTaskResult", r), Some(id), n + Len(x.steps))
     IN Add(x.steps \o y.steps) /\ task' = t /\ past' = Append(past, t[2].status) /\ seen' = Append(past, t[2].status)
  /\ looks' = looks + 1 /\ NextTurn /\ UNCHANGED <<asker, phase, kept, moves>>
(* The outcome, tagged with its task, is collected.                                               *)
Collect ==
  /\ phase = "run" /\ Terminal(task[2].status) /\ task[2].status[2] # "Cancelled"
  /\ LET n == Len(steps) id == Spin(IdVals, turn)
         x == AskAbout("GetTaskPayload", id, n)
         r0 == StructN("GetTaskPayloadResult", [meta |-> Spin(MetaDocs, turn), extra |-> IF turn % 2 = 0 THEN Some(J(EO)) ELSE Some(J(O("content" :> S("done"))))])
         r == Build("GetTaskPayloadResult", "set_related_task_id", r0, <<task[2].task_id>>)
         tag == CallStep("GetTaskPayloadResult.set_related_task_id", Arg(Ref("GetTaskPayloadResult"), r0), <<task[2].task_id>>, r0, <<task[2].task_id>>)
         k == n + Len(x.steps) + 1
         y == Exchange(Other(asker), Lift(Other(asker), "GetTaskPayloadResult", r), Some(id), k)
         rel == CallStep("GetTaskPayloadResult.related_task_id", OutOf(y.at, <<"Ok", "result">>), << >>, r, << >>)
         relm == CallStep("Map.related_task_id", OutOf(y.at, <<"Ok", "result", "_meta">>), << >>, r[2].meta[2], << >>)
     IN Add(x.steps \o <<tag>> \o y.steps \o <<rel, relm>>) /\ kept' = rel.v
  /\ phase' = "end" /\ NextTurn /\ UNCHANGED <<asker, task, seen, past, moves, looks>>
GiveUp == phase = "run" /\ Terminal(task[2].status) /\ task[2].status[2] = "Cancelled" /\ phase' = "end"
          /\ UNCHANGED <<steps, asker, task, seen, past, kept, moves, looks, turn>>
Finish == phase = "end" /\ PrintT(ToJson([op |-> "conv", steps |-> steps])) /\ phase' = "over"
          /\ UNCHANGED <<steps, asker, task, seen, past, kept, moves, looks, turn>>
Next == Ask \/ Create \/ (\E st \in {"Working", "InputRequired", "Completed", "Failed", "Cancelled"} : Move(st))
        \/ Tell \/ Poll \/ Cancel \/ Collect \/ GiveUp \/ Finish
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------ properties --------------- *)
(* Nothing follows a final status, nothing is seen that did not happen, and the outcome is        *)
(* related to its task.                                                                           *)
FinalIsFinal == \A i \in DOMAIN past : Terminal(past[i]) => i = Len(past)
SeenHappened == Len(seen) <= Len(past) /\ seen = SubSeq(past, 1, Len(seen))
Related == kept # None => kept = OptR(<<"str">>, Some(task[2].task_id)).v
=============================================================================
