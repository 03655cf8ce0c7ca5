--------------------------------- MODULE Steps --------------------------------
(* Library calls made one after another, with real documents handed from one to the next:        *)
(* <<"@", i, path>> stands for the document step i really produced (its member at path).          *)
EXTENDS Call, Json

(* ------------------------------------------------------------ payloads ----------------- *)
Msg(sd, p, oid) == FromMsg(sd, p, oid)
Payload(sd) == "MessageFrom" \o sd
MsgT(sd) == Ref(sd \o "Message")
(* A message that means the same on the other side.                                              *)
Carries(sd, p) ==
  LET r == Msg(sd, p, IF KindOf(p) = "Notification" THEN None ELSE Some(IdVals[1])) IN
  /\ IsOk(r.v) /\ ~K1Of(r.v)
  /\ LET d == Dec(MsgT(sd), Enc(MsgT(sd), r.v[2])) IN d = Ok(r.v[2])
AltName(p) == IF Old /\ KindOf(p) # "Error" /\ p[3][1] = "E" /\ p[3][3][1] = "E" THEN p[3][3][2] ELSE p[3][2]
HandShake == {"InitializeRequest", "InitializedNotification", "InitializeResult"}
KindList(sd, k) == SelectSeq(TV(Ref(Payload(sd))), LAMBDA p : KindOf(p) = k /\ Carries(sd, p)
                                                              /\ (k = "Error" \/ AltName(p) \notin HandShake))
Tables == [k \in {"Request", "Notification", "Response", "Error"} |-> [sd \in {"Client", "Server"} |-> KindList(sd, k)]]
ASSUME TLCSet(5, TLCEval(Tables))
List(k, sd) == TLCGet(5)[k][sd]
HasReq(sd) == List("Request", sd) # << >>

(* ------------------------------------------------------------ steps -------------------- *)
FnNames == {Fns[i].f : i \in DOMAIN Fns}
ByName(n) == Fns[CHOOSE i \in DOMAIN Fns : Fns[i].f = n]
OutOf(i, path) == <<"@", i, path>>
(* A call whose receiver and arguments are written xs, xa and whose meaning is that of s, a.      *)
CallStep(n, xs, xa, s, a) ==
  LET r == Call(ByName(n), s, a) IN [op |-> "call", f |-> n, s |-> xs, a |-> xa, v |-> r.v, o |-> r.o, k |-> ""]
ReadStep(t, d, v) == [op |-> "codec", t |-> t, d |-> d, l |-> "conversation", ok |-> TRUE, v |-> v,
                      o |-> Enc(Ref(t), v), k |-> "", fix |-> TRUE]
OptStep(n, xs, xa, s, a) == IF n \in FnNames THEN <<CallStep(n, xs, xa, s, a)>> ELSE << >>
NoRecv == << >>

BuildName(sd) == sd \o "Message.FromMessage<" \o Payload(sd) \o ">"
BuildStep(sd, p, oid) == CallStep(BuildName(sd), NoRecv, <<Arg(Ref(Payload(sd)), p), Arg(<<"opt", IdT>>, oid)>>, None, <<p, oid>>)

(* What the receiver does with a message: read it, ask its kind, id and method, take it apart.   *)
(* i is the number of steps so far, src the document.                                            *)
TakeSteps(from, m, i, src) ==
  LET o == from \o "Message" k == KindOf(m)
      ask == <<ReadStep(o, src, m), CallStep(o \o ".message_type", src, << >>, m, << >>),
               CallStep(o \o ".request_id", src, << >>, m, << >>)>>
             \o OptStep(o \o ".method", src, << >>, m, << >>)
             \o OptStep(o \o ".is_initialize_request", src, << >>, m, << >>)
             \o OptStep(o \o ".is_initialized_notification", src, << >>, m, << >>)
             \o OptStep(o \o ".as_" \o (CASE k = "Request" -> "request" [] k = "Notification" -> "notification"
                                          [] k = "Response" -> "response" [] OTHER -> "error"), src, << >>, m, << >>)
      j == i + Len(ask) w == m[3]
      open == CASE k \in {"Request", "Notification"} ->
                     OptStep(k \o "From" \o from \o ".From<" \o from \o "Jsonrpc" \o k \o ">", NoRecv, <<OutOf(j, <<"Ok">>)>>, None, <<w>>)
                [] k = "Response" ->
                     LET r == w[2].result
                         n == IF r[3][1] = "E" THEN r[3][2] ELSE r[2]
                         u == IF from = "Server" /\ Stateless THEN "ServerResult" ELSE "ResultFrom" \o from
                     IN OptStep(n \o ".TryFrom<" \o u \o ">", NoRecv, <<OutOf(j, <<"Ok", "result">>)>>, None, <<r>>)
                [] OTHER -> OptStep("RpcError.From<" \o ErrName \o ">", NoRecv, <<OutOf(j, <<"Ok">>)>>, None, <<w>>)
  IN ask \o open

=============================================================================
