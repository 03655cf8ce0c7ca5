-------------------------------- MODULE FlowMC --------------------------------
(* The multi-round input flow: a client asks, the server may answer that it needs input (keyed    *)
(* input requests and an opaque state), the client answers each key and asks again with the      *)
(* responses and the state, and so on until the server completes.  Client and server keep only   *)
(* what they hold themselves; everything else travels in real documents.                          *)
EXTENDS Steps

CONSTANTS Rounds,            \* at most that many requests for input
          Starts

VARIABLES steps,             \* calls made so far, see Steps
          at,                \* who acts next, on what
          ask,               \* the client's request (payload) and its metadata
          asked,             \* what the server asked for: input-required result
          got,               \* what the server read of the retried request
          round, turn
vars == <<steps, at, ask, asked, got, round, turn>>

Spin(s, k) == s[1 + (k % Len(s))]
Next1(k) == (k * 75 + 74) % 65537
NextTurn == turn' = Next1(turn)

(* ------------------------------------------------------------ values ------------------- *)
ReqT == Ref("RequestFromClient")
MetaT == Ref("RequestMetaObject")
Requests == SelectSeq(List("Request", "Client"), LAMBDA p : p[3][2] \notin CustomName)
Infos == TV(Ref("Implementation"))
Levels == TV(Ref("LoggingLevel"))
Tokens == TV(Ref("ProgressToken"))
(* Builder calls on the metadata: a subset chosen by the bits of k.                              *)
MetaCalls(k) ==
  LET bit(i) == (k \div (CASE i = 0 -> 1 [] i = 1 -> 2 [] i = 2 -> 4 [] i = 3 -> 8 [] i = 4 -> 16 [] OTHER -> 32)) % 2 = 1
      all == <<<<"with_client_info", Spin(Infos, k \div 64)>>, <<"with_log_level", Spin(Levels, k \div 64)>>,
               <<"with_progress_token", Spin(Tokens, k \div 64)>>, <<"with_traceparent", S("00-$U")>>,
               <<"with_tracestate", S("$U")>>, <<"with_baggage", S("a=b")>>>>
      chosen == {i \in 1..6 : bit(i - 1)}
      ix == SetToSortSeq(chosen, <)
      fwd == [j \in DOMAIN ix |-> all[ix[j]]]
  IN IF k % 3 = 0 THEN Reverse(fwd) ELSE fwd
RECURSIVE Built(_, _, _)
Built(o, v, cs) == IF cs = << >> THEN v ELSE Built(o, Build(o, cs[1][1], v, Tail(cs[1])), Tail(cs))
ChainStep(o, v0, cs) ==
  LET v == Built(o, v0, cs)
      argT(n, j) == ByName(o \o "." \o n).a[j][2] IN
  [op |-> "chain", t |-> o, s |-> Arg(Ref(o), v0), v |-> v, o |-> <<Enc(Ref(o), v)>>, k |-> "",
   c |-> [i \in DOMAIN cs |-> <<cs[i][1], [j \in 1..Len(cs[i]) - 1 |-> Arg(argT(cs[i][1], j), cs[i][j + 1])]>>]]

KeySets == <<<<"k">>, <<"k", "$U">>, <<"", "k2", "$L">>, << >>, <<"only">>>>
Asks == TV(Ref("InputRequest"))
Gives == SelectSeq(TV(Ref("InputResponse")), LAMBDA v : Dec(Ref("InputResponse"), Enc(Ref("InputResponse"), v)) = Ok(v))
States == <<None, Some(S("state-1")), Some(S("$U")), Some(S("")), Some(S("$L")), Some(S("{\"a\":1}"))>>
RequestsAt(k) == LET ks == Spin(KeySets, k) IN
  <<"M", [x \in {ks[i] : i \in DOMAIN ks} |-> Spin(Asks, k \div 5 + 3 * Len(x))]>>
(* The client's answer to a request for input: a result of its kind.                             *)
AnswerTo(q, k) ==
  LET want == SubSeq(q[2], 1, Len(q[2]) - 7) \o "Result"
      c == SelectSeq(Gives, LAMBDA v : v[2] = want) IN IF c = << >> THEN Spin(Gives, k) ELSE Spin(c, k)
KeysOf(m) == SetToSeq(DOMAIN m[2])
KeyIx(m) == [i \in 1..Cardinality(DOMAIN m[2]) |-> KeysOf(m)[i]]
ResponsesTo(m, k) == LET ks == KeyIx(m) IN
  [i \in DOMAIN ks |-> <<"insert", S(ks[i]), AnswerTo(m[2][ks[i]], k + i)>>]

(* ------------------------------------------------------------ the flow ----------------- *)
Init == /\ steps = << >> /\ at = "client" /\ ask = [p |-> None, meta |-> None] /\ asked = None
        /\ got = [responses |-> None, state |-> None] /\ round = 0
        /\ turn \in {(k * 7919 + 13) % 65537 : k \in Starts}

Add(ss) == steps' = steps \o ss
SrcOf(i) == OutOf(i, <<"Ok">>)
(* The client builds its request: metadata by builder calls, put on the request.                 *)
Compose(c) ==
  /\ at = "client"
  /\ LET p0 == Spin(Requests, turn + 17 * c)
         m0 == StructN("RequestMetaObject", [extra |-> Some(J(EO)), protocol_version |-> S("2026-07-28"), client_capabilities |-> Spin(TV(Ref("ClientCapabilities")), turn)])
         cs == MetaCalls(turn)
         m == Built("RequestMetaObject", m0, cs)
         p1 == Build("RequestFromClient", "with_meta", p0[3], <<m>>)
         wm == CallStep("RequestFromClient.with_meta", Arg(ReqT, p0[3]), <<OutOf(Len(steps) + 1, << >>)>>, p0[3], <<m>>)
     IN /\ Add(<<ChainStep("RequestMetaObject", m0, cs), wm,
                 CallStep("RequestFromClient.meta", Arg(ReqT, p1), << >>, p1, << >>)>>)
        /\ ask' = [p |-> p1, meta |-> m]
  /\ at' = "send" /\ NextTurn /\ UNCHANGED <<asked, got, round>>
(* It travels to the server, which reads it, its metadata, the responses and the state.          *)
ParamField(p, r) == IF r \in DOMAIN p[3][2] THEN p[3][2][r] ELSE None
Send ==
  /\ at = "send"
  /\ LET p == E1("RequestFromClient", ask.p) id == Some(Spin(IdVals, turn))
         b == BuildStep("Client", p, id) m == Msg("Client", p, id).v[2]
         take == TakeSteps("Client", m, Len(steps) + 1, SrcOf(Len(steps) + 1))
         md == OutOf(Len(steps) + 1, <<"Ok", "params", "_meta">>)
         reads == [i \in 1..3 |-> LET n == <<"traceparent", "tracestate", "baggage">>[i] IN
                     CallStep("RequestMetaObject." \o n, md, << >>, ask.meta, << >>)]
         rs == ParamField(ask.p, "input_responses")
         rd == OutOf(Len(steps) + 1, <<"Ok", "params", "inputResponses">>)
         lens == IF rs = None THEN << >>
                 ELSE <<CallStep("InputResponses.len", rd, << >>, rs[2], << >>), CallStep("InputResponses.is_empty", rd, << >>, rs[2], << >>)>>
     IN /\ Add(<<b>> \o take \o reads \o lens)
        /\ got' = LET d == Dec(MsgT("Client"), Enc(MsgT("Client"), m))[2] q == PayloadOf(d[3]).v IN
                  [responses |-> IF "input_responses" \in DOMAIN q[2] THEN q[2].input_responses ELSE None,
                   state |-> IF "request_state" \in DOMAIN q[2] THEN q[2].request_state ELSE None]
  /\ at' = "server" /\ NextTurn /\ UNCHANGED <<ask, asked, round>>

ServerSends(r, more, nat) ==
  LET p == E1("ServerResult", r) id == Some(Spin(IdVals, turn + 1))
      q == IF p[2] \in AltNames(Payload("Server")) THEN p ELSE E1("ResultFromServer", r)
      b == BuildStep("Server", q, id) m == Msg("Server", q, id).v[2]
      n == Len(steps) + Len(more) + 1
      res == OutOf(n, <<"Ok", "result">>)
  IN /\ Add(more \o <<b>> \o TakeSteps("Server", m, n, SrcOf(n))
            \o [i \in 1..3 |-> CallStep("ServerResult." \o <<"is_input_required", "is_complete", "as_input_required">>[i], res, << >>, r, << >>)])
     /\ at' = nat
(* The server needs input ...                                                                    *)
NeedInput ==
  /\ at = "server" /\ round < Rounds /\ ask.p[2] \in InputReq
  /\ LET irs == RequestsAt(turn) st == Spin(States, turn \div 7)
         r0 == [StructN("InputRequiredResult", Empty) EXCEPT ![2].result_type = S("input_required")]
         cs == (IF irs[2] = Empty /\ turn % 2 = 0 THEN << >> ELSE <<<<"with_input_requests", irs>>>>)
               \o (IF st = None THEN << >> ELSE <<<<"with_request_state", st[2]>>>>)
         cs2 == IF turn % 2 = 1 THEN Reverse(cs) ELSE cs
         r == Built("InputRequiredResult", r0, cs2)
     IN /\ ServerSends(E1("InputRequiredResult", r), <<ChainStep("InputRequiredResult", r0, cs2)>>, "answer")
        /\ asked' = r
  /\ round' = round + 1 /\ NextTurn /\ UNCHANGED <<ask, got>>
(* ... or is done.                                                                                *)
Complete ==
  /\ at = "server"
  /\ LET name == IF Len(ask.p[2]) > 7 THEN SubSeq(ask.p[2], 1, Len(ask.p[2]) - 7) \o "Result" ELSE "Result"
         own == SelectSeq(List("Response", "Server"), LAMBDA q : q[3][2] = name)
         any == SelectSeq(List("Response", "Server"), LAMBDA q : q[3][2] # "InputRequiredResult")
     IN ServerSends((Spin(IF own = << >> THEN any ELSE own, turn))[3], << >>, "end")
  /\ NextTurn /\ UNCHANGED <<ask, asked, got, round>>
(* The client looks at every key, answers each, and asks again with the state as it came.        *)
AnswerInput ==
  /\ at = "answer"
  /\ LET n == Len(steps)
         irs == asked[2].input_requests
         m == IF irs = None THEN <<"M", Empty>> ELSE irs[2]
         docI == Arg(Ref("InputRequests"), m)
         ks == KeyIx(m)
         look == <<CallStep("InputRequests.len", docI, << >>, m, << >>), CallStep("InputRequests.is_empty", docI, << >>, m, << >>),
                   CallStep("InputRequests.keys", docI, << >>, m, << >>), CallStep("InputRequests.iter", docI, << >>, m, << >>)>>
                 \o [i \in DOMAIN ks |-> CallStep("InputRequests.get", docI, <<S(ks[i])>>, m, <<S(ks[i])>>)]
                 \o <<CallStep("InputRequests.get", docI, <<S("no such key")>>, m, <<S("no such key")>>)>>
                 \o Cat([i \in DOMAIN ks |-> LET q == m[2][ks[i]] dq == Arg(Ref("InputRequest"), q) IN
                      [j \in 1..3 |-> CallStep("InputRequest." \o <<"as_create_message", "as_list_roots", "as_elicit">>[j], dq, << >>, q, << >>)]])
         cs == ResponsesTo(m, turn)
         r0 == <<"M", Empty>>
         r == Built("InputResponses", r0, cs)
         st == asked[2].request_state
         j == n + Len(look) + 1
         w == CallStep("RequestFromClient.with_input_responses", Arg(ReqT, ask.p), <<OutOf(j, << >>), Arg(<<"opt", <<"str">>>>, st)>>, ask.p, <<r, st>>)
         p2 == Call(ByName("RequestFromClient.with_input_responses"), ask.p, <<r, st>>).v[2]
     IN /\ Add(look \o <<ChainStep("InputResponses", r0, cs), w, CallStep("RequestFromClient.meta", Arg(ReqT, p2), << >>, p2, << >>)>>)
        /\ ask' = [ask EXCEPT !.p = p2]
  /\ at' = "send" /\ NextTurn /\ UNCHANGED <<asked, got, round>>
(* Requests that cannot carry responses refuse them.                                             *)
RefuseResponses ==
  /\ at = "server" /\ ask.p[2] \notin InputReq
  /\ Add(<<CallStep("RequestFromClient.with_input_responses", Arg(ReqT, ask.p), <<<<"M", Empty>>, Arg(<<"opt", <<"str">>>>, Some(S("s")))>>,
                    ask.p, <<<<"M", Empty>>, Some(S("s"))>>)>>)
  /\ at' = "end" /\ NextTurn /\ UNCHANGED <<ask, asked, got, round>>
Finish == /\ at = "end" /\ PrintT(ToJson([op |-> "conv", steps |-> steps]))
          /\ at' = "over" /\ UNCHANGED <<steps, ask, asked, got, round, turn>>
Next == (\E c \in 1..2 : Compose(c)) \/ Send \/ NeedInput \/ Complete \/ AnswerInput \/ RefuseResponses \/ Finish
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------ properties --------------- *)
(* What the server reads is what it asked for: every key answered by a response of its kind, and  *)
(* its own state back; and the metadata is what the client set.                                   *)
Echo == at = "server" /\ round > 0 =>
  /\ got.state = asked[2].request_state
  /\ LET m == IF asked[2].input_requests = None THEN Empty ELSE asked[2].input_requests[2][2] IN
     /\ got.responses # None /\ DOMAIN got.responses[2][2] = DOMAIN m
     /\ \A k \in DOMAIN m : SubSeq(m[k][2], 1, Len(m[k][2]) - 7) = SubSeq(got.responses[2][2][k][2], 1, Len(got.responses[2][2][k][2]) - 6)
MetaKept == at \in {"send", "server", "answer"} => ask.p[3][2].meta = ask.meta
=============================================================================
