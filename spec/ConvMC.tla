-------------------------------- MODULE ConvMC --------------------------------
(* Two peers, a client and a server, talking through the library.  Each peer builds its          *)
(* messages with the library, encodes them and hands the text over; the other peer decodes it,   *)
(* classifies it and takes id, method and payload out of it.  The state is what each peer has    *)
(* outstanding, what it still has to answer, what is on its way and what the handshake settled;  *)
(* steps is the list of library calls made so far.                                               *)
EXTENDS Steps

CONSTANTS Budget,            \* messages the peers start on their own
          Width,             \* how many payloads are tried at a time
          Starts             \* initial states: starting points in the lists of payloads

VARIABLES steps, wire, out, pend, sess, turn, sent
vars == <<steps, wire, out, pend, sess, turn, sent>>

(* The result that answers a request: by name, otherwise the general one.                        *)
ResName(rn) == IF Len(rn) > 7 THEN SubSeq(rn, 1, Len(rn) - 7) \o "Result" ELSE "Result"
Answers(sd, rn) ==
  LET own == SelectSeq(List("Response", sd), LAMBDA p : AltName(p) = ResName(rn))
      gen == SelectSeq(List("Response", sd), LAMBDA p : AltName(p) \in {"Result", "GetTaskPayloadResult"})
  IN IF own # << >> THEN own ELSE IF gen # << >> THEN gen ELSE List("Response", sd)

(* The handshake's messages.                                                                     *)
Spin(s, k) == s[1 + (k % Len(s))]
CapsAt(o, k) == Spin(CapVals(o), k)
Lift(sd, n, v) == LiftBy(Path(Ref(n), Payload(sd), 5), v)
InitReq(k) ==
  LET t == IF Old THEN "InitializeRequest" ELSE "InitializeRequestParams"
      v == Spin(SelectSeq(TV(Ref(t)), LAMBDA x : TRUE), k)
      w == IF Old THEN [v EXCEPT ![2].params[2].capabilities = CapsAt("ClientCapabilities", k)]
           ELSE [v EXCEPT ![2].capabilities = CapsAt("ClientCapabilities", k)]
  IN IF Old THEN Lift("Client", t, w) ELSE E1("RequestFromClient", E1("InitializeRequest", w))
InitRes(k) == LET v == Spin(TV(Ref("InitializeResult")), k) IN
  Lift("Server", "InitializeResult", [v EXCEPT ![2].capabilities = CapsAt("ServerCapabilities", 3 * k)])
Initd == IF Old THEN Lift("Client", "InitializedNotification", Spin(TV(Ref("InitializedNotification")), 1))
         ELSE E1("NotificationFromClient", E1("InitializedNotification", None))
InitParams(w) == IF Old THEN w[2].request[3][3][2].params ELSE PayloadOf(w).v

(* ------------------------------------------------------------ the conversation --------- *)
NextTurn == turn' = (turn * 75 + 74) % 65537
IdPool == <<IdVals[1], IdVals[2], IdVals[3], IdVals[4], IdVals[7]>>
Free(sd) == SelectSeq(IdPool, LAMBDA x : x \notin DOMAIN out[sd])
Ready(sd) == Stateless \/ sess[sd] = "ready"
Ship(sd, i, m) == wire' = [wire EXCEPT ![sd] = Append(@, [i |-> i, path |-> <<"Ok">>, m |-> m])]
CapsOf(sd) == sd \o "Capabilities"
GateName(sd) == CapsOf(sd) \o ".can_handle_request"

Init ==
  /\ steps = << >> /\ wire = [sd \in Sides |-> << >>] /\ out = [sd \in Sides |-> Empty] /\ pend = [sd \in Sides |-> << >>]
  /\ sess = [Client |-> IF Stateless THEN "ready" ELSE "new", Server |-> IF Stateless THEN "ready" ELSE "new",
             ClientHas |-> None, ServerHas |-> None]
  /\ turn \in {(k * 7919 + 13) % 65537 : k \in Starts} /\ sent = 0

(* A peer may ask the other only what the other declared in the handshake.                       *)
GateSteps(sd, p, w) ==
  LET pr == Peer(sd) g == GateName(pr) has == IF sd = "Client" THEN sess.ClientHas ELSE sess.ServerHas IN
  IF ~Stateless /\ g \in FnNames /\ has # None
  THEN <<CallStep(g, Arg(Ref(CapsOf(pr)), has), <<Arg(Ref(sd \o "JsonrpcRequest"), w)>>, has, <<w>>)>> ELSE << >>
SendRequest(sd, c) ==
  /\ Ready(sd) /\ sent < Budget /\ HasReq(sd) /\ Free(sd) # << >>
  /\ LET p == Spin(List("Request", sd), turn + c * 31)
         id == Free(sd)[1 + (turn \div 64 % (IF Len(Free(sd)) > 2 THEN 2 ELSE Len(Free(sd))))]
         b == BuildStep(sd, p, Some(id))
         m == Msg(sd, p, Some(id)).v[2]
         g == GateSteps(sd, p, m[3])
         fine == g = << >> \/ IsOk(g[1].v)
     IN IF fine THEN /\ steps' = steps \o g \o <<b>>
                     /\ Ship(sd, Len(steps) + Len(g) + 1, m)
                     /\ out' = [out EXCEPT ![sd] = (id :> AltName(p)) @@ @]
        ELSE /\ steps' = steps \o g /\ UNCHANGED <<wire, out>>
  /\ sent' = sent + 1 /\ NextTurn /\ UNCHANGED <<pend, sess>>
SendNotification(sd, c) ==
  /\ Ready(sd) /\ sent < Budget /\ List("Notification", sd) # << >>
  /\ LET p == Spin(List("Notification", sd), turn + c * 31) IN
     /\ steps' = Append(steps, BuildStep(sd, p, None))
     /\ Ship(sd, Len(steps) + 1, Msg(sd, p, None).v[2])
  /\ sent' = sent + 1 /\ NextTurn /\ UNCHANGED <<out, pend, sess>>
(* Two messages still on their way travel as one batch.                                          *)
Batched == "ClientMessages" \in DOMAIN Types
Pack(sd) ==
  /\ Batched /\ Len(wire[sd]) >= 2 /\ Ready(sd)
  /\ LET k == Len(wire[sd]) x == wire[sd][k - 1] y == wire[sd][k] o == sd \o "Messages"
         n == o \o ".From<Vec<" \o sd \o "Message>>" IN
     /\ x.path = <<"Ok">> /\ y.path = <<"Ok">>
     /\ steps' = Append(steps, CallStep(n, NoRecv, <<<<"V", <<OutOf(x.i, x.path), OutOf(y.i, y.path)>>>>>>, None, <<<<"V", <<x.m, y.m>>>>>>))
     /\ wire' = [wire EXCEPT ![sd] = SubSeq(@, 1, k - 2) \o <<[i |-> Len(steps) + 1, path |-> << >>, m |-> E1("Batch", <<"V", <<x.m, y.m>>>>)]>>]
  /\ NextTurn /\ UNCHANGED <<out, pend, sess, sent>>

(* Effect of a received message on the receiver sd.                                              *)
Absorb(sd, ms) ==
  LET reqs == SelectSeq(ms, LAMBDA m : KindOf(m) = "Request")
      ans == {i \in DOMAIN ms : KindOf(ms[i]) \in {"Response", "Error"}}
      ids == {LET x == IdIn(Peer(sd) \o "Message", ms[i]) IN x[2] : i \in ans}
  IN /\ pend' = [pend EXCEPT ![sd] = @ \o [i \in DOMAIN reqs |-> [id |-> IdIn(Peer(sd) \o "Message", reqs[i])[2],
                    n |-> IF Old THEN reqs[i][3][2].request[3][2] ELSE LET q == PayloadOf(reqs[i][3]) IN IF q.n = "custom" THEN "CustomRequest" ELSE q.n]]]
     /\ out' = [out EXCEPT ![sd] = [x \in DOMAIN @ \ ids |-> @[x]]]
(* An answer is matched by its id with the requests that are outstanding.                        *)
MatchSteps(sd, m, src) ==
  IF KindOf(m) \notin {"Response", "Error"} THEN << >>
  ELSE LET ids == SetToSeq(DOMAIN out[sd]) IN
    <<CallStep("RequestId.find", NoRecv, <<Arg(<<"vec", IdT>>, <<"V", ids>>), OutOf(src[2], src[3] \o <<"id">>)>>,
               None, <<<<"V", ids>>, IdIn(Peer(sd) \o "Message", m)[2]>>)>>
Receive(sd) ==
  LET pr == Peer(sd) IN
  /\ wire[pr] # << >>
  /\ LET x == Head(wire[pr]) src == OutOf(x.i, x.path) o == pr \o "Messages" IN
     IF x.m[2] = "Batch" THEN
       LET ms == x.m[3][2]
           read == <<ReadStep(o, src, x.m), CallStep(o \o ".is_batch", src, << >>, x.m, << >>),
                     CallStep(o \o ".includes_request", src, << >>, x.m, << >>), CallStep(o \o ".as_batch", src, << >>, x.m, << >>)>>
           base == Len(steps) + Len(read)
           one == TakeSteps(pr, ms[1], base, OutOf(base, <<"Ok", 0>>))
           two == TakeSteps(pr, ms[2], base + Len(one), OutOf(base, <<"Ok", 1>>))
                  \o MatchSteps(sd, ms[1], OutOf(base, <<"Ok", 0>>)) \o MatchSteps(sd, ms[2], OutOf(base, <<"Ok", 1>>))
       IN steps' = steps \o read \o one \o two /\ Absorb(sd, ms) /\ UNCHANGED sess
     ELSE /\ steps' = steps \o TakeSteps(pr, x.m, Len(steps), src) \o MatchSteps(sd, x.m, src)
          /\ Absorb(sd, <<x.m>>)
          /\ sess' = IF Stateless THEN sess
                     ELSE IF sd = "Server" /\ IsInit("ClientMessage", x.m)
                     THEN [sess EXCEPT !.Server = "asked", !.ServerHas = InitParams(x.m[3])[2].capabilities]
                     ELSE IF sd = "Client" /\ sess.Client = "asked" /\ KindOf(x.m) = "Response"
                     THEN LET r == x.m[3][2].result res == IF r[3][1] = "E" THEN r[3][3] ELSE r[3] IN
                          [sess EXCEPT !.Client = "answered", !.ClientHas = res[2].capabilities]
                     ELSE IF sd = "Server" /\ IsInitd("ClientMessage", x.m) THEN [sess EXCEPT !.Server = "ready"]
                     ELSE sess
  /\ wire' = [wire EXCEPT ![pr] = Tail(@)] /\ NextTurn /\ UNCHANGED sent

RemoveAt1(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Respond(sd, k, c) ==      \* to the k-th pending request; c = 0 with an error
  /\ k \in DOMAIN pend[sd]
  /\ LET q == pend[sd][k]
         init == q.n = "InitializeRequest"
         p == IF init THEN InitRes(turn)
              ELSE IF c = 0 THEN Spin(List("Error", sd), turn) ELSE Spin(Answers(sd, q.n), turn + c * 31)
     IN /\ (init => c = 1)
        /\ steps' = Append(steps, BuildStep(sd, p, Some(q.id)))
        /\ Ship(sd, Len(steps) + 1, Msg(sd, p, Some(q.id)).v[2])
        /\ sess' = IF init THEN [sess EXCEPT !.Server = "answered"] ELSE sess
  /\ pend' = [pend EXCEPT ![sd] = RemoveAt1(@, k)]
  /\ NextTurn /\ UNCHANGED <<out, sent>>

Hello ==
  /\ sess.Client = "new"
  /\ LET p == InitReq(turn) id == Spin(IdPool, turn) IN
     /\ steps' = Append(steps, BuildStep("Client", p, Some(id)))
     /\ Ship("Client", Len(steps) + 1, Msg("Client", p, Some(id)).v[2])
     /\ out' = [out EXCEPT !.Client = (id :> "InitializeRequest") @@ @]
     /\ sess' = [sess EXCEPT !.Client = "asked"]
  /\ NextTurn /\ UNCHANGED <<pend, sent>>
HelloDone ==
  /\ sess.Client = "answered"
  /\ steps' = Append(steps, BuildStep("Client", Initd, None))
  /\ Ship("Client", Len(steps) + 1, Msg("Client", Initd, None).v[2])
  /\ sess' = [sess EXCEPT !.Client = "ready"]
  /\ NextTurn /\ UNCHANGED <<out, pend, sent>>

Quiet == \A sd \in Sides : wire[sd] = << >> /\ pend[sd] = << >>
Over == sent >= Budget /\ Quiet /\ Ready("Client") /\ Ready("Server")
Done == sent = Budget + 1
Finish == /\ Over /\ sent = Budget
          /\ PrintT(ToJson([op |-> "conv", steps |-> steps]))
          /\ sent' = Budget + 1 /\ UNCHANGED <<steps, wire, out, pend, sess, turn>>
Next == \/ Hello \/ HelloDone \/ Finish
        \/ \E sd \in Sides :
             \/ \E c \in 1..Width : SendRequest(sd, c) \/ SendNotification(sd, c)
             \/ Receive(sd) \/ Pack(sd)
             \/ \E k \in 1..3, c \in 0..Width : Respond(sd, k, c)
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------ properties --------------- *)
Flat(s) == Cat(Each(s, LAMBDA x : IF x.m[2] = "Batch" THEN x.m[3][2] ELSE <<x.m>>))
(* Every outstanding request is on its way, waiting for an answer, or its answer is on its way:  *)
(* exactly one of these.  Ids of the other direction play no part.                               *)
OneAnswer == \A sd \in Sides :
  LET pr == Peer(sd) to == Flat(wire[sd]) back == Flat(wire[pr])
      places(id) == Cardinality({i \in DOMAIN to : KindOf(to[i]) = "Request" /\ IdIn(sd \o "Message", to[i]) = Some(id)})
                    + Cardinality({i \in DOMAIN pend[pr] : pend[pr][i].id = id})
                    + Cardinality({i \in DOMAIN back : KindOf(back[i]) \in {"Response", "Error"} /\ IdIn(pr \o "Message", back[i]) = Some(id)})
  IN /\ \A id \in DOMAIN out[sd] : places(id) = 1
     /\ \A i \in DOMAIN back : KindOf(back[i]) \in {"Response", "Error"} => IdIn(pr \o "Message", back[i])[2] \in DOMAIN out[sd]
(* After the handshake each side knows what the other declared.                                  *)
Settled == ~Stateless /\ sess.Client = "ready" /\ sess.Server = "ready" => sess.ClientHas # None /\ sess.ServerHas # None
(* What was read last is what was built: every document is read as the message it was built from. *)
ReadAsBuilt == \A i \in DOMAIN steps : steps[i].op = "codec" =>
  LET d == steps[i].d b == steps[d[2]] IN
  b.op = "call" /\ d[3] = <<"Ok">> => b.v = <<"ok", steps[i].v>>
(* Every answer is found among the outstanding requests.                                         *)
AllFound == \A i \in DOMAIN steps : steps[i].op = "call" /\ steps[i].f = "RequestId.find" => steps[i].v[2][1] # None
AllAnswered == Done => \A sd \in Sides : out[sd] = Empty
=============================================================================
