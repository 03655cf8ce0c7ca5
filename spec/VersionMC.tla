------------------------------- MODULE VersionMC -------------------------------
(* The names of the protocol versions: which texts are names, how names and versions relate and  *)
(* are ordered, the version and the codes each schema reports, and how a client and a server     *)
(* settle on a version by name.                                                                   *)
EXTENDS Steps

CONSTANTS This,              \* name of the version of this schema
          Edits,             \* a text is at most that many edits away from a name
          Stride, Offset,    \* of the texts several edits away: which share is tried
          Part               \* "names" or "codes"

VARIABLES todo, text, from, n, done
vars == <<todo, text, from, n, done>>

Known == <<<<"2024-11-05", "V2024_11_05">>, <<"2025-03-26", "V2025_03_26">>, <<"2025-06-18", "V2025_06_18">>,
           <<"2025-11-25", "V2025_11_25">>, <<"2026-07-28", "V2026_07_28">>, <<"DRAFT", "Draft">>>>
Names == {Known[i][1] : i \in DOMAIN Known}
VersionOf(t) == LET i == CHOOSE k \in DOMAIN Known : Known[k][1] = t IN <<"U", Known[i][2]>>
Stable == SelectSeq(Known, LAMBDA x : x[1] # "DRAFT")
LatestV == Stable[Len(Stable)]
Choose(t) == IF t \in Names THEN t ELSE LatestV[1]

(* ------------------------------------------------------------ texts -------------------- *)
Chars == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "-", "_", " ", ".", "/", "D", "d", "v", "V", "t", "R"}
Del(t, i) == SubSeq(t, 1, i - 1) \o SubSeq(t, i + 1, Len(t))
Over(t, i, c) == SubSeq(t, 1, i - 1) \o c \o SubSeq(t, i + 1, Len(t))
Ins(t, i, c) == SubSeq(t, 1, i) \o c \o SubSeq(t, i + 1, Len(t))
Swap(t, i) == SubSeq(t, 1, i - 1) \o SubSeq(t, i + 1, i + 1) \o SubSeq(t, i, i) \o SubSeq(t, i + 2, Len(t))
Edited(t) ==
  {Del(t, i) : i \in 1..Len(t)}
  \cup UNION {{Over(t, i, c) : c \in Chars} : i \in 1..Len(t)}
  \cup UNION {{Ins(t, i, c) : c \in Chars} : i \in 0..Len(t)}
  \cup {Swap(t, i) : i \in 1..Len(t) - 1}
Odd == {"", " ", "$U", "$L", "null", "latest", "Draft", "draft", "DRAFT-2026", "V2024_11_05", "2024_11_05", "\n2025-06-18", "2025-06-18\n",
        "2025-06-18 ", "\t2025-06-18", "2025-6-18", "2025-06-18T00:00:00", "20250618", "2025/06/18", "18-06-2025", "DRAFT2", "DRAFTDRAFT",
        "2024-10-07", "2026-01-26", "2025-06-18,2025-11-25", "+2025-06-18", "-2025-06-18", "1.0", "2.0"}
CharSeq == SetToSeq(Chars)
CharIx == [c \in Chars |-> CHOOSE k \in DOMAIN CharSeq : CharSeq[k] = c]
CharNo(c) == IF c \in Chars THEN CharIx[c] ELSE 0
RECURSIVE Sum(_, _)
Sum(t, i) == IF i = 0 THEN 7 ELSE ((31 * Sum(t, i - 1)) + (i * CharNo(SubSeq(t, i, i)))) % 100003

(* ------------------------------------------------------------ steps -------------------- *)
Ver(f, a, r) == [op |-> "version", f |-> f, a |-> a, v |-> r.v, o |-> r.o, k |-> ""]
ParseStep(t) == Ver("parse", <<S(t)>>, Val(IF t \in Names THEN <<"ok", VersionOf(t)>> ELSE <<"err">>))
U(v) == <<"U", v>>
Before(i, j) == IF i < j THEN "Less" ELSE IF i = j THEN "Equal" ELSE "Greater"
Facts ==
  [i \in DOMAIN Known |-> Ver("print", <<U(Known[i][2])>>, StrR(S(Known[i][1])))]
  \o [i \in DOMAIN Known |-> Ver("into", <<U(Known[i][2])>>, StrR(S(Known[i][1])))]
  \o Cat([i \in DOMAIN Known |-> [j \in DOMAIN Known |-> Ver("order", <<U(Known[i][2]), U(Known[j][2])>>, StrR(S(Before(i, j))))]])
  \o <<Ver("latest", << >>, Val(U(LatestV[2])))>>
  \o <<Ver("supported", <<B(FALSE)>>, Val(<<"bag", [i \in DOMAIN Stable |-> U(Stable[i][2])]>>)),
       Ver("supported", <<B(TRUE)>>, Val(<<"bag", [i \in DOMAIN Known |-> U(Known[i][2])]>>))>>
Consts(c) == [op |-> "consts", v |-> c, o |-> << >>, k |-> ""]
Reported == <<<<"LATEST_PROTOCOL_VERSION", S(This)>>>>
Codes == <<<<"JSONRPC_VERSION", S("2.0")>>, <<"PARSE_ERROR", I("-32700")>>, <<"INVALID_REQUEST", I("-32600")>>,
           <<"METHOD_NOT_FOUND", I("-32601")>>, <<"INVALID_PARAMS", I("-32602")>>, <<"INTERNAL_ERROR", I("-32603")>>>>
         \o (IF This = "2025-11-25" THEN <<<<"URL_ELICITATION_REQUIRED", I("-32042")>>>> ELSE << >>)
         \o (IF This = "2026-07-28" THEN <<<<"HEADER_MISMATCH", I("-32020")>>, <<"MISSING_REQUIRED_CLIENT_CAPABILITY", I("-32021")>>,
                                           <<"UNSUPPORTED_PROTOCOL_VERSION", I("-32022")>>>> ELSE << >>)

(* A client asks for a version by name, the server chooses, the client reads the choice.          *)
Lift(sd, o, v) == LiftBy(Path(Ref(o), Payload(sd), 5), v)
First(s) == s[1]
InitReq(t) ==
  LET o == IF Old THEN "InitializeRequest" ELSE "InitializeRequestParams"
      v == First(TV(Ref(o)))
      w == IF Old THEN [v EXCEPT ![2].params[2].protocol_version = S(t)] ELSE [v EXCEPT ![2].protocol_version = S(t)]
  IN IF Old THEN Lift("Client", o, w) ELSE E1("RequestFromClient", E1("InitializeRequest", w))
Exchange(sd, p, oid, k) ==
  LET b == BuildStep(sd, p, oid) m == Msg(sd, p, oid).v[2] IN
  <<b, ReadStep(sd \o "Message", OutOf(k + 1, <<"Ok">>), m)>>
Negotiate(t) ==
  LET x == Exchange("Client", InitReq(t), Some(IdVals[1]), 0)
      ch == Ver("choose", <<OutOf(1, <<"Ok", "params", "protocolVersion">>)>>, StrR(S(Choose(t))))
      r == [First(TV(Ref("InitializeResult"))) EXCEPT ![2].protocol_version = S(Choose(t))]
      y == Exchange("Server", Lift("Server", "InitializeResult", r), Some(IdVals[1]), 3)
      back == [ParseStep(Choose(t)) EXCEPT !.a = <<OutOf(4, <<"Ok", "result", "protocolVersion">>)>>]
  IN [op |-> "conv", steps |-> x \o <<ch>> \o y \o <<back>>]

Say(r) == PrintT(ToJson(r))
Init == /\ todo = "facts" /\ text = "" /\ from = "" /\ n = 0 /\ done = FALSE
Tell == /\ todo = "facts"
        /\ IF Part = "codes" THEN Say(Consts(Codes)) ELSE Say(Consts(Reported)) /\ \A i \in DOMAIN Facts : Say(Facts[i])
        /\ todo' = (IF Part = "codes" THEN "over" ELSE "text") /\ UNCHANGED <<text, from, n, done>>
Pick == /\ todo = "text"
        /\ \E t \in Names \cup Odd : text' = t /\ from' = t
        /\ todo' = "parse" /\ n' = 0 /\ done' = FALSE
Parse == /\ todo = "parse" /\ ~done
         /\ Say(ParseStep(text)) /\ (IF n <= 1 /\ ~Stateless /\ (n = 0 \/ Len(text) = 10) /\ (n = 0 \/ Sum(text, Len(text)) % 3 = 0)
                                     THEN Say(Negotiate(text)) ELSE TRUE)
         /\ done' = TRUE /\ UNCHANGED <<todo, text, from, n>>
Edit == /\ todo = "parse" /\ done /\ n < Edits /\ from \in Names
        /\ \E t \in Edited(text) : text' = t /\ (n = 0 \/ Sum(t, Len(t)) % Stride = Offset)
        /\ n' = n + 1 /\ done' = FALSE /\ UNCHANGED <<todo, from>>
Next == Tell \/ Pick \/ Parse \/ Edit
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------ properties --------------- *)
(* Names and versions are in step, whatever is chosen is a name, and no proper edit of a name is   *)
(* the same version.                                                                              *)
OneToOne == \A i, j \in DOMAIN Known : (Known[i][1] = Known[j][1]) = (Known[i][2] = Known[j][2])
ChosenKnown == todo = "parse" => Choose(text) \in Names /\ (text \in Names => Choose(text) = text)
=============================================================================
