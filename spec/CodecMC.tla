------------------------------ MODULE CodecMC -------------------------------
(* The codec as a system of one wire and one typed object: a document is put on the wire,     *)
(* decoded, the typed value is encoded again and that encoding is decoded once more.  TLC     *)
(* walks the enumerated documents of every type, checks the codec properties on the model     *)
(* and prints each step; the harness performs the same steps with the real types.             *)
EXTENDS Gen, Json

CONSTANTS Family,      \* "valid" or "mutant" documents
          Group,       \* which types: see Groups
          Stride, Offset   \* of the bulky wrapper types only every Stride-th case is taken

Wrappers == {"ClientRequest", "ClientNotification", "ClientResult", "ClientMessage", "ClientMessages",
  "ServerRequest", "ServerNotification", "ServerResult", "ServerMessage", "ServerMessages",
  "RequestFromClient", "RequestFromServer", "NotificationFromClient", "NotificationFromServer",
  "ResultFromClient", "ResultFromServer", "MessageFromClient", "MessageFromServer",
  "MessagesFromClient", "MessagesFromServer", "ClientJsonrpcRequest", "ServerJsonrpcRequest",
  "ClientJsonrpcNotification", "ServerJsonrpcNotification", "ClientJsonrpcResponse",
  "ServerJsonrpcResponse", "JsonrpcMessage"}

Requests == {"ClientRequest", "ServerRequest", "RequestFromClient", "RequestFromServer", "ClientJsonrpcRequest", "ServerJsonrpcRequest"}
Notifs == {"ClientNotification", "ServerNotification", "NotificationFromClient", "NotificationFromServer",
  "ClientJsonrpcNotification", "ServerJsonrpcNotification"}
Responses == {"ClientJsonrpcResponse", "ServerJsonrpcResponse", "JsonrpcResponse", "JsonrpcError", "JsonrpcErrorResponse", "JsonrpcResultResponse"}
Batched == {"ClientMessages", "ServerMessages", "MessagesFromClient", "MessagesFromServer"}
HasMember(n, r) == Types[n].k = "struct" /\ \E i \in DOMAIN Types[n].f : Types[n].f[i].n = r
EndsIn(n, x) == Len(n) >= Len(x) /\ SubSeq(n, Len(n) - Len(x) + 1, Len(n)) = x
InGroup(n) ==
  CASE Group = "all" -> TRUE
    [] Group = "messages" -> n \in {"ClientMessage", "ServerMessage", "JsonrpcMessage", "MessageFromClient", "MessageFromServer"} \cup Responses
    [] Group = "methods" -> n \in Requests \cup Notifs \cup {"ClientMessage", "ServerMessage"}
    [] Group = "results" -> n \in {"ClientResult", "ServerResult", "ResultFromClient", "ResultFromServer"} \cup Responses \/ EndsIn(n, "Result")
    [] Group = "envelopes" -> n \in Responses \cup {"ClientJsonrpcRequest", "ServerJsonrpcRequest", "ClientJsonrpcNotification",
                                 "ServerJsonrpcNotification", "JsonrpcMessage"} \/ HasMember(n, "jsonrpc")
    [] Group = "batches" -> n \in Batched
Chosen == {n \in DOMAIN Types : InGroup(n)}

AllOf(n) == IF Family = "valid" THEN Valid(n)
            ELSE RootKinds(n) \o Mutants(n)
Key(c) == c.l \in {"min", "full", "without", "null", "drop", "root", "const"}
Pick(s, P(_)) == LET ix == SetToSortSeq({i \in DOMAIN s : P(i)}, <) IN [k \in DOMAIN ix |-> s[ix[k]]]
ThinW(s) == Pick(s, LAMBDA i : i % Stride = Offset % Stride \/ (Key(s[i]) /\ i % 3 = Offset % 3))
(* Computed once, shared by the workers.                                                      *)
ASSUME TLCSet(7, TLCEval([n \in Chosen |-> IF n \in Wrappers THEN ThinW(AllOf(n)) ELSE AllOf(n)]))
CaseTab == TLCGet(7)

(* ------------------------------------------------------------------ properties ---------- *)
RECURSIVE Same(_, _)
(* o is d up to optional members written as null or [] and the rendering of whole floats.     *)
Same(d, o) ==
  CASE d[1] = "o" -> /\ o[1] = "o" /\ \A k \in DOMAIN o[2] \ DOMAIN d[2] : k = "data" /\ o[2][k] = Z
                     /\ \A k \in DOMAIN d[2] :
                          IF k \in DOMAIN o[2] THEN Same(d[2][k], o[2][k])
                          ELSE d[2][k] \in {Z, A(<< >>), EO}
    [] d[1] = "a" -> o[1] = "a" /\ Len(d[2]) = Len(o[2]) /\ \A i \in DOMAIN d[2] : Same(d[2][i], o[2][i])
    [] d[1] = "n" -> o[1] = "n" /\ d[4] = o[4]
    [] OTHER -> d = o

(* The parameter-only unions of 2025-11-25 and later have no method to tell their             *)
(* alternatives apart: some documents fit several.  Their number of readings:                 *)
ParamUnions == IF SchemaVersion \in {"2025_11_25", "2026_07_28", "draft"}
  THEN {"RequestFromClient", "RequestFromServer", "NotificationFromClient", "NotificationFromServer",
        "MessageFromClient", "MessageFromServer", "ResultFromClient", "ResultFromServer"} \cap DOMAIN Types
  ELSE {}
RECURSIVE Readings(_, _)
RECURSIVE SumR(_, _, _)
SumR(vs, d, i) ==
  IF i > Len(vs) THEN 0
  ELSE LET v == vs[i]
           one == IF v.k = "sv" THEN (IF IsOk(DecStruct(v.f, d)) THEN 1 ELSE 0)
                  ELSE IF v.t[1] = "ref" /\ v.t[2] \in ParamUnions THEN Readings(v.t[2], d)
                  ELSE IF v.t[1] = "vec" /\ v.t[2][1] = "ref" /\ v.t[2][2] \in ParamUnions /\ d[1] = "a"
                       THEN (IF \A k \in DOMAIN d[2] : Readings(v.t[2][2], d[2][k]) = 1 THEN 1
                             ELSE IF \E k \in DOMAIN d[2] : Readings(v.t[2][2], d[2][k]) = 0 THEN 0 ELSE 2)
                  ELSE IF IsOk(Dec(v.t, d)) THEN 1 ELSE 0
       IN one + SumR(vs, d, i + 1)
Readings(n, d) == IF Types[n].k = "untag" THEN SumR(Types[n].v, d, 1) ELSE IF IsOk(Dec(Ref(n), d)) THEN 1 ELSE 0
FromUnions == ParamUnions \cup (IF ParamUnions = {} THEN {} ELSE {"MessagesFromClient", "MessagesFromServer"})
Clear(n, d) == n \notin FromUnions \/ Readings(n, d) <= 1

(* Known findings, see DESIGN.md.                                                             *)
(* K1: old-style custom messages put their whole raw document under "params" again.           *)
Customs == {"CustomRequest", "CustomNotification"}
RECURSIVE HoldsCustom(_)
HoldsCustom(v) ==
  CASE v[1] = "E" -> HoldsCustom(v[3])
    [] v[1] = "V" -> \E i \in DOMAIN v[2] : HoldsCustom(v[2][i])
    [] v[1] = "S" -> \/ "request" \in DOMAIN v[2] /\ v[2].request[1] = "E" /\ v[2].request[2] \in Customs
                     \/ "notification" \in DOMAIN v[2] /\ v[2].notification[1] = "E" /\ v[2].notification[2] \in Customs
    [] OTHER -> FALSE
K1(v) == SchemaVersion \in {"2024_11_05", "2025_03_26", "2025_06_18"} /\ HoldsCustom(v)
(* K2: a titled enumeration (enum with enumNames) is read as an untitled one.                 *)
RECURSIVE HasTitles(_)
HasTitles(d) ==
  CASE d[1] = "o" -> \/ {"enum", "enumNames"} \subseteq DOMAIN d[2]
                     \/ \E k \in DOMAIN d[2] : HasTitles(d[2][k])
    [] d[1] = "a" -> \E i \in DOMAIN d[2] : HasTitles(d[2][i])
    [] OTHER -> FALSE
K2(n, d) == /\ SchemaVersion \in {"2025_11_25", "2026_07_28", "draft"} /\ n # "LegacyTitledEnumSchema"
            /\ HasTitles(d)
(* K3: the standard error objects take any code.                                              *)
FixedCode == [ParseError |-> "-32700", InvalidRequestError |-> "-32600", MethodNotFoundError |-> "-32601",
              InvalidParamsError |-> "-32602", InternalError |-> "-32603"]
K3(n, d) == /\ SchemaVersion \in {"2026_07_28", "draft"} /\ n \in DOMAIN FixedCode
            /\ ~(Has(d, "code") /\ Get(d, "code")[1] = "n" /\ Get(d, "code")[3] = FixedCode[n])
Known(n, d, r) == IF ~IsOk(r) THEN "" ELSE IF K1(r[2]) THEN "K1" ELSE IF K2(n, d) THEN "K2"
                  ELSE IF K3(n, d) THEN "K3" ELSE ""

VARIABLES ty, ix, wire, val, out, again
vars == <<ty, ix, wire, val, out, again>>

Step(n, i) ==
  LET c == CaseTab[n][i]
      r == Dec(Ref(n), c.d)
      o == IF IsOk(r) THEN Enc(Ref(n), r[2]) ELSE Z
      r2 == IF IsOk(r) THEN Dec(Ref(n), o) ELSE Err
  IN /\ wire' = c /\ val' = r /\ out' = o /\ again' = r2
     /\ PrintT(ToJson([op |-> "codec", t |-> n, l |-> c.l, d |-> c.d, ok |-> IsOk(r),
                       v |-> IF IsOk(r) THEN r[2] ELSE None, o |-> o, k |-> Known(n, c.d, r),
                       clear |-> Clear(n, c.d), fix |-> IsOk(r) /\ r2 = r]))

Init == /\ ty \in Chosen /\ ix = 0
        /\ wire = C("none", Z) /\ val = Err /\ out = Z /\ again = Err
Next == /\ ix < Len(CaseTab[ty])
        /\ ix' = ix + 1 /\ ty' = ty
        /\ Step(ty, ix + 1)
Spec == Init /\ [][Next]_vars

Conforming == wire.l \notin {"none", "lenient"} /\ Family = "valid"
Free == Known(ty, wire.d, val) = "" /\ Clear(ty, wire.d)
ValidAccepted == Conforming => IsOk(val)
Lossless == Conforming /\ IsOk(val) /\ Free => Same(wire.d, out)
Fixpoint == wire.l # "none" /\ IsOk(val) /\ Free /\ Clear(ty, out) => IsOk(again) /\ again = val
ConstEnforced == wire.l = "const" /\ Types[ty].k = "struct" => ~IsOk(val)
DropRefused == wire.l = "drop" /\ Types[ty].k = "struct" => ~IsOk(val)
=============================================================================
