------------------------------- MODULE Calls --------------------------------
(* The public functions of the library as operations on typed values: for every function of   *)
(* the inventory (module Api) the operator Call gives the value it must return.               *)
(*                                                                                             *)
(* A call is <<f, s, a>>: an entry of Api!Fns, the receiver (typed value, None when there is   *)
(* none) and the arguments (typed values).  Its outcome is [v |-> value, o |-> << >> or        *)
(* <<document the value encodes as>>]; Unspecified when the model says nothing.                *)
(*                                                                                             *)
(* Texts may be given as <<"cat", <<part, ..>>>>: the parts one after another; as <<"js", d>>: *)
(* any text of the JSON document d.                                                            *)
EXTENDS Gen, Api

Old == SchemaVersion \in {"2024_11_05", "2025_03_26", "2025_06_18"}
Stateless == SchemaVersion \in {"2026_07_28", "draft"}       \* no initialize handshake
Sides == {"Client", "Server"}
Peer(sd) == IF sd = "Client" THEN "Server" ELSE "Client"
Known2(n) == n \in DOMAIN Types
HasName(s, n) == n \in DOMAIN s
St(f) == <<"S", f>>
J(d) == <<"j", d>>
E1(n, v) == <<"E", n, v>>
CatT(s) == <<"cat", s>>
AnyV == <<"any">>

(* ------------------------------------------------------------ tables ------------------- *)
KindName ==
  ("Request" :> "Request") @@ ("RequestFromClient" :> "Request") @@ ("RequestFromServer" :> "Request")
  @@ ("Notification" :> "Notification") @@ ("NotificationFromClient" :> "Notification")
  @@ ("NotificationFromServer" :> "Notification")
  @@ ("Response" :> "Response") @@ ("ResultFromClient" :> "Response") @@ ("ResultFromServer" :> "Response")
  @@ ("ServerResult" :> "Response") @@ ("Error" :> "Error")
Kinds == <<"Request", "Notification", "Response", "Error">>
KindOf(v) == KindName[v[2]]              \* of a <<"E", variant, ..>> message
CodeTab ==
  ("CONNECTION_CLOSED" :> "-32000") @@ ("REQUEST_TIMEOUT" :> "-32001") @@ ("RESOURCE_NOT_FOUND" :> "-32002")
  @@ ("BAD_REQUEST" :> "-32015") @@ ("SESSION_NOT_FOUND" :> "-32016") @@ ("INVALID_REQUEST" :> "-32600")
  @@ ("METHOD_NOT_FOUND" :> "-32601") @@ ("INVALID_PARAMS" :> "-32602") @@ ("INTERNAL_ERROR" :> "-32603")
  @@ ("PARSE_ERROR" :> "-32700") @@ ("URL_ELICITATION_REQUIRED" :> "-32042")
  @@ ("MISSING_REQUIRED_CLIENT_CAPABILITY" :> "-32021") @@ ("UNSUPPORTED_PROTOCOL_VERSION" :> "-32022")
  @@ ("HEADER_MISMATCH" :> "-32020")
SdkCodes == <<"CONNECTION_CLOSED", "REQUEST_TIMEOUT", "RESOURCE_NOT_FOUND", "BAD_REQUEST", "SESSION_NOT_FOUND",
              "INVALID_REQUEST", "METHOD_NOT_FOUND", "INVALID_PARAMS", "INTERNAL_ERROR", "PARSE_ERROR">>
            \o (IF SchemaVersion = "2025_11_25" THEN <<"URL_ELICITATION_REQUIRED">> ELSE << >>)
            \o (IF Stateless THEN <<"MISSING_REQUIRED_CLIENT_CAPABILITY", "UNSUPPORTED_PROTOCOL_VERSION">> ELSE << >>)
RpcCodes == <<"PARSE_ERROR", "INVALID_REQUEST", "METHOD_NOT_FOUND", "INVALID_PARAMS", "INTERNAL_ERROR">>
            \o (IF SchemaVersion = "2025_11_25" THEN <<"URL_ELICITATION_REQUIRED">> ELSE << >>)
            \o (IF Stateless THEN <<"MISSING_REQUIRED_CLIENT_CAPABILITY", "UNSUPPORTED_PROTOCOL_VERSION", "HEADER_MISMATCH">> ELSE << >>)
Message ==     \* of an error constructor, by its name
  ("connection_closed" :> "Connection closed") @@ ("request_timeout" :> "Request timeout")
  @@ ("resource_not_found" :> "Resource not found") @@ ("bad_request" :> "Bad request")
  @@ ("session_not_found" :> "Session not found") @@ ("invalid_request" :> "Invalid request")
  @@ ("method_not_found" :> "Method not found") @@ ("invalid_params" :> "Invalid params")
  @@ ("internal_error" :> "Internal error") @@ ("parse_error" :> "Parse error")
  @@ ("url_elicit_required" :> "URL required. Please provide a URL.")
  @@ ("missing_required_client_capability" :> "Missing required client capability")
  @@ ("unsupported_protocol_version" :> "Unsupported protocol version")
CtorCode ==
  ("connection_closed" :> "-32000") @@ ("request_timeout" :> "-32001") @@ ("resource_not_found" :> "-32002")
  @@ ("bad_request" :> "-32015") @@ ("session_not_found" :> "-32016") @@ ("invalid_request" :> "-32600")
  @@ ("method_not_found" :> "-32601") @@ ("invalid_params" :> "-32602") @@ ("internal_error" :> "-32603")
  @@ ("parse_error" :> "-32700") @@ ("url_elicit_required" :> "-32042")
  @@ ("missing_required_client_capability" :> "-32021") @@ ("unsupported_protocol_version" :> "-32022")

ErrV(code, msg, data) == St([code |-> I(code), message |-> msg, data |-> data])
Internal(msg) == ErrV("-32603", msg, None)
ParseErr == ErrV("-32700", S("Parse error"), AnyV)

(* ------------------------------------------------------------ outcomes ----------------- *)
Unspecified == [v |-> <<"unspecified">>, o |-> << >>]
Val(v) == [v |-> v, o |-> << >>]
R(t, v) == [v |-> v, o |-> <<Enc(t, v)>>]
RpcDoc(e) == O(IF e[2].data = None THEN [code |-> e[2].code, message |-> e[2].message]
               ELSE [code |-> e[2].code, message |-> e[2].message, data |-> e[2].data[2][2]])
OkR(t, v) == [v |-> <<"ok", v>>, o |-> <<O("Ok" :> Enc(t, v))>>]
ErrR(e) == [v |-> <<"err", e>>, o |-> IF e[2].data = AnyV THEN << >> ELSE <<O("Err" :> RpcDoc(e))>>]
SdkErrR(e) == [v |-> <<"err", e>>, o |-> << >>]
OptR(t, v) == R(<<"opt", t>>, v)
BoolR(b) == R(<<"bool">>, B(b))
StrR(s) == R(<<"str">>, s)

(* ------------------------------------------------------------ structures --------------- *)
ConstT(t) == t[1] \in {"cs", "ci"} \/ (t[1] \in {"opt", "nopt"} /\ t[2][1] \in {"cs", "ci"})
RECURSIVE ConstV(_)
ConstV(t) == CASE t[1] = "cs" -> S(t[2]) [] t[1] = "ci" -> I(t[2]) [] OTHER -> Some(ConstV(t[2]))
RustFields(fs) == {fs[i].r : i \in DOMAIN fs}
FieldOf(fs, r) == fs[CHOOSE i \in DOMAIN fs : fs[i].r = r]
(* The structure with the given members, its fixed members and otherwise the defaults.        *)
Struct(fs, given) ==
  St([r \in RustFields(fs) |->
       LET f == FieldOf(fs, r) IN
       IF r \in DOMAIN given THEN given[r]
       ELSE IF ConstT(f.t) THEN ConstV(f.t)
       ELSE IF f.m = "flat" THEN None
       ELSE Default(f)])
StructN(n, given) == Struct(Types[n].f, given)
IsStruct(n) == n \in DOMAIN Types /\ Types[n].k = "struct"
ConstOf(n, r) == ConstV(FieldOf(Types[n].f, r).t)
HasField(n, r) == IsStruct(n) /\ r \in RustFields(Types[n].f)

(* ------------------------------------------------------------ alternatives ------------- *)
AltsOf(n) == LET T == Types[n] IN
  CASE T.k \in {"untag", "dispatch"} -> T.v
    [] T.k = "rtype" -> <<[n |-> "InputRequiredResult", k |-> "nt", t |-> Ref("InputRequiredResult")]>> \o T.v
    [] T.k = "orelse" -> <<[n |-> T.n, t |-> T.t], [n |-> T.c, t |-> <<"val">>]>>
    [] OTHER -> << >>
IsUnion(n) == n \in DOMAIN Types /\ AltsOf(n) # << >>
(* "sv" alternatives carry a record f instead of a type t.                                     *)
IsSv(e) == "k" \in DOMAIN e /\ e.k = "sv"
AltNames(n) == {AltsOf(n)[i].n : i \in DOMAIN AltsOf(n)}
AltBy(n, a) == AltsOf(n)[CHOOSE i \in DOMAIN AltsOf(n) : AltsOf(n)[i].n = a]

(* The way from a type x into a union u: the names of the alternatives, outermost first.       *)
RECURSIVE Path(_, _, _)
Path(x, u, d) ==
  IF u \notin DOMAIN Types \/ d = 0 THEN << >>
  ELSE LET as == AltsOf(u)
           direct == {i \in DOMAIN as : ~IsSv(as[i]) /\ as[i].t = x}
           deep == {i \in DOMAIN as : ~IsSv(as[i]) /\ as[i].t[1] = "ref" /\ as[i].t # x
                                      /\ Path(x, as[i].t[2], d - 1) # << >>}
       IN IF direct # {} THEN <<as[CHOOSE i \in direct : \A k \in direct : i <= k].n>>
          ELSE IF deep # {} THEN LET i == CHOOSE i \in deep : \A k \in deep : i <= k
                                 IN <<as[i].n>> \o Path(x, as[i].t[2], d - 1)
          ELSE << >>
RECURSIVE LiftBy(_, _)
LiftBy(p, v) == IF p = << >> THEN v ELSE E1(p[1], LiftBy(Tail(p), v))
RECURSIVE NarrowBy(_, _)
NarrowBy(p, v) == IF p = << >> THEN Ok(v)
                  ELSE IF v[1] = "E" /\ v[2] = p[1] THEN NarrowBy(Tail(p), v[3]) ELSE Err

(* ------------------------------------------------------------ wire messages ------------ *)
IdT == Ref("RequestId")
CustomName == {"CustomRequest", "CustomNotification", "CustomResult"}
(* Method of a payload of one side.                                                            *)
MethodOf(v) ==       \* v of RequestFromX / NotificationFromX
  IF v[2] \in CustomName THEN
    (IF v[3][1] = "j" THEN Get(v[3][2], "method") ELSE v[3][2].method)
  ELSE IF Old THEN v[3][3][2].method
  ELSE ConstOf(v[2], "method")
ParamsField(v) == v[3]
(* A message structure of the new versions: members id and params, or params alone.            *)
WireStruct(e, id, pay) ==     \* e an alternative of a wire union
  IF IsSv(e) THEN St([id |-> id, jsonrpc |-> S("2.0"),
                      request |-> StructN(e.n, [params |-> pay])])
  ELSE StructN(e.t[2], [id |-> id, params |-> pay])
CustomWire(u, id, pay, nm) ==   \* nm: the alternative that holds custom messages in u
  E1(nm, IF id = None THEN StructN("JsonrpcNotification", [method |-> pay[2].method, params |-> pay[2].params])
         ELSE StructN("JsonrpcRequest", [id |-> id, method |-> pay[2].method, params |-> pay[2].params]))
NewWire(u, id, p) ==
  IF p[2] \in CustomName THEN CustomWire(u, id, p[3], CHOOSE x \in AltNames(u) : x \in CustomName \cup {"Custom"})
  ELSE IF p[2] \in AltNames(u) THEN E1(p[2], WireStruct(AltBy(u, p[2]), id, p[3]))
  ELSE LET w == AltBy(u, "Standard").t[2] IN
       IF IsUnion(w) THEN E1("Standard", E1(p[2], WireStruct(AltBy(w, p[2]), id, p[3])))
       ELSE E1("Standard", StructN(w, [params |-> p[3]]))
WireReq(sd, id, p) ==
  IF Old THEN St([id |-> id, jsonrpc |-> S("2.0"), method |-> MethodOf(p), request |-> p])
  ELSE NewWire(sd \o "JsonrpcRequest", id, p)
WireNot(sd, p) ==
  IF Old THEN St([jsonrpc |-> S("2.0"), method |-> MethodOf(p), notification |-> p])
  ELSE NewWire(sd \o "JsonrpcNotification", None, p)
WireRes(id, r) == St([id |-> id, jsonrpc |-> S("2.0"), result |-> r])
ErrName == IF "JsonrpcError" \in DOMAIN Types THEN "JsonrpcError" ELSE "JsonrpcErrorResponse"
WireErr(id, e) == StructN(ErrName, [error |-> e, id |-> IF Old THEN id[2] ELSE id])

(* The typed message held by a wire request / notification of the new versions, and back.       *)
RECURSIVE Inner2(_)
Inner2(w) == IF w[2] = "Standard" /\ w[3][1] = "E" THEN w[3] ELSE w
PayloadOf(w) ==      \* of <<"E", alt, ..>> of XJsonrpcRequest / XJsonrpcNotification
  LET x == Inner2(w) nm == x[2] s == x[3][2] IN
  IF nm \in CustomName \cup {"Custom"}
  THEN [n |-> "custom", v |-> St([method |-> s.method, params |-> s.params])]
  ELSE [n |-> nm, v |-> IF "request" \in DOMAIN s THEN s.request[2].params ELSE s.params]
WireId(w) == LET x == Inner2(w) IN x[3][2].id
WireMethod(w) == LET x == Inner2(w) s == x[3][2] IN
  IF "request" \in DOMAIN s THEN s.request[2].method ELSE s.method

(* from_message: payload union m of a side, optional id.                                        *)
FromMsg(sd, m, oid) ==
  LET k == KindOf(m) mt == Ref(sd \o "Message") IN
  IF k = "Notification" THEN
    IF oid = None THEN OkR(mt, E1("Notification", WireNot(sd, m[3])))
    ELSE ErrR(Internal(S("request_id expected to be None for Notifications!")))
  ELSE IF k = "Error" /\ ~Old THEN OkR(mt, E1("Error", WireErr(oid, m[3])))
  ELSE IF oid = None THEN ErrR(Internal(S("request_id is None!")))
  ELSE IF k = "Request" THEN OkR(mt, E1("Request", WireReq(sd, oid[2], m[3])))
  ELSE IF k = "Response" THEN OkR(mt, E1("Response", WireRes(oid[2], m[3])))
  ELSE OkR(mt, E1("Error", WireErr(oid, m[3])))

SideOf(o) == IF \E i \in 1..Len(o) - 5 : SubSeq(o, i, i + 5) = "Server" THEN "Server" ELSE "Client"
WrongKind(want, v) == Internal(CatT(<<"Invalid message type, expected: \"", want, "\" received\"", KindOf(v), "\"">>))

(* ------------------------------------------------------------ known findings ----------- *)
(* K1 concerns the encoding of custom messages of the old versions.                            *)
RECURSIVE HoldsK1(_)
HoldsK1(v) ==
  CASE v[1] = "E" -> HoldsK1(v[3])
    [] v[1] \in {"J", "ok"} -> HoldsK1(v[2])
    [] v[1] = "V" -> \E i \in DOMAIN v[2] : HoldsK1(v[2][i])
    [] v[1] = "S" -> \/ "request" \in DOMAIN v[2] /\ v[2].request[1] = "E" /\ v[2].request[2] \in CustomName
                     \/ "notification" \in DOMAIN v[2] /\ v[2].notification[1] = "E" /\ v[2].notification[2] \in CustomName
    [] OTHER -> FALSE
K1Of(v) == Old /\ HoldsK1(v)

(* ------------------------------------------------------------ arguments ---------------- *)
(* The document from which a typed value can be decoded: its encoding, but for K1.              *)
DocOf(t, v) ==
  IF t[1] = "ref" /\ t[2] \in DOMAIN Types /\ Types[t[2]].k \in {"envreq", "envnot"} /\ K1Of(v)
  THEN LET raw == (IF Types[t[2]].k = "envreq" THEN v[2].request ELSE v[2].notification)[3][2]
           base == IF Types[t[2]].k = "envreq" THEN [id |-> Enc(IdT, v[2].id), jsonrpc |-> S("2.0"), method |-> v[2].method]
                   ELSE [jsonrpc |-> S("2.0"), method |-> v[2].method]
       IN O(IF Has(raw, "params") /\ Get(raw, "params") # Z THEN ("params" :> Get(raw, "params")) @@ base ELSE base)
  ELSE Enc(t, v)

RECURSIVE Arg(_, _)
Arg(t, v) ==
  CASE t[1] = "ref" ->
         IF t[2] \notin DOMAIN Types THEN v
         ELSE LET T == Types[t[2]] IN
          (CASE T.k \in {"struct", "envreq", "envnot", "envres"} -> J(DocOf(t, v))
             [] T.k = "new" -> Arg(T.t, v)
             [] T.k = "unit" -> v
             [] OTHER -> LET e == AltBy(t[2], v[2]) IN
                IF IsSv(e) THEN <<"E", v[2], <<"S", [r \in DOMAIN v[3][2] |-> Arg(FieldOf(e.f, r).t, v[3][2][r])]>>>>
                ELSE <<"E", v[2], Arg(e.t, v[3])>>)
    [] t[1] \in {"opt", "nopt"} -> IF v = None THEN v ELSE <<"J", Arg(t[2], v[2])>>
    [] t[1] = "vec" -> <<"V", [i \in DOMAIN v[2] |-> Arg(t[2], v[2][i])]>>
    [] t[1] = "hmap" -> <<"M", [k \in DOMAIN v[2] |-> Arg(t[2], v[2][k])]>>
    [] OTHER -> v

(* ------------------------------------------------------------ values ------------------- *)
Ids == <<I("0"), S("id-1"), I("7"), S("7"), S(""), I("-3"), S("$U"), I64Max>>
IdVals == [i \in DOMAIN Ids |-> Dec(IdT, Ids[i])[2]]
CustomRaw == <<O(("method" :> S("x/custom")) @@ ("params" :> O("a" :> A(<<I("1"), Z>>)))),
               O("method" :> S("$U")), O(("method" :> S("tools/call")) @@ ("params" :> O("name" :> I("5"))))>>
RawFor(n) == IF n = "CustomResult" THEN <<O("x-any" :> I("1")), A(<<S("x"), Z>>), S("done")>> ELSE CustomRaw

DecOk(t, ds) == LET ok == SelectSeq(ds, LAMBDA d : IsOk(Dec(t, d))) IN [i \in DOMAIN ok |-> Dec(t, ok[i])[2]]
(* A value that can be handed to the code as a document and means itself there.                 *)
Faithful(t, v) == LET r == Dec(t, DocOf(t, v)) IN IsOk(r) /\ r[2] = v
Dedup(s) == LET keep == {i \in DOMAIN s : \A k \in 1..i - 1 : s[k] # s[i]}
                ix == SetToSortSeq(keep, <)
            IN [k \in DOMAIN ix |-> s[ix[k]]]
Each(s, fn(_)) == [i \in DOMAIN s |-> fn(s[i])]

AsDecoded(n, vs) == DecOk(Ref(n), Each(vs, LAMBDA v : DocOf(Ref(n), v)))
ASSUME TLCSet(9, Empty)
RECURSIVE TV(_)
(* One to a few values for a type; unions offer every alternative.                              *)
TVn(n) ==
  LET T == Types[n] IN
  CASE n = "JsonValue" -> DecOk(Ref(n), Vars(<<"val">>))
    [] T.k = "struct" -> Dedup(SelectSeq(DecOk(Ref(n), <<DMin(n), DFull(n)>>), LAMBDA v : Faithful(Ref(n), v)))
    [] T.k = "unit" -> [i \in DOMAIN T.v |-> <<"U", T.v[i][2]>>]
    [] T.k = "new" -> DecOk(Ref(n), Vars(T.t))
    [] T.k = "orelse" -> Each(TV(T.t), LAMBDA v : E1(T.n, v)) \o Each(RawFor(T.c), LAMBDA d : E1(T.c, J(d)))
    [] T.k \in {"untag", "dispatch", "rtype"} ->
         Cat([i \in DOMAIN AltsOf(n) |->
           LET e == AltsOf(n)[i] IN
           IF IsSv(e) THEN Each(Dedup(DecOk(Ref(n), <<O(MinFields(e.f)), O(FullFields(e.f, 5))>>)), LAMBDA v : v)
           ELSE Each(TV(e.t), LAMBDA v : E1(e.n, v))])
    [] T.k = "envreq" -> LET ps == TV(T.t) IN AsDecoded(n,
         [i \in DOMAIN ps |-> St([id |-> IdVals[1 + (i % Len(Ids))], jsonrpc |-> S("2.0"), method |-> MethodOf(ps[i]), request |-> ps[i]])])
    [] T.k = "envnot" -> LET ps == TV(T.t) IN AsDecoded(n,
         [i \in DOMAIN ps |-> St([jsonrpc |-> S("2.0"), method |-> MethodOf(ps[i]), notification |-> ps[i]])])
    [] T.k = "envres" -> LET ps == TV(T.t)
                             vs == [i \in DOMAIN ps |-> St([id |-> IdVals[1 + (i % Len(Ids))], jsonrpc |-> S("2.0"), result |-> ps[i]])]
                         IN SelectSeq(vs, LAMBDA v : Faithful(Ref(n), v))
(* Computed once for each type (TLC's registers serve as the store).                            *)
Memo(n) == IF n \in DOMAIN TLCGet(9) THEN TLCGet(9)[n]
           ELSE LET v == TLCEval(TVn(n)) IN IF TLCSet(9, (n :> v) @@ TLCGet(9)) THEN v ELSE v
Pick3(s) == IF Len(s) <= 3 THEN s ELSE <<s[1], s[(Len(s) + 1) \div 2], s[Len(s)]>>
Special(n) ==
  CASE n = "RpcErrorCodes" -> [i \in DOMAIN RpcCodes |-> <<"U", RpcCodes[i]>>]
    [] n = "SdkErrorCodes" -> [i \in DOMAIN SdkCodes |-> <<"U", SdkCodes[i]>>]
    [] n = "MessageTypes" -> [i \in DOMAIN Kinds |-> <<"U", Kinds[i]>>]
    [] n = "u128" -> <<I("0"), I("1"), I("60"), I64Max, U64Max>>
    [] n \in {"CallToolError", "UnknownTool"} -> <<S("tool failed"), S(""), S("$U"), S("$L"), S("$C")>>
    [] n = "Map" -> <<J(EO), J(O(("k" :> I("1")) @@ ("$U" :> Z)))>>
    [] OTHER -> << >>
TV(t) ==
  CASE t[1] = "ref" -> IF t[2] = "RequestId" THEN IdVals
                       ELSE IF t[2] \in DOMAIN Types THEN Memo(t[2]) ELSE Special(t[2])
    [] t[1] \in {"opt", "nopt"} -> <<None>> \o Each(TV(t[2]), Some)
    [] t[1] = "vec" -> LET a == TV(t[2]) IN <<<<"V", << >>>>, <<"V", <<a[1]>>>>, <<"V", a>>, <<"V", Reverse(a)>>>>
    [] t[1] = "hmap" -> LET a == TV(t[2]) IN
         <<<<"M", Empty>>, <<"M", ("k" :> a[1])>>, <<"M", ("" :> a[Len(a)]) @@ ("$U" :> a[1])>>>>
    [] t[1] = "str" -> <<S("text one"), S(""), S("$U"), S("$L"), S("$C"), S("2024-01-02T03:04:05Z")>>
    [] t[1] = "bool" -> <<B(TRUE), B(FALSE)>>
    [] t[1] \in {"cs", "ci"} -> <<ConstV(t)>>
    [] t[1] \in {"map", "val", "i64", "u64", "f64"} -> DecOk(t, Vars(t))
    [] OTHER -> << >>

(* More values of a type: every member of a structure alone in all its variations; for a union    *)
(* those of every alternative.                                                                  *)
AloneDocs(n) ==
  LET fs == Types[n].f mn == DMin(n) IN
  Cat([i \in DOMAIN fs |->
    LET f == fs[i] IN
    IF f.m = "flat" THEN (IF f.t = <<"opt", <<"map">>>> THEN <<O(mn[2] @@ Extra)>> ELSE << >>)
    ELSE Each(Vars(f.t), LAMBDA d : With(mn, f.n, d))])
ASSUME TLCSet(10, Empty)
RECURSIVE WTV(_)
WTVn(n) ==
  LET T == Types[n] IN
  CASE T.k = "struct" -> TV(Ref(n)) \o SelectSeq(DecOk(Ref(n), AloneDocs(n)), LAMBDA v : Faithful(Ref(n), v))
    [] T.k = "orelse" -> Each(WTV(T.t), LAMBDA v : E1(T.n, v)) \o Each(RawFor(T.c), LAMBDA d : E1(T.c, J(d)))
    [] T.k \in {"untag", "dispatch", "rtype"} ->
         Cat([i \in DOMAIN AltsOf(n) |-> LET e == AltsOf(n)[i] IN
           IF IsSv(e) THEN SelectSeq(TV(Ref(n)), LAMBDA v : v[2] = e.n) ELSE Each(WTV(e.t), LAMBDA v : E1(e.n, v))])
    [] T.k = "envreq" -> LET ps == WTV(T.t) IN AsDecoded(n,
         [i \in DOMAIN ps |-> St([id |-> IdVals[1 + (i % Len(Ids))], jsonrpc |-> S("2.0"), method |-> MethodOf(ps[i]), request |-> ps[i]])])
    [] T.k = "envnot" -> LET ps == WTV(T.t) IN AsDecoded(n,
         [i \in DOMAIN ps |-> St([jsonrpc |-> S("2.0"), method |-> MethodOf(ps[i]), notification |-> ps[i]])])
    [] T.k = "envres" -> LET ps == WTV(T.t)
                             vs == [i \in DOMAIN ps |-> St([id |-> IdVals[1 + (i % Len(Ids))], jsonrpc |-> S("2.0"), result |-> ps[i]])]
                         IN SelectSeq(vs, LAMBDA v : Faithful(Ref(n), v))
    [] OTHER -> TV(Ref(n))
WMemo(n) == IF n \in DOMAIN TLCGet(10) THEN TLCGet(10)[n]
            ELSE LET v == TLCEval(WTVn(n)) IN IF TLCSet(10, (n :> v) @@ TLCGet(10)) THEN v ELSE v
WTV(t) ==
  CASE t[1] = "ref" /\ t[2] # "RequestId" /\ t[2] \in DOMAIN Types -> WMemo(t[2])
    [] t[1] \in {"opt", "nopt"} /\ t[2][1] = "ref" -> <<None>> \o Each(WTV(t[2]), Some)
    [] OTHER -> TV(t)
=============================================================================
