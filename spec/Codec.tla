------------------------------- MODULE Codec --------------------------------
(* The protocol codec: Dec turns a JSON document into a typed value (the abstract state of   *)
(* the Rust object), Enc turns a typed value back into JSON.  Both are driven by the tables  *)
(* of module Schema (one per schema version).                                                *)
(*                                                                                           *)
(* Type expressions   <<"str">> <<"i64">> <<"u64">> <<"f64">> <<"bool">> <<"val">> any JSON  *)
(*   <<"map">> any object  <<"cs",c>> <<"ci",c>> fixed string / integer                      *)
(*   <<"opt",t>> <<"vec",t>> <<"hmap",t>> <<"ref",N>>                                        *)
(*   <<"nopt",t>> optional and nullable: absent, null and a value are three things           *)
(* Field modes        req    required; a nullable one is tolerated when absent               *)
(*   nullout  optional, written as null when none                                            *)
(*   skip   optional, absent when none / empty      must, mustopt   fixed value, required    *)
(*   defconst  fixed value, may be absent           flat   the members not named elsewhere   *)
(*                                                                                           *)
(* Typed values       scalars are JSON scalars; <<"j", json>> open data; <<"N">> none,       *)
(*   <<"J", v>> some; <<"V", seq>>; <<"M", fn>>; <<"S", [rust field |-> v]>> struct;         *)
(*   <<"E", variant, v>> union alternative; <<"U", variant>> enumerated string               *)
EXTENDS JValue, Schema

Err == <<"err">>
Ok(v) == <<"ok", v>>
IsOk(r) == r[1] = "ok"
None == <<"N">>
Some(v) == <<"J", v>>

Ref(n) == <<"ref", n>>

(* ------------------------------------------------------------------ decoding ------------ *)
RECURSIVE Dec(_, _)
RECURSIVE DecSeq(_, _, _, _)        \* element type, documents, index, accumulated values
RECURSIVE DecMap(_, _, _, _)        \* value type, function, keys still to do, accumulated
RECURSIVE DecFields(_, _, _, _)     \* fields, members, index, accumulated
RECURSIVE DecPos(_, _, _, _)        \* as DecFields, members given by position
RECURSIVE DecAlts(_, _, _)          \* alternatives, document, index
RECURSIVE DecUnit(_, _, _)

Default(f) == IF f.t[1] \in {"opt", "nopt"} THEN None
              ELSE IF f.t[1] = "vec" THEN <<"V", << >>>>
              ELSE IF f.t[1] = "cs" THEN S(f.t[2])
              ELSE <<"M", Empty>>
MayMiss(f) == \/ f.m \in {"skip", "defconst", "nullout"}
              \/ f.m = "req" /\ f.t[1] = "opt"
(* Tolerated when absent, although the protocol requires the member.                          *)
Lax(f) == f.m = "defconst" \/ (f.m = "req" /\ f.t[1] = "opt")
FlatKeys(fs) == {fs[i].n : i \in {j \in DOMAIN fs : fs[j].m # "flat"}}
HasFlat(fs) == \E i \in DOMAIN fs : fs[i].m = "flat"

DecFields(fs, o, i, acc) ==
  IF i > Len(fs) THEN Ok(<<"S", acc>>)
  ELSE LET f == fs[i] IN
    IF f.m = "flat" THEN
      LET rest == O(OnlyKeys(o, DOMAIN o \ FlatKeys(fs)))
          r == Dec(f.t, rest)
      IN IF IsOk(r) THEN DecFields(fs, o, i + 1, (f.r :> r[2]) @@ acc) ELSE Err
    ELSE IF f.n \in DOMAIN o THEN
      LET r == Dec(f.t, o[f.n])
      IN IF IsOk(r) THEN DecFields(fs, o, i + 1, (f.r :> r[2]) @@ acc) ELSE Err
    ELSE IF MayMiss(f) THEN DecFields(fs, o, i + 1, (f.r :> Default(f)) @@ acc)
    ELSE Err

(* An array is read as the members in declaration order.                                      *)
DecPos(fs, s, i, acc) ==
  IF i > Len(fs) THEN (IF Len(s) > Len(fs) THEN Err ELSE Ok(<<"S", acc>>))
  ELSE LET f == fs[i] IN
    IF i <= Len(s) THEN
      LET r == Dec(f.t, s[i])
      IN IF IsOk(r) THEN DecPos(fs, s, i + 1, (f.r :> r[2]) @@ acc) ELSE Err
    ELSE IF f.m \in {"skip", "defconst"} THEN DecPos(fs, s, i + 1, (f.r :> Default(f)) @@ acc)
    ELSE Err

DecStruct(fs, j) ==
  IF j[1] = "o" THEN DecFields(fs, j[2], 1, Empty)
  ELSE IF j[1] = "a" /\ ~HasFlat(fs) THEN DecPos(fs, j[2], 1, Empty)
  ELSE Err

DecAlts(vs, j, i) ==
  IF i > Len(vs) THEN Err
  ELSE LET v == vs[i]
           r == IF v.k = "sv" THEN DecStruct(v.f, j)
                ELSE IF v.k = "noid" /\ Has(j, "id") THEN Err
                ELSE Dec(v.t, j)
       IN IF IsOk(r) THEN Ok(<<"E", v.n, r[2]>>) ELSE DecAlts(vs, j, i + 1)

DecUnit(vs, x, i) ==
  IF i > Len(vs) THEN Err
  ELSE IF vs[i][1] = x THEN Ok(<<"U", vs[i][2]>>) ELSE DecUnit(vs, x, i + 1)

DecSeq(t, s, i, acc) ==
  IF i > Len(s) THEN Ok(<<"V", acc>>)
  ELSE LET r == Dec(t, s[i]) IN IF IsOk(r) THEN DecSeq(t, s, i + 1, Append(acc, r[2])) ELSE Err

DecMap(t, f, ks, acc) ==
  IF ks = {} THEN Ok(<<"M", acc>>)
  ELSE LET k == CHOOSE x \in ks : TRUE
           r == Dec(t, f[k])
       IN IF IsOk(r) THEN DecMap(t, f, ks \ {k}, (k :> r[2]) @@ acc) ELSE Err

(* JSON-RPC envelopes of the hand-written codecs: exactly these members.                      *)
JsonRpcOk(j) == Has(j, "jsonrpc") /\ Get(j, "jsonrpc") = S("2.0")
ParamsOf(j) == IF Has(j, "params") THEN Get(j, "params") ELSE Z
DecEnvelope(T, j, keys) ==
  IF ~IsObj(j) \/ ~(DOMAIN j[2] \subseteq keys) \/ ~JsonRpcOk(j) THEN Err
  ELSE IF "result" \in keys THEN
    IF ~Has(j, "id") \/ ~Has(j, "result") THEN Err
    ELSE LET i == Dec(Ref("RequestId"), Get(j, "id"))
             r == Dec(T.t, Get(j, "result"))
         IN IF IsOk(i) /\ IsOk(r)
            THEN Ok(<<"S", [id |-> i[2], jsonrpc |-> S("2.0"), result |-> r[2]]>>) ELSE Err
  ELSE IF ~Has(j, "method") \/ Get(j, "method")[1] # "s" THEN Err
  ELSE LET body == O("method" :> Get(j, "method") @@ "params" :> ParamsOf(j))
           p == Dec(T.t, body)
       IN IF ~IsOk(p) THEN Err
          ELSE IF "id" \in keys THEN
            IF ~Has(j, "id") THEN Err
            ELSE LET i == Dec(Ref("RequestId"), Get(j, "id")) IN
              IF IsOk(i) THEN Ok(<<"S", [id |-> i[2], jsonrpc |-> S("2.0"),
                                         method |-> Get(j, "method"), request |-> p[2]]>>)
              ELSE Err
          ELSE Ok(<<"S", [jsonrpc |-> S("2.0"), method |-> Get(j, "method"), notification |-> p[2]]>>)

(* Server results that carry a kind marker (2026-07-28 and draft): an absent marker means     *)
(* complete; an input-required result is never read as anything else.                         *)
DecMarked(T, j) ==
  IF Has(j, "resultType") /\ Get(j, "resultType") = S("input_required") THEN
    LET r == Dec(Ref("InputRequiredResult"), j) IN
    IF IsOk(r) THEN Ok(<<"E", "InputRequiredResult", r[2]>>) ELSE Err
  ELSE LET jj == IF IsObj(j) /\ (~Has(j, "resultType") \/ Get(j, "resultType")[1] # "s")
                 THEN With(j, "resultType", S("complete")) ELSE j
       IN DecAlts(T.v, jj, 1)

DecDispatch(T, j) ==
  IF ~Has(j, "method") \/ Get(j, "method")[1] # "s" THEN Err
  ELSE LET m == Get(j, "method")[2]
           is == {i \in DOMAIN T.v : T.v[i].m = m}
       IN IF is = {} THEN Err
          ELSE LET v == T.v[CHOOSE i \in is : \A k \in is : i <= k]
                   r == Dec(v.t, j)
               IN IF IsOk(r) THEN Ok(<<"E", v.n, r[2]>>) ELSE Err

DecNamed(T, j) ==
  CASE T.k = "struct" -> DecStruct(T.f, j)
    [] T.k = "new" -> Dec(T.t, j)
    [] T.k = "untag" -> DecAlts(T.v, j, 1)
    [] T.k = "unit" -> IF j[1] = "s" THEN DecUnit(T.v, j[2], 1)
                       ELSE IF j[1] = "o" /\ \E x \in DOMAIN j[2] : DOMAIN j[2] = {x} /\ j[2][x] = Z
                       THEN DecUnit(T.v, CHOOSE x \in DOMAIN j[2] : TRUE, 1)
                       ELSE Err
    [] T.k = "dispatch" -> DecDispatch(T, j)
    [] T.k = "orelse" -> LET r == Dec(T.t, j) IN
                         IF IsOk(r) THEN Ok(<<"E", T.n, r[2]>>) ELSE Ok(<<"E", T.c, <<"j", j>>>>)
    [] T.k = "envreq" -> DecEnvelope(T, j, {"id", "jsonrpc", "method", "params"})
    [] T.k = "envnot" -> DecEnvelope(T, j, {"jsonrpc", "method", "params"})
    [] T.k = "envres" -> DecEnvelope(T, j, {"id", "jsonrpc", "result"})
    [] T.k = "rtype" -> DecMarked(T, j)

Dec(t, j) ==
  CASE t[1] = "ref" -> DecNamed(Types[t[2]], j)
    [] t[1] = "str" -> IF j[1] = "s" THEN Ok(j) ELSE Err
    [] t[1] = "opt" -> IF j[1] = "z" THEN Ok(None)
                       ELSE LET r == Dec(t[2], j) IN IF IsOk(r) THEN Ok(Some(r[2])) ELSE Err
    [] t[1] = "nopt" -> LET r == Dec(<<"opt", t[2]>>, j) IN IF IsOk(r) THEN Ok(Some(r[2])) ELSE Err
    [] t[1] = "cs" -> IF j = S(t[2]) THEN Ok(j) ELSE Err
    [] t[1] = "vec" -> IF j[1] = "a" THEN DecSeq(t[2], j[2], 1, << >>) ELSE Err
    [] t[1] = "map" -> IF j[1] = "o" THEN Ok(<<"j", j>>) ELSE Err
    [] t[1] = "val" -> Ok(<<"j", j>>)
    [] t[1] = "i64" -> IF j[1] = "n" /\ j[2] = "i" THEN Ok(j) ELSE Err
    [] t[1] = "u64" -> IF j[1] = "n" /\ (j[2] = "u" \/ (j[2] = "i" /\ ~Neg(j))) THEN Ok(j) ELSE Err
    [] t[1] = "f64" -> IF j[1] = "n" THEN Ok(<<"n", "f", j[4], j[4]>>) ELSE Err
    [] t[1] = "bool" -> IF j[1] = "b" THEN Ok(j) ELSE Err
    [] t[1] = "hmap" -> IF j[1] = "o" THEN DecMap(t[2], j[2], DOMAIN j[2], Empty) ELSE Err
    [] t[1] = "ci" -> IF j[1] = "n" /\ j[2] = "i" /\ j[3] = t[2] THEN Ok(j) ELSE Err

(* ------------------------------------------------------------------ encoding ------------ *)
RECURSIVE Enc(_, _)
RECURSIVE EncFields(_, _, _, _)
IsNothing(v) == v = None \/ v = <<"V", << >>>>

EncFields(fs, v, i, acc) ==
  IF i > Len(fs) THEN O(acc)
  ELSE LET f == fs[i] IN
    IF f.m = "skip" /\ IsNothing(v[f.r]) THEN EncFields(fs, v, i + 1, acc)
    ELSE IF f.m = "flat" THEN
      IF v[f.r] = None THEN EncFields(fs, v, i + 1, acc)
      ELSE EncFields(fs, v, i + 1, acc @@ Enc(f.t, v[f.r])[2])
    ELSE EncFields(fs, v, i + 1, (f.n :> Enc(f.t, v[f.r])) @@ acc)

AltOf(vs, n) == vs[CHOOSE i \in DOMAIN vs : vs[i].n = n]

(* Parameters of a typed request or notification held by an old-style envelope.               *)
EncPayload(T, e) ==   \* T the orelse type, e the <<"E", variant, value>> it holds
  IF e[2] = T.c THEN <<"some", e[3][2]>>          \* custom: the whole raw document, see K1
  ELSE LET d == Enc(T.t, e[3]) IN
       IF Has(d, "params") THEN <<"some", Get(d, "params")>> ELSE <<"none">>

EncNamed(T, v) ==
  CASE T.k = "struct" -> EncFields(T.f, v[2], 1, Empty)
    [] T.k = "new" -> Enc(T.t, v)
    [] T.k \in {"untag", "rtype"} ->
         IF T.k = "rtype" /\ v[2] = "InputRequiredResult" THEN Enc(Ref("InputRequiredResult"), v[3])
         ELSE LET a == AltOf(T.v, v[2]) IN
              IF a.k = "sv" THEN EncFields(a.f, v[3][2], 1, Empty) ELSE Enc(a.t, v[3])
    [] T.k = "unit" -> S(T.v[CHOOSE i \in DOMAIN T.v : T.v[i][2] = v[2]][1])
    [] T.k = "dispatch" -> Enc(AltOf(T.v, v[2]).t, v[3])
    [] T.k = "orelse" -> IF v[2] = T.c THEN v[3][2] ELSE Enc(T.t, v[3])
    [] T.k = "envres" -> O([id |-> Enc(Ref("RequestId"), v[2].id), jsonrpc |-> v[2].jsonrpc,
                            result |-> Enc(T.t, v[2].result)])
    [] T.k = "envreq" ->
         LET p == EncPayload(Types[T.t[2]], v[2].request)
             base == [id |-> Enc(Ref("RequestId"), v[2].id), jsonrpc |-> v[2].jsonrpc, method |-> v[2].method]
         IN IF p[1] = "some" THEN O(("params" :> p[2]) @@ base) ELSE O(base)
    [] T.k = "envnot" ->
         LET p == EncPayload(Types[T.t[2]], v[2].notification)
             base == [jsonrpc |-> v[2].jsonrpc, method |-> v[2].method]
         IN IF p[1] = "some" THEN O(("params" :> p[2]) @@ base) ELSE O(base)

Enc(t, v) ==
  CASE t[1] = "ref" -> EncNamed(Types[t[2]], v)
    [] t[1] \in {"str", "i64", "u64", "f64", "bool", "cs", "ci"} -> v
    [] t[1] = "opt" -> IF v = None THEN Z ELSE Enc(t[2], v[2])
    [] t[1] = "nopt" -> Enc(<<"opt", t[2]>>, v[2])
    [] t[1] = "vec" -> A([i \in 1..Len(v[2]) |-> Enc(t[2], v[2][i])])
    [] t[1] \in {"map", "val"} -> v[2]
    [] t[1] = "hmap" -> O([k \in DOMAIN v[2] |-> Enc(t[2], v[2][k])])
=============================================================================
