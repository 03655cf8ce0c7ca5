-------------------------------- MODULE ApiMC ---------------------------------
(* The public functions called one after another: TLC walks the functions that belong to one   *)
(* property and their enumerated receivers and arguments, checks the call properties on the    *)
(* model and prints each call; the harness makes the same call on the real code.               *)
EXTENDS Call, Json

CONSTANTS Wanted,            \* a property, or "all"
          Cap,               \* at most that many cases per function
          Turn               \* which ones, when there are more
IsWide(f) == f.n # "FromStr"
FnIx == {i \in DOMAIN Fns : Wanted = "all" \/ Wanted \in PropsOf(Fns[i])}

IsParse(f) == f.n = "FromStr"
Around == <<"spaces", "tab", "newline", "return", "other", "bom", "nul", "nbsp", "formfeed", "vtab", "linesep", "comma", "colon", "quote", "brace", "bracket",
            "comment", "null", "zero", "letter", "backslash", "semicolon", "prefix", "again">>
NearIds == IdVals \o Each(<<S("0"), S("07"), S("-3"), S(" 7"), S("7 "), S("7.0"), S("9223372036854775807"), S("$^id-1"), S("id-"), S("null"), I("-7"), I64Min>>,
                          LAMBDA d : Dec(IdT, d)[2])
IdLists == <<<<>>, NearIds, Reverse(NearIds), IdVals, IdVals \o Reverse(IdVals), SubSeq(NearIds, 1, 1), SubSeq(NearIds, 9, Len(NearIds))>>
JsonTexts(f) ==
  LET vs == TV(RecT(f)) IN
  IF f.o \in {"Role", "StringSchemaFormat"}
  THEN Each(Types[f.o].v, LAMBDA e : S(e[1])) \o <<S(""), S("$U"), S("other")>>
       \o Cat(Each(Types[f.o].v, LAMBDA e : <<S(e[1] \o "s"), S("$^" \o e[1]), S("$+" \o e[1]), S(" " \o e[1])>>))
  ELSE Each(vs, LAMBDA v : <<"js", DocOf(RecT(f), v)>>)
       \o Each(vs, LAMBDA v : <<"js", With(Enc(RecT(f), v), "jsonrpc", S("1.0"))>>)
       \o Each(vs, LAMBDA v : <<"js", Without(With(Without(Enc(RecT(f), v), "result"), "id", A(<< >>)), "error")>>)
       \o <<<<"js", Z>>, <<"js", A(<< >>)>>, <<"js", S("text")>>, <<"js", EO>>, S(""), S("{"), S("$U"), S("$C"), S("$L"),
            S("{\"jsonrpc\":\"2.0\""), S("[1,2"), S("nul"), S("{}x"), S("{'a':1}"), S("01"), S("[1,]"), S("\\")>>
       \o Cat([k \in DOMAIN vs |-> LET d == DocOf(RecT(f), vs[k]) w(x) == Around[1 + ((k + x + Turn) % Len(Around))] IN
              <<<<"wrap", w(0), d, "">>, <<"wrap", "", d, w(1)>>, <<"wrap", "spaces", d, "newline">>, <<"wrap", "other", d, "">>>>])
       \o Each(Around, LAMBDA x : <<"wrap", x, DocOf(RecT(f), vs[1]), "">>) \o Each(Around, LAMBDA x : <<"wrap", "", DocOf(RecT(f), vs[1]), x>>)
ArgVals(f, i) ==
  LET t == f.a[i][2] nm == f.a[i][1] IN
  CASE IsParse(f) -> JsonTexts(f)
    [] f.o = "CallToolError" /\ f.n = "invalid_arguments" /\ i = 1 ->
         Each(<<"tool", "", "  ", "\t\n", " padded ", "a b", "$U">>, S)
    [] f.o = "InputRequests" /\ f.n = "get" -> Each(<<"k", "", "$U", "missing">>, S)
    [] f.o = "InputResponses" /\ f.n = "insert" /\ i = 1 -> Each(<<"k", "", "$U", "k2">>, S)
    [] f.o = "IconTheme" -> Each(<<"dark", "light", "Dark", "DARK", "", "$U", "dark ">>, S)
    [] f.o = "Map" /\ nm = "key" -> Each(<<"k", "", "$U", RelKey>>, S)
    [] OTHER -> IF IsWide(f) THEN WTV(t) ELSE TV(t)
RecVals(f) ==
  IF f.s = "" THEN <<None>>
  ELSE IF f.n \in {"related_task_id", "set_related_task_id", "with_related_task_id"} /\ f.o = "Map" THEN
    <<J(EO), J(O(RelKey :> RelTask(S("task-1")))), J(O((RelKey :> RelTask(S("$U"))) @@ ("k" :> I("1")))), J(O(RelKey :> RelTask(I("5")))),
      J(O(RelKey :> S("task-1"))), J(O(RelKey :> EO)), J(O("taskId" :> S("x"))), J(O(RelKey :> O(("taskId" :> S("t")) @@ ("more" :> Z))))>>
  ELSE IF f.o = "GetTaskPayloadResult" THEN
    TV(RecT(f)) \o DecOk(RecT(f), <<O("_meta" :> O(RelKey :> RelTask(S("task-1")))),
       O(("_meta" :> O((RelKey :> RelTask(S("$U"))) @@ ("k" :> I("1")))) @@ ("x" :> I("1"))), O("_meta" :> O(RelKey :> S("no"))), O("_meta" :> EO)>>)
  ELSE IF f.n \in TraceKeys THEN
    LET b == DMin("RequestMetaObject") IN
    TV(RecT(f)) \o DecOk(RecT(f), <<With(b, f.n, S("$U")), With(With(b, "tracestate", S("ts")), "traceparent", S("tp")),
                                   With(b, f.n, I("5")), With(b, "baggage", S("b"))>>)
  ELSE IF IsWide(f) THEN WTV(RecT(f)) ELSE TV(RecT(f))

(* The cases of a function: every receiver with the first arguments, then for some receivers     *)
(* each argument varied in turn, and all arguments at their k-th value.                          *)
Nth(s, k) == s[1 + ((k - 1) % Len(s))]
IsGate(f) == f.n \in {"can_handle_request", "can_accept_notification"}
(* Every declared set of capabilities with every request or notification.                       *)
GateCases(f) ==
  LET rs == CapVals(f.o)
      qs == IF f.n = "can_handle_request" THEN AskVals(f.o) ELSE Each(NotifyMethods, S)
      all == Cat(Each(rs, LAMBDA r : Each(qs, LAMBDA q : [s |-> r, a |-> <<q>>])))
      st == 1 + (Len(all) \div (20 * Cap))            \* thinned evenly when there are too many
  IN SubSeq([k \in 1..Len(all) |-> LET x == (k - 1) * st IN all[1 + ((x + ((x \div Len(qs)) % st)) % Len(all))]], 1, Len(all) \div st)
ListCases(f) ==
  IF f.n = "eq" THEN Cat(Each(NearIds, LAMBDA x : Each(NearIds, LAMBDA y : [s |-> x, a |-> <<y>>]))) ELSE
  IF f.n = "find" THEN Cat(Each(IdLists, LAMBDA l : Each(NearIds, LAMBDA y : [s |-> None, a |-> <<<<"V", l>>, y>>]))) ELSE
  LET
      rs == RecVals(f)
      av == [j \in DOMAIN f.a |-> ArgVals(f, j)]
      base == [j \in DOMAIN f.a |-> av[j][1]]
      rest == [j \in DOMAIN f.a |-> av[j][Len(av[j])]]
      few == Pick3(rs)
      most == IF f.a = << >> THEN 0 ELSE LET m == Max({Len(av[j]) : j \in DOMAIN f.a}) IN m
      one == Each(rs, LAMBDA r : [s |-> r, a |-> base])
      vary == Cat([j \in DOMAIN f.a |-> Cat([k \in DOMAIN av[j] |->
                  LET x == [base EXCEPT ![j] = av[j][k]] y == [rest EXCEPT ![j] = av[j][k]] IN
                  <<[s |-> Nth(few, k), a |-> x], [s |-> Nth(few, k + 1), a |-> y]>>])])
      diag == [k \in 1..most |-> [s |-> Nth(rs, k), a |-> [j \in DOMAIN f.a |-> Nth(av[j], k)]]]
      all == IF Len(f.a) = 1 THEN [k \in DOMAIN av[1] |-> [s |-> Nth(rs, k), a |-> <<av[1][k]>>]]
             ELSE IF f.n \in {"FromMessage", "ToMessage"}       \* every payload with every form of id
             THEN LET q == Len(f.a) IN Cat([k \in DOMAIN (IF q = 2 THEN av[1] ELSE rs) |->
                    Each(<<None, Some(IdVals[1 + (k % 8)]), Some(IdVals[1 + ((k + 3) % 8)])>>,
                       LAMBDA oid : IF q = 2 THEN [s |-> None, a |-> <<av[1][k], oid>>] ELSE [s |-> rs[k], a |-> <<oid>>])])
             ELSE one \o vary \o diag
      toM == IF f.n = "ToMessage" THEN Cat([k \in DOMAIN rs |->
                    Each(<<None, Some(IdVals[1 + (k % 8)]), Some(IdVals[1 + ((k + 3) % 8)])>>, LAMBDA oid : [s |-> rs[k], a |-> <<oid>>])])
             ELSE IF Len(f.a) = 1 /\ f.s # "" THEN all \o one ELSE all
      d == IF Len(toM) > 60 THEN toM ELSE Dedup(toM)
      st == 1 + (Len(d) \div Cap)                      \* thinned evenly
  IN IF Len(d) <= Cap THEN d ELSE [k \in 1..(Len(d) \div st) |-> d[1 + (((k - 1) * st + ((Turn + k) % st)) % Len(d))]]

(* Every object of keywords.                                                                     *)
IsElicit(f) == f.o = PSD /\ f.n = "TryFrom"
ElicitCases == Each(ElicitDocs, LAMBDA d : [s |-> None, a |-> <<J(d)>>])
CasesOf(i) == IF IsElicit(Fns[i]) THEN ElicitCases ELSE IF IsGate(Fns[i]) THEN GateCases(Fns[i]) ELSE ListCases(Fns[i])

VARIABLES fn, ix, recv, args, out
vars == <<fn, ix, recv, args, out>>

ASSUME TLCSet(8, TLCEval([i \in FnIx |-> CasesOf(i)]))
Cases == TLCGet(8)

(* Free-form members must not repeat a declared name: the encoding of such a value is not       *)
(* specified (see DESIGN.md).                                                                    *)
Overlaps(f, v) ==
  /\ f.n = "new" /\ f.o \in DOMAIN Types /\ Types[f.o].k = "struct" /\ v[1] = "S"
  /\ \E i \in DOMAIN Types[f.o].f : LET g == Types[f.o].f[i] IN
       /\ g.m = "flat"
       /\ LET e == Enc(g.t, v[2][g.r]) IN IsObj(e) /\ DOMAIN e[2] \cap FlatKeys(Types[f.o].f) # {}
ArgOf(f, j, v) == IF v[1] \in {"js", "wrap"} THEN v ELSE Arg(f.a[j][2], v)
Step(i, k) ==
  LET f == Fns[i] c == Cases[i][k] r == Call(f, c.s, c.a) IN
  /\ recv' = c.s /\ args' = c.a /\ out' = r
  /\ IF r.v[1] = "unspecified" THEN PrintT("UNSPECIFIED " \o f.f)
     ELSE PrintT(ToJson([op |-> "call", f |-> f.f, s |-> IF f.s = "" THEN << >> ELSE Arg(RecT(f), c.s),
               a |-> [j \in DOMAIN c.a |-> ArgOf(f, j, c.a[j])], v |-> r.v, o |-> IF Overlaps(f, r.v) THEN << >> ELSE r.o, k |-> ""]))

Init == /\ fn \in FnIx /\ ix = 0 /\ recv = None /\ args = << >> /\ out = Unspecified
Next == /\ ix < Len(Cases[fn])
        /\ ix' = ix + 1 /\ fn' = fn
        /\ Step(fn, ix + 1)
Spec == Init /\ [][Next]_vars

F1 == Fns[fn]
Done == ix > 0 /\ out.v[1] # "unspecified"
(* Narrowing what was widened gives the original back, and only that.                            *)
ThereAndBack == Done /\ F1.n = "From" /\ F1.a[1][2][1] = "ref" /\ F1.o \in DOMAIN Types /\ Path(F1.a[1][2], F1.o, 5) # << >>
  => NarrowBy(Path(F1.a[1][2], F1.o, 5), LiftBy(Path(F1.a[1][2], F1.o, 5), args[1])) = Ok(args[1])
(* A payload becomes a message with exactly the id rule of its kind.                             *)
IdRule == Done /\ F1.n \in {"FromMessage", "ToMessage"} =>
  LET oid == args[Len(args)] IN
  IF IsOk(out.v) THEN
     LET m == out.v[2] sd == IF F1.n = "FromMessage" THEN SideOf(F1.o) ELSE SideOf(F1.f) IN
     /\ IdIn(sd \o "Message", m) = oid
     /\ (m[2] = "Notification") => oid = None
     /\ m[2] \in {"Request", "Response"} => oid # None
  ELSE TRUE
(* The kinds of a message exclude each other.                                                    *)
OneKind == Done /\ F1.n \in DOMAIN IsKind => Cardinality({k \in DOMAIN IsKind : KindOf(recv) = IsKind[k]}) = 1
(* Declaring everything allows every request, and a request that is allowed stays allowed when   *)
(* one more capability is declared; capabilities that are not needed play no part.               *)
CapsMonotone == Done /\ F1.n = "can_handle_request" /\ ix % 37 = 1 =>
  LET all == CapVals(F1.o) top == all[Len(all)] need(c) == Unmet(HandleGates(F1.o, c, args[1])) IN
  /\ need(top) \subseteq need(recv)
  /\ IsOk(out.v) <=> need(recv) = {}
(* What an accepted object says about choices and defaults is in the schema that was built, and  *)
(* a schema read from the document of a property schema is that schema.                          *)
ElicitFaithful == Done /\ IsElicit(F1) =>
  LET d == args[1][2] IN
  IF IsOk(out.v) THEN
    LET e == Enc(Ref(PSD), out.v[2]) IN
    /\ \A k \in {"enum", "oneOf", "enumNames", "items"} : Has(d, k) =>
         \/ ~Old /\ k \in {"enum", "enumNames"} /\ Has(d, "oneOf")
         \/ ~Old /\ k = "items" /\ (Has(d, "enum") \/ Has(d, "oneOf") \/ TypeName(d) # "array")
         \/ ~Old /\ k = "enumNames" /\ ~Has(d, "enum")
         \/ Old /\ (k = "items" \/ TypeName(d) \notin {"string", "enum", "(none)"})
         \/ Old /\ k = "enumNames" /\ ~Has(d, "enum")
         \/ Old /\ k \in {"enum", "enumNames"} /\ Has(d, "oneOf") /\ Has(e, "enum")
         \/ Old /\ k = "oneOf" /\ Has(e, "enum")
         \/ k \in {"enumNames"} /\ Get(d, k) = A(<< >>)
         \/ Has(e, k) /\ Get(e, k) = Get(d, k)
         \/ Has(e, k) /\ k \in {"oneOf", "items"}
    /\ ElicitOf(e) = Ok(out.v[2]) \/ (Old /\ Has(e, "enumNames"))
       \/ (Has(d, "enumNames") /\ Get(d, "enumNames") = A(<< >>))        \* no names at all are not written
  ELSE TRUE
=============================================================================
