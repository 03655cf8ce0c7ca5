-------------------------------- MODULE ChainMC -------------------------------
(* Builder calls one after another on one object: a state machine whose state is the object     *)
(* and whose steps are the builder methods of its type.  Every history up to MaxLen (or a       *)
(* random longer one, under simulation) is printed together with the object it must leave; the  *)
(* harness makes the same calls on a real object.                                               *)
EXTENDS Call, Json

CONSTANTS MaxLen,            \* calls in a history
          Vals               \* values tried for an argument

BuilderNames == DOMAIN FieldOfBuilder \cup DOMAIN TraceOfBuilder
                \cup {"add_content", "insert", "add", "add_raw", "add_if", "with_related_task_id", "set_related_task_id"}
IsBuilder(f) == f.n \in BuilderNames /\ f.s # "" /\ ~(f.o = "RequestFromClient" /\ f.n = "with_input_responses")
Builders == {i \in DOMAIN Fns : IsBuilder(Fns[i])}
Owners == {Fns[i].o : i \in Builders}

(* Distinct values for an argument: the first, the last and one in between.                      *)
Spread(s) == Dedup(IF Len(s) <= Vals THEN s
                   ELSE [k \in 1..Vals |-> s[1 + (((k - 1) * (Len(s) - 1)) \div (IF Vals = 1 THEN 1 ELSE Vals - 1))]])
ArgVals(f, j) ==
  LET t == f.a[j][2] nm == f.a[j][1] IN
  CASE f.o = "InputResponses" /\ j = 1 -> Each(<<"k", "$U", "">>, S)
    [] f.o = "Map" /\ nm = "key" -> Each(<<"k", RelKey, "$U">>, S)
    [] nm = "data" /\ t[1] \in {"opt", "nopt"} -> <<Some(J(O("a" :> I("1")))), None, Some(J(S("x")))>>
    [] t[1] = "str" -> Each(<<"one", "two", "$U">>, S)
    [] t[1] = "map" -> <<J(O("a" :> I("1"))), J(O(("a" :> I("2")) @@ ("b" :> Z))), J(EO)>>
    [] t = <<"val">> -> <<J(O("a" :> A(<<I("1"), Z>>))), J(S("x")), J(Z)>>
    [] OTHER -> TV(t)
(* All arguments vary together for one-argument methods; otherwise keys by values.              *)
RECURSIVE Tuples(_)
Tuples(ss) == IF ss = << >> THEN <<<< >>>>
              ELSE Cat(Each(ss[1], LAMBDA x : Each(Tuples(Tail(ss)), LAMBDA r : <<x>> \o r)))
ArgTuples(f) == Tuples([j \in DOMAIN f.a |-> Spread(ArgVals(f, j))])

Starts(o) ==
  CASE o = "Map" -> <<J(EO), J(O((RelKey :> RelTask(S("old"))) @@ ("k" :> S("old")) @@ ("z" :> Z)))>>
    [] o = "InputResponses" -> <<<<"M", Empty>>>>
    [] o = "RequestFromClient" -> LET t == TV(Ref(o)) IN SelectSeq(t, LAMBDA v : v[2] \in {"CallToolRequest", "GetPromptRequest", "ListToolsRequest", "CustomRequest"})
    [] o \in DOMAIN Types /\ Types[o].k = "struct" -> LET t == TV(Ref(o)) IN <<t[1], t[Len(t)]>>
    [] OTHER -> TV(Ref(o))

(* TLC evaluates the tables once.                                                                *)
ASSUME TLCSet(7, TLCEval([i \in Builders |-> ArgTuples(Fns[i])]))
ASSUME TLCSet(6, TLCEval([o \in Owners |-> Dedup(Starts(o))]))

VARIABLES ty, start, hist, obj      \* type, initial object, calls made, object now
vars == <<ty, start, hist, obj>>

Enc1(t, v) == IF t = "Map" THEN v[2] ELSE Enc(Ref(t), v)
Row(t, s, h, v) ==
  [op |-> "chain", t |-> t, s |-> Arg(Ref(t), s), v |-> v, o |-> <<Enc1(t, v)>>, k |-> "",
   c |-> [i \in DOMAIN h |-> <<Fns[h[i][1]].n, [j \in DOMAIN h[i][2] |-> Arg(Fns[h[i][1]].a[j][2], h[i][2][j])]>>]]

Init == /\ ty \in Owners
        /\ \E k \in DOMAIN TLCGet(6)[ty] : start = TLCGet(6)[ty][k] /\ obj = TLCGet(6)[ty][k]
        /\ hist = << >>
Step(i, a) ==
  LET f == Fns[i] v == Build(ty, f.n, obj, a) h == Append(hist, <<i, a>>) IN
  /\ obj' = v /\ hist' = h /\ UNCHANGED <<ty, start>>
  /\ PrintT(ToJson(Row(ty, start, h, v)))
Next == /\ Len(hist) < MaxLen
        /\ \E i \in Builders : Fns[i].o = ty /\ \E k \in DOMAIN TLCGet(7)[i] : Step(i, TLCGet(7)[i][k])
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------ properties --------------- *)
CallsOf(ns) == SelectSeq(hist, LAMBDA c : Fns[c[1]].n \in ns)
LastArg(ns, j) == LET h == CallsOf(ns) IN h[Len(h)][2][j]
Plain1(n) == n \in DOMAIN FieldOfBuilder
Untag1(v) == IF v[1] = "J" THEN v[2] ELSE v
(* Every member equals the last value given for it; one never named keeps its first value.       *)
LastGiven == ty \in DOMAIN Types /\ Types[ty].k = "struct" /\ ty # "GetTaskPayloadResult" =>
  \A r \in DOMAIN obj[2] :
    LET ns == {n \in DOMAIN FieldOfBuilder : FieldOfBuilder[n] = r} IN
    IF CallsOf(ns) # << >> THEN Untag1(obj[2][r]) = Untag1(LastArg(ns, 1))
    ELSE IF r = "content" /\ CallsOf({"add_content"}) # << >> THEN
      LET h == CallsOf({"add_content"}) IN
      obj[2].content[2] = start[2].content[2] \o [i \in DOMAIN h |-> h[i][2][1]]
    ELSE IF r = "extra" /\ CallsOf(DOMAIN TraceOfBuilder) # << >> THEN
      /\ \A n \in DOMAIN TraceOfBuilder : CallsOf({n}) # << >> => Get(ExtraOf(obj), TraceOfBuilder[n]) = LastArg({n}, 1)
      /\ \A k \in DOMAIN ExtraOf(start)[2] \ {TraceOfBuilder[n] : n \in {m \in DOMAIN TraceOfBuilder : CallsOf({m}) # << >>}} :
           Get(ExtraOf(obj), k) = Get(ExtraOf(start), k)
    ELSE obj[2][r] = start[2][r]
(* A map holds for every key the last value put there; other keys are untouched.                 *)
KeyPut(c) == LET n == Fns[c[1]].n IN
  CASE n \in {"add", "add_raw"} -> {<<Txt(c[2][1]), c[2][2][2]>>}
    [] n = "add_if" -> IF c[2][1] = B(TRUE) THEN {<<Txt(c[2][2]), c[2][3][2]>>} ELSE {}
    [] OTHER -> {<<RelKey, RelTask(c[2][1])>>}
MapKeeps == ty = "Map" =>
  \A k \in DOMAIN obj[2][2] \cup DOMAIN start[2][2] :
    LET w == {i \in DOMAIN hist : \E p \in KeyPut(hist[i]) : p[1] = k} IN
    IF w = {} THEN Get(obj[2], k) = Get(start[2], k)
    ELSE LET i == CHOOSE i \in w : \A x \in w : x <= i IN \E p \in KeyPut(hist[i]) : Get(obj[2], k) = p[2]
(* Calls on different members commute.                                                           *)
Commute == Len(hist) >= 2 =>
  LET x == hist[Len(hist) - 1] y == hist[Len(hist)] fx == Fns[x[1]] fy == Fns[y[1]] IN
  fx.n # fy.n /\ Plain1(fx.n) /\ Plain1(fy.n) /\ FieldOfBuilder[fx.n] # FieldOfBuilder[fy.n]
    => \A s \in {start} : Build(ty, fy.n, Build(ty, fx.n, s, x[2]), y[2]) = Build(ty, fx.n, Build(ty, fy.n, s, y[2]), x[2])
=============================================================================
