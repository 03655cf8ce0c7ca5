-------------------------------- MODULE Gen ---------------------------------
(* Enumeration of documents for every protocol type: conforming ones (Valid) and documents   *)
(* that deviate in one place (Mutants).  Everything is a sequence, so that a document is      *)
(* addressed by its position.                                                                 *)
EXTENDS Codec, SequencesExt

CONSTANT Depth        \* nesting bound of the maximal documents

(* Concatenation of a sequence of sequences, by halves.                                       *)
RECURSIVE Cat(_)
Cat(ss) == IF Len(ss) = 0 THEN << >> ELSE IF Len(ss) = 1 THEN ss[1]
           ELSE LET h == Len(ss) \div 2 IN Cat(SubSeq(ss, 1, h)) \o Cat(SubSeq(ss, h + 1, Len(ss)))

RECURSIVE MinD(_)
RECURSIVE FullD(_, _)

ReqIx(fs) == {i \in DOMAIN fs : (~MayMiss(fs[i]) \/ Lax(fs[i])) /\ fs[i].m # "flat"}
MinFields(fs) ==
  LET R == ReqIx(fs)
      flats == {i \in DOMAIN fs : fs[i].m = "flat" /\ fs[i].t[1] = "ref"}
      own == [k \in {fs[i].n : i \in R} |-> MinD(fs[CHOOSE i \in R : fs[i].n = k].t)]
  IN IF flats = {} THEN own ELSE own @@ MinD(fs[CHOOSE i \in flats : TRUE].t)[2]
Extra == ("x-extra" :> S("e")) @@ ("$U" :> O("deep" :> A(<<I("1"), Z, EO>>)))
FullFields(fs, d) ==
  LET D == {i \in DOMAIN fs : fs[i].m # "flat"}
      own == [k \in {fs[i].n : i \in D} |-> FullD(fs[CHOOSE i \in D : fs[i].n = k].t, d)]
      flats == {i \in DOMAIN fs : fs[i].m = "flat"}
  IN IF flats = {} THEN own
     ELSE LET f == fs[CHOOSE i \in flats : TRUE] IN
          IF f.t[1] = "ref" THEN own @@ FullD(f.t, d)[2]
          ELSE IF f.t = <<"opt", <<"map">>>> THEN own @@ Extra
          ELSE own @@ FullD(f.t, d)[2]

Envelope(T, id, payload) ==   \* the envelope around {method, params}
  O([jsonrpc |-> S("2.0")] @@ (IF T.k = "envreq" THEN "id" :> id ELSE Empty) @@ payload[2])

MinNamed(T) ==
  CASE T.k = "struct" -> O(MinFields(T.f))
    [] T.k = "new" -> MinD(T.t)
    [] T.k = "untag" -> IF T.v[1].k = "sv" THEN O(MinFields(T.v[1].f)) ELSE MinD(T.v[1].t)
    [] T.k = "rtype" -> MinD(T.v[1].t)
    [] T.k = "unit" -> S(T.v[1][1])
    [] T.k = "dispatch" -> MinD(T.v[1].t)
    [] T.k = "orelse" -> MinD(T.t)
    [] T.k \in {"envreq", "envnot"} -> Envelope(T, I("1"), MinD(T.t))
    [] T.k = "envres" -> O([id |-> I("1"), jsonrpc |-> S("2.0"), result |-> MinD(T.t)])
MinD(t) ==
  CASE t[1] = "ref" -> MinNamed(Types[t[2]])
    [] t[1] = "str" -> S("a")
    [] t[1] = "cs" -> S(t[2])
    [] t[1] = "ci" -> <<"n", "i", t[2], t[2] \o ".0">>
    [] t[1] \in {"i64", "u64"} -> I("7")
    [] t[1] = "f64" -> F("0.5")
    [] t[1] = "bool" -> B(TRUE)
    [] t[1] = "val" -> S("any")
    [] t[1] = "map" -> EO
    [] t[1] \in {"opt", "nopt"} -> MinD(t[2])
    [] t[1] = "vec" -> A(<< >>)
    [] t[1] = "hmap" -> EO

Last2(s) == s[Len(s)]
FullNamed(T, d) ==
  CASE T.k = "struct" -> O(FullFields(T.f, d - 1))
    [] T.k = "new" -> FullD(T.t, d)
    [] T.k = "untag" -> LET v == IF d % 2 = 1 THEN Last2(T.v) ELSE T.v[1] IN
                        IF v.k = "sv" THEN O(FullFields(v.f, d - 1)) ELSE FullD(v.t, d)
    [] T.k = "rtype" -> FullD(T.v[2].t, d)
    [] T.k = "unit" -> S(Last2(T.v)[1])
    [] T.k = "dispatch" -> FullD(Last2(T.v).t, d)
    [] T.k = "orelse" -> FullD(T.t, d)
    [] T.k \in {"envreq", "envnot"} -> Envelope(T, S("id-$"), FullD(T.t, d))
    [] T.k = "envres" -> O([id |-> S("7"), jsonrpc |-> S("2.0"), result |-> FullD(T.t, d)])
FullD(t, d) ==
  IF d <= 0 THEN MinD(t) ELSE
  CASE t[1] = "ref" -> FullNamed(Types[t[2]], d)
    [] t[1] = "str" -> S("$U")
    [] t[1] = "i64" -> I("-7")
    [] t[1] = "u64" -> I("42")
    [] t[1] = "f64" -> I("2")
    [] t[1] = "bool" -> B(FALSE)
    [] t[1] = "val" -> O("k" :> A(<<I("1"), F("2.5"), B(TRUE), Z, S("$U")>>))
    [] t[1] = "map" -> O(("k" :> O("deep" :> A(<<S("x"), EO>>))) @@ ("$U" :> Z) @@ ("" :> I("0")))
    [] t[1] \in {"opt", "nopt"} -> FullD(t[2], d)
    [] t[1] = "vec" -> A(<<FullD(t[2], d - 1), MinD(t[2])>>)
    [] t[1] = "hmap" -> O(("k1" :> FullD(t[2], d - 1)) @@ ("$U" :> MinD(t[2])))
    [] OTHER -> MinD(t)

MinOf == [n \in DOMAIN Types |-> MinD(Ref(n))]
FullOf == [n \in DOMAIN Types |-> FullD(Ref(n), Depth)]
DMin(n) == MinOf[n]
DFull(n) == FullOf[n]

(* ------------------------------------------------- conforming values of a type ---------- *)
RECURSIVE Alts(_)       \* one document or two per alternative
RECURSIVE AltsNamed(_)
Map1(f(_), s) == [i \in DOMAIN s |-> f(s[i])]
AltsNamed(n) ==
  LET T == Types[n] IN
  CASE T.k = "struct" -> <<DMin(n), DFull(n)>>
    [] T.k = "new" -> Alts(T.t)
    [] T.k = "unit" -> [i \in DOMAIN T.v |-> S(T.v[i][1])]
    [] T.k = "untag" -> Cat([i \in DOMAIN T.v |->
            IF T.v[i].k = "sv" THEN <<O(MinFields(T.v[i].f)), O(FullFields(T.v[i].f, Depth))>> ELSE Alts(T.v[i].t)])
    [] T.k \in {"dispatch", "rtype"} -> Cat([i \in DOMAIN T.v |-> Alts(T.v[i].t)])
    [] T.k = "orelse" -> Alts(T.t)
    [] T.k \in {"envreq", "envnot"} -> LET a == Alts(T.t) IN [i \in DOMAIN a |-> Envelope(T, I("5"), a[i])]
    [] T.k = "envres" -> LET a == Alts(T.t) IN
         [i \in DOMAIN a |-> O([id |-> S("r"), jsonrpc |-> S("2.0"), result |-> a[i]])]
Alts(t) ==
  CASE t[1] = "ref" -> AltsNamed(t[2])
    [] t[1] \in {"opt", "nopt"} -> Alts(t[2])
    [] t[1] = "str" -> <<S("a"), S("")>>
    [] t[1] \in {"i64", "u64"} -> <<I("0"), I("7")>>
    [] t[1] = "f64" -> <<F("0.5"), I("3")>>
    [] t[1] = "bool" -> <<B(TRUE), B(FALSE)>>
    [] OTHER -> <<MinD(t), FullD(t, 2)>>

Rep(x, k) == [i \in 1..k |-> x]
RECURSIVE Vars(_)
Vars(t) ==
  CASE t[1] = "str" -> <<S("a"), S(""), S("$U"), S("$L"), S("123"), S("null"), S(" x "), S("$C")>>
    [] t[1] = "i64" -> <<I("0"), I("1"), I("-1"), I("2147483648"), I64Max, I64Min>>
    [] t[1] = "u64" -> <<I("0"), I("1"), I("2147483648"), I64Max, U63, U64Max>>
    [] t[1] = "f64" -> <<I("0"), F("0.0"), F("0.5"), I("3"), F("-2.25"), F("1e+100"), I("100"), F("1.0")>>
    [] t[1] = "bool" -> <<B(TRUE), B(FALSE)>>
    [] t[1] = "val" -> <<S("any"), S(""), I("5"), U64Max, F("0.1"), B(FALSE), A(<< >>), A(<<Z, EO, S("$U")>>), EO,
                         O(("a" :> O("b" :> O("c" :> A(<<A(<<I64Min>>)>>)))) @@ ("$U" :> Z))>>
    [] t[1] = "map" -> <<EO, O("k" :> Z), O(("type" :> S("text")) @@ ("method" :> I("1")) @@ ("id" :> A(<< >>))),
                         O(("" :> U64Max) @@ ("$U" :> S("$L")) @@ ("n" :> O("n" :> O("n" :> F("0.1")))))>>
    [] t[1] = "opt" -> Vars(t[2])
    [] t[1] = "nopt" -> Append(Vars(t[2]), Z)
    [] t[1] = "vec" -> LET a == Alts(t[2]) IN
         <<A(<< >>), A(<<MinD(t[2])>>), A(Rep(MinD(t[2]), 9)), A(a), A(Reverse(a))>>
         \o [i \in DOMAIN a |-> A(<<a[i]>>)]
    [] t[1] = "hmap" -> LET a == Alts(t[2]) IN
         <<EO, O(("" :> MinD(t[2])) @@ ("$U" :> FullD(t[2], 2))),
           O([k \in {"k" \o ToString(i) : i \in DOMAIN a} |->
                a[CHOOSE i \in DOMAIN a : k = "k" \o ToString(i)]])>>
         \o [i \in DOMAIN a |-> O("key" :> a[i])]
    [] t[1] = "ref" -> IF Types[t[2]].k = "new" THEN Vars(Types[t[2]].t)
                       ELSE IF t[2] \in {"RequestId", "ProgressToken"} THEN Vars(<<"str">>) \o Vars(<<"i64">>)
                       ELSE AltsNamed(t[2])
    [] OTHER -> <<MinD(t)>>

Nullable(f) == f.t[1] = "opt" /\ f.t[2][1] # "cs" /\ f.m \in {"skip", "req", "nullout"}

(* ------------------------------------------------- cases of a type ---------------------- *)
(* A case: label |-> how it was made, d |-> the document.                                     *)
C(l, d) == [l |-> l, d |-> d]

ValidStruct(fs, mn, fl) ==
  <<C("min", mn), C("full", fl)>>
  \o Cat([i \in DOMAIN fs |->
       LET f == fs[i] vs == IF f.m = "flat" THEN << >> ELSE Vars(f.t) IN
       Cat([k \in DOMAIN vs |-> <<C("field", With(mn, f.n, vs[k])), C("field", With(fl, f.n, vs[k]))>>])])
  \o Cat([i \in DOMAIN fs |->
       LET f == fs[i] IN
       IF f.m = "flat" THEN << >>
       ELSE (IF MayMiss(f) THEN <<C(IF Lax(f) THEN "lenient" ELSE "without", Without(fl, f.n))>> ELSE << >>)
            \o (IF Nullable(f) THEN <<C("null", With(fl, f.n, Z)), C("null", With(mn, f.n, Z))>> ELSE << >>)])
  \o (IF HasFlat(fs) /\ \E i \in DOMAIN fs : fs[i].m = "flat" /\ fs[i].t = <<"opt", <<"map">>>>
      THEN <<C("extra", O(mn[2] @@ Extra)), C("extra", With(mn, "$L", I64Max))>> ELSE << >>)

Wrong == <<Z, B(TRUE), I("5"), I("-7"), F("1.5"), U64Max, S("bogus"), A(<< >>), A(<<S("x")>>), EO, O("zz" :> S("x"))>>

(* Altered spellings, made by the harness (and always different from the original): swapped    *)
(* case, capitalised, one character short, its beginning, other separators, plural.           *)
Misspelt(x) == <<S("$^" \o x), S("$+" \o x), S("$-" \o x), S("$4" \o x), S("$3" \o x), S("$h" \o x),
                 S("$_" \o x), S("$k" \o x), S(x \o "s")>>
NearMiss(t) ==
  CASE t[1] = "cs" -> <<S(t[2] \o "x"), S(""), S(" " \o t[2])>> \o Misspelt(t[2])
    [] t[1] = "ci" -> <<I("0"), S(t[2])>>
    [] t[1] = "ref" -> LET T == Types[t[2]] IN
         IF T.k = "unit" THEN
           Cat([i \in DOMAIN T.v |-> <<S(T.v[i][1] \o "x")>> \o Misspelt(T.v[i][1])
                  \o (IF \E k \in DOMAIN T.v : T.v[k][1] = T.v[i][2] THEN << >> ELSE <<S(T.v[i][2])>>)]) \o <<S("")>>
         ELSE << >>
    [] OTHER -> << >>
Inner(t) == IF t[1] \in {"opt", "nopt"} THEN t[2] ELSE t

(* Structurally deviating nested documents of a struct type: one required member dropped.     *)
Broken(t) ==
  IF t[1] = "ref" /\ Types[t[2]].k = "struct" THEN
    LET fs == Types[t[2]].f IN
    Cat([i \in DOMAIN fs |-> IF i \in ReqIx(fs)
                 THEN <<Without(DMin(t[2]), fs[i].n), With(DFull(t[2]), fs[i].n, EO)>> ELSE << >>])
  ELSE IF t[1] = "vec" /\ t[2][1] = "ref" /\ Types[t[2][2]].k = "struct" THEN
    LET n == t[2][2] fs == Types[n].f IN
    Cat([i \in DOMAIN fs |-> IF i \in ReqIx(fs)
                 THEN <<A(<<DMin(n), Without(DMin(n), fs[i].n)>>)>> ELSE << >>])
    \o <<A(<<Z>>), A(<<DMin(n), S("x")>>)>>
  ELSE IF t[1] = "vec" THEN <<A(<<Z>>), A(<<EO>>), A(<<MinD(t[2]), B(TRUE)>>), A(<<MinD(t[2]), I("5")>>), A(<<S("bogus")>>)>>
  ELSE IF t[1] = "hmap" THEN <<O("k" :> Z), O("k" :> B(TRUE)), O(("k" :> MinD(t[2])) @@ ("l" :> I("5")))>>
  ELSE << >>

MutField(f, mn, fl) ==
  LET t == Inner(f.t)
      const == t[1] \in {"cs", "ci"}
      nm == NearMiss(t)
      br == Broken(t)
  IN (IF MayMiss(f) THEN << >>
      ELSE <<C(IF const THEN "const" ELSE "drop", Without(mn, f.n)), C(IF const THEN "const" ELSE "drop", Without(fl, f.n))>>)
     \o Cat([k \in DOMAIN Wrong |->
          LET lab == IF const /\ ~(Wrong[k] = Z /\ f.t[1] = "opt") THEN "const" ELSE "kind" IN
          <<C(lab, With(mn, f.n, Wrong[k])), C(lab, With(fl, f.n, Wrong[k]))>>])
     \o Cat([k \in DOMAIN nm |->
          <<C(IF const THEN "const" ELSE "enum", With(mn, f.n, nm[k])),
            C(IF const THEN "const" ELSE "enum", With(fl, f.n, nm[k]))>>])
     \o [k \in DOMAIN br |-> C("nested", With(mn, f.n, br[k]))]

MutStruct(fs, mn, fl) ==
  Cat([i \in DOMAIN fs |-> IF fs[i].m = "flat" THEN << >> ELSE MutField(fs[i], mn, fl)])
  \o <<C("unknown", With(mn, "x-unknown", S("u"))), C("unknown", With(fl, "x-unknown", O("a" :> Z)))>>

RootKinds(n) == [k \in DOMAIN Wrong |-> C("root", Wrong[k])]

RECURSIVE Valid(_)
RECURSIVE Mutants(_)
(* A union offers the cases of its alternatives.                                              *)
OfAlt(e, op(_)) == IF e.t[1] = "ref" THEN op(e.t[2])
                   ELSE LET vs == Vars(e.t) IN [k \in DOMAIN vs |-> C("min", vs[k])]
ValidVariant(v) == IF v.k = "sv" THEN ValidStruct(v.f, O(MinFields(v.f)), O(FullFields(v.f, Depth)))
                   ELSE LET t == Inner(v.t) IN
                        IF t[1] = "ref" THEN Valid(t[2])
                        ELSE LET vs == Vars(t) IN [k \in DOMAIN vs |-> C("alt", vs[k])]
MutVariant(v) == IF v.k = "sv" THEN MutStruct(v.f, O(MinFields(v.f)), O(FullFields(v.f, Depth)))
                 ELSE LET t == Inner(v.t) IN
                      IF t[1] = "ref" THEN Mutants(t[2])
                      ELSE LET br == Broken(t) IN [k \in DOMAIN br |-> C("nested", br[k])]
Wrap(T, id, cs) == [k \in DOMAIN cs |->
     IF cs[k].l = "root" THEN cs[k]
     ELSE [cs[k] EXCEPT !.d = IF T.k = "envres" THEN O([id |-> id, jsonrpc |-> S("2.0"), result |-> cs[k].d])
                              ELSE Envelope(T, id, cs[k].d)]]
Valid(n) ==
  LET T == Types[n] IN
  CASE T.k = "struct" -> ValidStruct(T.f, DMin(n), DFull(n))
    [] T.k = "unit" -> LET a == AltsNamed(n) IN [i \in DOMAIN a |-> C("min", a[i])]
    [] T.k = "new" -> LET vs == Vars(T.t) IN [i \in DOMAIN vs |-> C("alt", vs[i])]
    [] T.k = "untag" -> Cat([i \in DOMAIN T.v |-> ValidVariant(T.v[i])])
    [] T.k \in {"dispatch", "rtype"} -> Cat([i \in DOMAIN T.v |-> Valid(T.v[i].t[2])])
    [] T.k = "orelse" -> Valid(T.t[2])
    [] T.k \in {"envreq", "envnot", "envres"} -> Wrap(T, I("3"), Valid(T.t[2]))
Mutants(n) ==
  LET T == Types[n] IN
  CASE T.k = "struct" -> MutStruct(T.f, DMin(n), DFull(n))
    [] T.k = "unit" -> LET nm == NearMiss(Ref(n)) IN [i \in DOMAIN nm |-> C("enum", nm[i])]
    [] T.k = "new" -> LET br == Broken(T.t) IN [i \in DOMAIN br |-> C("nested", br[i])]
    [] T.k = "untag" -> Cat([i \in DOMAIN T.v |-> MutVariant(T.v[i])])
    [] T.k \in {"dispatch", "rtype"} -> Cat([i \in DOMAIN T.v |-> Mutants(T.v[i].t[2])])
    [] T.k = "orelse" -> Mutants(T.t[2])
    [] T.k \in {"envreq", "envnot", "envres"} -> Wrap(T, I("3"), Mutants(T.t[2]))
=============================================================================
