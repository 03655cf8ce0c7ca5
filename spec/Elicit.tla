-------------------------------- MODULE Elicit -------------------------------
(* Property schemas of an elicitation form, read from the JSON object of a tool's schema.       *)
(* The kind is chosen from type and keywords; every keyword of that kind is carried over; an    *)
(* object of no supported kind, or with ill-formed choices, is refused.                         *)
(* A keyword of a plain string, number or boolean schema whose value has the wrong type counts  *)
(* as absent; a choice schema with a member of the wrong type is refused.                       *)
EXTENDS Caps

PSD == "PrimitiveSchemaDefinition"
HasPSD == PSD \in DOMAIN Types
At(m, k) == IF Has(m, k) THEN Get(m, k) ELSE <<"nothing">>
StrAt(m, k) == LET x == At(m, k) IN IF x[1] = "s" THEN Some(x) ELSE None
BoolAt(m, k) == LET x == At(m, k) IN IF x[1] = "b" THEN Some(x) ELSE None
IntAt(m, k) == LET x == At(m, k) IN IF x[1] = "n" /\ x[2] = "i" THEN Some(x) ELSE None
NumAt(m, k) == LET x == At(m, k) IN IF x[1] = "n" THEN Some(Dec(<<"f64">>, x)[2]) ELSE None
FormatAt(m) == LET x == At(m, "format") r == Dec(Ref("StringSchemaFormat"), x) IN
               IF x[1] = "s" /\ IsOk(r) THEN Some(r[2]) ELSE None
TypeName(m) == LET x == At(m, "type") IN IF x[1] = "s" THEN x[2] ELSE "(none)"

Refused == Err
Made(n, v) == Ok(E1(n, v))
(* Read as a whole by the type of the choices.                                                  *)
Whole(n, m) == LET r == Dec(Ref(n), m) IN IF IsOk(r) THEN Made(n, r[2]) ELSE Refused
OnlyThose(n, g) == [r \in DOMAIN g \cap RustFields(Types[n].f) |-> g[r]]     \* the members a version knows

StringOf(m) == Made("StringSchema", StructN("StringSchema", OnlyThose("StringSchema",
  [default |-> StrAt(m, "default"), description |-> StrAt(m, "description"), format |-> FormatAt(m),
   max_length |-> IntAt(m, "maxLength"), min_length |-> IntAt(m, "minLength"), title |-> StrAt(m, "title")])))
NumberOf(m) == Made("NumberSchema", StructN("NumberSchema", OnlyThose("NumberSchema",
  [default |-> NumAt(m, "default"), description |-> StrAt(m, "description"), maximum |-> NumAt(m, "maximum"),
   minimum |-> NumAt(m, "minimum"), title |-> StrAt(m, "title"),
   type_ |-> <<"U", IF TypeName(m) = "integer" THEN "Integer" ELSE "Number">>])))
BooleanOf(m) == Made("BooleanSchema", StructN("BooleanSchema",
  [default |-> BoolAt(m, "default"), description |-> StrAt(m, "description"), title |-> StrAt(m, "title")]))
Plain(m) == CASE TypeName(m) = "string" -> StringOf(m)
              [] TypeName(m) \in {"number", "integer"} -> NumberOf(m)
              [] TypeName(m) = "boolean" -> BooleanOf(m)
              [] OTHER -> Refused

(* 2025-06-18: choices as enum/enumNames, or oneOf with one entry {enum: [value], title} each.  *)
GoodChoice(x) == At(x, "enum")[1] = "a" /\ Get(x, "enum")[2] # << >> /\ Get(x, "enum")[2][1][1] = "s"
ChoiceVal(x) == Get(x, "enum")[2][1]
ChoiceName(x) == IF StrAt(x, "title") = None THEN ChoiceVal(x) ELSE Get(x, "title")
OneOfChoices(m) ==
  LET x == At(m, "oneOf") IN
  IF x[1] # "a" \/ \E i \in DOMAIN x[2] : ~GoodChoice(x[2][i]) THEN Refused
  ELSE Made("EnumSchema", StructN("EnumSchema",
         [description |-> StrAt(m, "description"), title |-> StrAt(m, "title"),
          enum_ |-> <<"V", [i \in DOMAIN x[2] |-> ChoiceVal(x[2][i])]>>,
          enum_names |-> <<"V", [i \in DOMAIN x[2] |-> ChoiceName(x[2][i])]>>]))
OldElicit(m) ==
  LET ty == TypeName(m) IN
  CASE ty = "string" /\ Has(m, "oneOf") -> OneOfChoices(m)
    [] ty = "string" /\ Has(m, "enum") -> Whole("EnumSchema", m)
    [] ty \in {"(none)", "enum"} -> OneOfChoices(m)
    [] OTHER -> Plain(m)

(* Later versions.                                                                              *)
NewElicit(m) ==
  LET items == At(m, "items") IN
  CASE Has(m, "oneOf") -> Whole("TitledSingleSelectEnumSchema", m)
    [] Has(m, "enum") /\ Has(m, "enumNames") -> Whole("LegacyTitledEnumSchema", m)
    [] Has(m, "enum") -> Whole("UntitledSingleSelectEnumSchema", m)
    [] TypeName(m) = "array" -> IF Has(items, "anyOf") THEN Whole("TitledMultiSelectEnumSchema", m)
                                ELSE IF Has(items, "enum") THEN Whole("UntitledMultiSelectEnumSchema", m)
                                ELSE Refused
    [] OTHER -> Plain(m)
ElicitOf(m) == IF Old THEN OldElicit(m) ELSE NewElicit(m)

(* ------------------------------------------------------------ objects ------------------ *)
Obj(d) == d[1] = "o"
Docs(cs) == LET ok == SelectSeq(cs, LAMBDA x : Obj(x.d)) IN [i \in DOMAIN ok |-> ok[i].d]
SchemaNames == {"StringSchema", "NumberSchema", "BooleanSchema", "EnumSchema"} \cap DOMAIN Types
OwnDocs == Cat([i \in 1..Cardinality(SchemaNames) |-> LET n == SetToSeq(SchemaNames)[i] IN Docs(Valid(n)) \o Docs(Mutants(n))])
OneOfs == <<A(<< >>), A(<<O(("const" :> S("a")) @@ ("title" :> S("$U"))), O(("const" :> S("b")) @@ ("title" :> S("")))>>),
  A(<<O("const" :> S("a"))>>),
  A(<<O("enum" :> A(<<S("a")>>)), O(("enum" :> A(<<S("b"), S("c")>>)) @@ ("title" :> S("Bee"))), O(("enum" :> A(<<S("$U")>>)) @@ ("title" :> I("5")))>>),
  A(<<O("enum" :> A(<<S("a")>>)), O("enum" :> A(<< >>))>>), A(<<O("enum" :> A(<<I("1")>>))>>), A(<<O("title" :> S("t")), S("a")>>), A(<<S("a")>>),
  O("enum" :> A(<<S("a")>>)), S("a"), Z>>
Enums == <<A(<<S("a"), S("$U"), S("")>>), A(<< >>), A(<<S("a"), I("1")>>), S("a"), Z>>
EnumNames == <<A(<<S("Ay"), S("$L"), S("b")>>), A(<< >>), A(<<S("Ay")>>), A(<<I("1")>>), Z>>
ItemDocs == <<O(("type" :> S("string")) @@ ("enum" :> A(<<S("a"), S("$U")>>))), O("enum" :> A(<<S("a")>>)),
  O("anyOf" :> A(<<O(("const" :> S("a")) @@ ("title" :> S("$U")))>>)), O("anyOf" :> A(<<O("const" :> S("a"))>>)),
  O(("anyOf" :> A(<<O(("const" :> S("a")) @@ ("title" :> S("A")))>>)) @@ ("enum" :> A(<<S("z")>>)) @@ ("type" :> S("string"))),
  O("oneOf" :> A(<< >>)), EO, A(<< >>), S("enum"), Z>>
TypeDocs == Each(<<"string", "number", "integer", "boolean", "array", "enum", "object", "null", "", "String", "$U">>, S) \o <<Z, I("1"), A(<<S("string")>>)>>
DefaultDocs == <<S("d"), S(""), S("$U"), I("3"), F("2.5"), U64Max, I("-7"), B(TRUE), B(FALSE), A(<<S("a")>>), A(<<I("1")>>), EO, Z>>
SizeDocs == <<I("0"), I("7"), I("-1"), I64Max, I64Min, U64Max, F("5.0"), F("0.5"), S("5"), B(TRUE), Z>>
FormatDocs == Each(<<"date", "date-time", "email", "uri", "Date", "datetime", "DateTime", "", "$U", "uri ">>, S) \o <<I("1"), Z>>
TextDocs == <<S("some text"), S(""), S("$U"), S("$L"), I("1"), A(<<S("x")>>), Z>>
Keywords == <<[k |-> "title", d |-> TextDocs], [k |-> "description", d |-> TextDocs], [k |-> "default", d |-> DefaultDocs],
  [k |-> "format", d |-> FormatDocs], [k |-> "maxLength", d |-> SizeDocs], [k |-> "minLength", d |-> SizeDocs],
  [k |-> "maximum", d |-> SizeDocs], [k |-> "minimum", d |-> SizeDocs], [k |-> "enum", d |-> Enums], [k |-> "enumNames", d |-> EnumNames],
  [k |-> "oneOf", d |-> OneOfs], [k |-> "items", d |-> ItemDocs], [k |-> "maxItems", d |-> SizeDocs], [k |-> "minItems", d |-> SizeDocs],
  [k |-> "x-other", d |-> <<S("x"), Z>>]>>
KwIx == DOMAIN Keywords
Bases == <<EO>> \o Each(TypeDocs, LAMBDA t : O("type" :> t))
Put(d, w, j) == With(d, Keywords[w].k, Keywords[w].d[1 + (j % Len(Keywords[w].d))])
(* One keyword at a time on every type; then every pair of keywords; then many at once.          *)
OneKw == Cat([b \in DOMAIN Bases |-> Cat([w \in KwIx |-> [j \in DOMAIN Keywords[w].d |-> Put(Bases[b], w, j - 1)]])])
TwoKw == Cat([b \in DOMAIN Bases |-> Cat([w \in KwIx |-> Cat([x \in 1..w - 1 |->
           [j \in 1..3 |-> Put(Put(Bases[b], w, (b * 5 + x * 3 + j * 7)), x, (b + w + j * 2))]])])])
RECURSIVE Many(_, _, _)
Many(d, w, n) == IF w > Len(Keywords) THEN d
                 ELSE Many(IF (n \div (w + 1)) % 3 = 0 \/ (n * 7 + w * w) % 5 = 0 THEN Put(d, w, (n * (w + 2)) \div 3) ELSE d, w + 1, n)
ManyKw == [n \in 1..800 |-> Many(Bases[1 + (n % Len(Bases))], 1, n)]
ElicitDocs == SetToSeq(ToSet(Bases \o OwnDocs \o OneKw \o TwoKw \o ManyKw))
=============================================================================
