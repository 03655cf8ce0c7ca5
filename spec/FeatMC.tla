-------------------------------- MODULE FeatMC --------------------------------
(* Which of the features of the crate can be enabled together, and what each combination offers: *)
(* one module per enabled version, the utilities beside the types of every version when they are  *)
(* enabled, and at the root the one of the three newest versions that is enabled, if any.          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

VARIABLES on, aliased, told
vars == <<on, aliased, told>>

Older == {"2024_11_05", "2025_03_26", "2025_06_18"}
AtRoot == {"2025_11_25", "2026_07_28", "draft"}
Versions == Older \cup AtRoot
(* Features that stand for others.                                                               *)
Stands == [latest |-> {"2026_07_28"}, asdefault |-> {"2026_07_28", "schema_utils"}]
NameOf == [v \in Versions |-> CASE v = "2024_11_05" -> "2024-11-05" [] v = "2025_03_26" -> "2025-03-26" [] v = "2025_06_18" -> "2025-06-18"
                               [] v = "2025_11_25" -> "2025-11-25" [] OTHER -> "2026-07-28"]
Documented(s) == Cardinality(s \cap AtRoot) <= 1

Init == on = {} /\ aliased = {} /\ told = FALSE
Enable == /\ ~told
          /\ \E f \in (Versions \cup {"schema_utils"}) \ on : Documented(on \cup {f}) /\ on' = on \cup {f}
          /\ UNCHANGED <<aliased, told>>
EnableAlias == /\ ~told
               /\ \E a \in DOMAIN Stands \ aliased : Documented(on \cup Stands[a]) /\ on' = on \cup Stands[a] /\ aliased' = aliased \cup {a}
               /\ UNCHANGED told
(* What the combination offers.                                                                   *)
Root == LET r == on \cap AtRoot IN IF r = {} THEN "none" ELSE CHOOSE v \in r : TRUE
Module(v) == "mcp_" \o v
Offer == [root |-> IF Root = "none" THEN "none" ELSE NameOf[Root],
          rootIs |-> IF Root = "none" THEN {} ELSE {Module(Root)},
          rootUtils |-> IF Root = "none" \/ "schema_utils" \notin on THEN {} ELSE {Module(Root)},
          modules |-> {<<Module(v), NameOf[v], "schema_utils" \in on>> : v \in on \cap Versions},
          latest |-> "2026-07-28"]
Tell == /\ ~told /\ told' = TRUE
        /\ PrintT(ToJson([op |-> "features", on |-> on, aliased |-> aliased, offer |-> Offer]))
        /\ UNCHANGED <<on, aliased>>
Next == Enable \/ EnableAlias \/ Tell
Spec == Init /\ [][Next]_vars

(* The root never has two versions to choose from, and is one of the modules.                     *)
OneRoot == Cardinality(on \cap AtRoot) <= 1
RootIsModule == Offer.rootIs \subseteq {m[1] : m \in Offer.modules}
AliasesMean == \A a \in aliased : Stands[a] \subseteq on
=============================================================================
