------------------------------- MODULE JValue -------------------------------
(* JSON documents as tagged TLA+ values.                                                     *)
(*   <<"s", str>>               string                                                       *)
(*   <<"n", cls, lit, flit>>    number; cls "i" fits i64, "u" fits only u64, "f" is neither  *)
(*                              lit its literal, flit its literal once read as a float       *)
(*   <<"b", BOOLEAN>>  <<"z">>  boolean, null                                                *)
(*   <<"a", seq>>               array                                                        *)
(*   <<"o", fn>>                object: a function from member names (strings) to documents  *)
(* Strings that start with "$" are symbolic: the harness turns them into awkward texts       *)
(* (unicode and escapes, very long, control characters), the same one in both directions.    *)
EXTENDS TLC, Sequences, Naturals

S(x) == <<"s", x>>
B(x) == <<"b", x>>
Z == <<"z">>
A(s) == <<"a", s>>
O(f) == <<"o", f>>
Empty == [x \in {} |-> Z]
EO == O(Empty)
I(lit) == <<"n", "i", lit, lit \o ".0">>
I64Max == <<"n", "i", "9223372036854775807", "9.223372036854776e+18">>
I64Min == <<"n", "i", "-9223372036854775808", "-9.223372036854776e+18">>
U64Max == <<"n", "u", "18446744073709551615", "1.8446744073709552e+19">>
U63 == <<"n", "u", "9223372036854775808", "9.223372036854776e+18">>
F(lit) == <<"n", "f", lit, lit>>
Neg(n) == n[1] = "n" /\ n[3] \in {"-1", "-7", "-9223372036854775808", "-2147483649"}

Kind(j) == j[1]
IsObj(j) == j[1] = "o"
Has(j, k) == j[1] = "o" /\ k \in DOMAIN j[2]
Get(j, k) == j[2][k]
OnlyKeys(f, D) == [k \in D |-> f[k]]
Without(j, k) == O(OnlyKeys(j[2], DOMAIN j[2] \ {k}))
With(j, k, v) == O((k :> v) @@ j[2])
Merge(f, g) == f @@ g
=============================================================================
