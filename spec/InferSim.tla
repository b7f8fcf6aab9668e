------------------------------ MODULE InferSim ------------------------------
(* Random values of the serde data model, any shape. *)
EXTENDS ValueInfer, Randomization
CONSTANTS Depth
EAC == ChrOf(233)
R(S) == RandomElement(S)
Pct(n) == R(1..100) <= n
Idents == {"Point", "T", "A b", EAC, "Outer"}
Text == {"", "a", "b", "a\"b", "\"q\"", "\"", "line\nbreak", "\\", "\\\"", "a/b", "~1", EAC, "type", "$ref", "5", "-3", "true", "\t"}
Ints(k) == IF k \in {"u8", "u16", "u32", "u64", "u128"} THEN {Nu(0), Nu(7), Nu(255)}
           ELSE {Nu(0), Nu(0 - 5), Nu(127)}
Big == {<<"int", "u64", Dec(FALSE, "18446744073709551615", "")>>, <<"int", "i64", Dec(TRUE, "9223372036854775808", "")>>,
        <<"int", "u32", Dec(FALSE, "4294967295", "")>>, <<"int", "i128", Dec(TRUE, "1", "")>>, <<"int", "u128", Dec(FALSE, "99", "")>>}
RInt(z) == IF Pct(20) THEN R(Big) ELSE LET k == R({"i8", "i16", "i32", "i64", "i128", "u8", "u16", "u32", "u64", "u128"}) IN <<"int", k, R(Ints(k))>>
RLeaf(z) ==
    LET k == R(1..14) IN
    CASE k = 1 -> <<"bool", R(BOOLEAN)>>
      [] k \in 2..3 -> RInt(z)
      [] k = 4 -> <<"flt", R({"f32", "f64"}), R({Null, Nu(0), Dec(FALSE, "1", "5"), Dec(TRUE, "2", "25"), Nu(3)})>>
      [] k = 5 -> <<"char", R({"c", "\"", EAC, "\\", " "})>>
      [] k \in 6..7 -> <<"str", R(Text)>>
      [] k = 8 -> <<"cstr", R(Text)>>
      [] k = 9 -> <<"bytes", [i \in 1..R(0..3) |-> R({0, 1, 200, 255})]>>
      [] k \in 10..11 -> <<"none">>
      [] k = 12 -> <<"unit">>
      [] k = 13 -> <<"ustruct", R(Idents)>>
      [] k = 14 -> <<"uvar", R(Idents), R(Text)>>
RECURSIVE RKey(_)
RKey(z) == LET k == R(1..9) IN
    CASE k \in 1..4 -> <<"str", R(Text)>>
      [] k = 5 -> RInt(z)
      [] k = 6 -> <<"bool", R(BOOLEAN)>>
      [] k = 7 -> <<"char", R({"c", "\"", EAC, "\\"})>>
      [] k = 8 -> <<"uvar", "E", R(Text)>>
      [] k = 9 -> IF Pct(50) THEN <<"nt", "K", RKey(z)>> ELSE <<"cstr", R(Text)>>
RECURSIVE RV(_)
RList(d, n) == [i \in 1..n |-> RV(d - 1)]
(* lists of like elements are common: draw from a small pool *)
RSeq(d) == IF Pct(45) THEN LET p == <<RV(d - 1), RV(d - 1)>> IN [i \in 1..R(0..3) |-> p[R(1..2)]]
           ELSE IF Pct(50) THEN [i \in 1..R(1..4) |-> RLeaf(i)] ELSE RList(d, R(0..3))
RMap(d) == LET vs == RSeq(d) IN [i \in 1..Len(vs) |-> <<RKey(i), vs[i]>>]
RFields(d) == [i \in 1..R(0..3) |-> <<R(Text), RV(d - 1)>>]
RV(d) ==
    IF d = 0 \/ Pct(15) THEN RLeaf(d)
    ELSE LET k == R(1..16) IN
    CASE k \in 1..2 -> <<"some", RV(d - 1)>>
      [] k = 3 -> <<"nt", R(Idents), RV(d - 1)>>
      [] k = 4 -> <<"ntvar", R(Idents), R(Text), RV(d - 1)>>
      [] k \in 5..7 -> <<"seq", RSeq(d)>>
      [] k = 8 -> <<"tup", RList(d, R(0..3))>>
      [] k = 9 -> <<"tst", R(Idents), RList(d, R(1..3))>>
      [] k = 10 -> <<"tvar", R(Idents), R(Text), RList(d, R(1..3))>>
      [] k \in 11..12 -> <<"map", "entry", RMap(d)>>
      [] k = 13 -> <<"map", "all", RMap(d)>>
      [] k \in 14..15 -> <<"struct", R(Idents), RFields(d)>>
      [] k = 16 -> <<"svar", R(Idents), R(Text), RFields(d)>>
VARIABLES v, phase
Init == v = <<"unit">> /\ phase = 0
Next == \/ phase = 0 /\ phase' = 1 /\ \E x \in {RV(R(0..Depth))} : v' = x
        \/ phase = 1 /\ phase' = 2 /\ UNCHANGED v /\ PrintT("CASE " \o ToJson([sv |-> v]))
Spec == Init /\ [][Next]_<<v, phase>>
=============================================================================
