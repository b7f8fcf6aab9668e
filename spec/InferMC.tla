------------------------------ MODULE InferMC ------------------------------
(* Design check: for every small value, the specified inference describes   *)
(* it, accepts its JSON, and says nothing wrong about any part.             *)
EXTENDS ValueInfer
CONSTANTS Wide
Leaf == { <<"bool", TRUE>>, <<"int", "i8", Nu(0 - 3)>>, <<"flt", "f64", Dec(FALSE, "1", "5")>>, <<"flt", "f64", Null>>, <<"char", "c">>, <<"str", "a">>,
          <<"bytes", <<0, 255>> >>, <<"none">>, <<"unit">>, <<"ustruct", "U">>, <<"uvar", "E", "V">> }
Keys0 == { <<"str", "a\"b">>, <<"int", "i32", Nu(5)>>, <<"bool", TRUE>>, <<"str", "5">> }
Wrap(S) == {<<"some", x>> : x \in S} \cup {<<"nt", "N", x>> : x \in S} \cup {<<"ntvar", "E", "V", x>> : x \in S}
Pairs(S) == {<<x, y>> : x \in S, y \in S}
Lists(S) == {<<>>} \cup {<<x>> : x \in S} \cup Pairs(S)
KV(S) == {<<>>} \cup {<<<<k, x>>>> : k \in Keys0, x \in S} \cup (IF Wide THEN {<<<<k, x>>, <<h, y>>>> : k \in Keys0, h \in Keys0, x \in S, y \in S} ELSE {})
FV(S) == {<<>>} \cup {<<<<"a", x>>, <<"b", y>>>> : x \in S, y \in S}
Comp(S) == {<<"seq", l>> : l \in Lists(S)} \cup {<<"tup", l>> : l \in Lists(S)} \cup {<<"tst", "T", l>> : l \in Lists(S)}
           \cup {<<"map", m, l>> : m \in {"entry", "all"}, l \in KV(S)} \cup {<<"struct", "S", l>> : l \in FV(S)} \cup {<<"svar", "E", "V", l>> : l \in FV(S)}
L1 == Leaf \cup Wrap(Leaf) \cup Comp(Leaf)
L1b == Leaf \cup Wrap({<<"int", "u8", Nu(1)>>, <<"none">>}) \cup { <<"seq", <<>> >>, <<"seq", << <<"str", "a">>, <<"none">> >> >>, <<"struct", "S", << <<"a", <<"char", "c">> >> >> >>,
         <<"map", "all", << << <<"str", "k">>, <<"bool", FALSE>> >> >> >> }
VARIABLES v, phase
Init == v = <<"unit">> /\ phase = 0
Next == phase = 0 /\ phase' = 1 /\ v' \in (L1 \cup Wrap(L1b) \cup Comp(L1b))
Spec == Init /\ [][Next]_<<v, phase>>
InferredAccepts == Accepts(D2020, Infer(v), ToJ(v))
InferredDescribes == Describes(Infer(v), v)
(* a schema that describes v accepts v's JSON only with the right kinds: dropping "type" is noticed *)
Sharp == (~AnyVal(v) /\ Has(Infer(v), "type")) => ~Describes(Without(Infer(v), "type"), v)
=============================================================================
