------------------------------- MODULE WrapSim -------------------------------
(* Wrapped types for Option<T> and maps: type 1 is wrapped (the key), type 2 *)
(* is the map's value, type 3 is a definition they may refer to.  A          *)
(* reference to type n is written {"$ref": "x-sub:n"}.                       *)
EXTENDS SchemaGen
CONSTANTS Mode
TypeNames1 == {"Inner", "a b", "a/b", "x~y", "100%", ChrOf(233), "Key_2", "#"}
StrT == Obj1("type", Str("string"))
TypeN == Obj1("type", Str("null"))
Words == {"x", "7", "on", "a b", "-1", "A", "", "true", "A/B"}
KAlt(z) == LET k == R(1..11) IN
    CASE k = 1 -> StrT
      [] k = 2 -> With(StrT, "pattern", Str(R({"^a", "b$", "^[a-z]+$"})))
      [] k \in 3..4 -> With(StrT, "enum", Arr(SetToSeq({Str(x) : x \in RandomSubset(R(1..3), Words)})))
      [] k = 5 -> Obj1("type", Str("integer"))
      [] k = 6 -> Obj(("type" :> Str("integer")) @@ ("minimum" :> Nu(R({0, 0, 1}))) @@ ("maximum" :> Nu(255)))
      [] k = 7 -> Obj(("type" :> Str("integer")) @@ ("minimum" :> Nu(0 - 128)))
      [] k = 8 -> Obj1("type", Str("boolean"))
      [] k = 9 -> With(StrT, "const", Str(R(Words)))
      [] k = 10 -> MergeObj(StrT, Obj(("minLength" :> Nu(1)) @@ ("maxLength" :> Nu(1))))
      [] k = 11 -> With(StrT, "enum", Arr(SetToSeq({Str(x) : x \in RandomSubset(2, Words)})))
Sub(n) == Obj1("$ref", Str("x-sub:" \o ToString(n)))
RKeyS(z) == LET k == R(1..10) IN
    CASE k \in 1..3 -> KAlt(z)
      [] k \in 4..5 -> Obj1("anyOf", Arr(RandList(LAMBDA i : KAlt(i), R(1..3))))
      [] k = 6 -> Obj1("anyOf", Arr(<<Sub(3)>> \o RandList(LAMBDA i : KAlt(i), R(0..2))))
      [] k = 7 -> Sub(3)
      [] k = 8 -> With(Sub(3), "description", Str("d"))
      [] k = 9 -> Obj1("oneOf", Arr(RandList(LAMBDA i : KAlt(i), R(1..3))))
      [] k = 10 -> R({True, Obj1("anyOf", Arr(<<True, StrT>>)), EmptyObj, Obj1("anyOf", Arr(<<KAlt(1), KAlt(2), Sub(3)>>))})
Bodies(z) ==
    IF Mode = "map" THEN <<RKeyS(z), R({StrT, Obj1("type", Str("integer")), True, False, Obj1("const", Nu(1)), Obj1("anyOf", Arr(<<StrT, TypeN>>))}), KAlt(z)>>
    ELSE <<RS(R(1..2), {"x-sub:3"}, "clean"), StrT, RS(1, {}, "clean")>>
RCase(z) == [mode |-> Mode,
             types |-> LET b == Bodies(z)  ns == SetToSeq(RandomSubset(3, TypeNames1)) IN
                       [i \in 1..3 |-> [name |-> ns[i], inline |-> (i # 3 /\ Pct(50)), body |-> b[i]]]]
VARIABLES v, phase
Init == v = <<>> /\ phase = 0
Next == \/ phase = 0 /\ phase' = 1 /\ \E x \in {RCase(phase)} : v' = x
        \/ phase = 1 /\ phase' = 2 /\ UNCHANGED v /\ PrintT("CASE " \o ToJson(v))
Spec == Init /\ [][Next]_<<v, phase>>
=============================================================================
