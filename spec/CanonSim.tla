------------------------------ MODULE CanonSim ------------------------------
(* Random documents with their members in a random order.                   *)
EXTENDS SchemaGen
CONSTANTS Depth
VARIABLES doc, phase
vars == <<doc, phase>>
RECURSIVE Shuffle(_)
Shuffle(S) == IF S = {} THEN <<>> ELSE LET x == R(S) IN <<x>> \o Shuffle(S \ {x})
RECURSIVE Ordered(_)
Ordered(v) == CASE v[1] = "a" -> <<"a", [i \in 1..Len(v[2]) |-> Ordered(v[2][i])]>>
                [] v[1] = "o" -> LET ks == Shuffle(DOMAIN v[2]) IN <<"p", [i \in 1..Len(ks) |-> <<ks[i], Ordered(v[2][ks[i]])>>]>>
                [] OTHER -> v
Words == {"type", "title", "$id", "description", "z", "a", "format", "properties", "$defs", "", "definitions", "items", "$schema", ChrOf(233), "Z", "_"}
RECURSIVE Bag(_)
Bag(d) == IF d = 0 \/ Pct(30) THEN R({Null, True, Nu(5), Dec(TRUE, "0", "25"), Str("x"), Arr(<<>>), EmptyObj})
          ELSE IF Pct(25) THEN Arr([i \in 1..R(1..3) |-> Bag(d - 1)])
          ELSE Obj([k \in RandomSubset(R(1..4), Words) |-> Bag(d - 1)])
Extra(i) == Obj1(R({"const", "default", "x-a", "x-", "example", "examples", "enum", "if", "then", "dependentRequired", "$vocabulary", "components",
                    "not", "items", "allOf", "anyOf", "properties", "patternProperties", "$defs", "definitions", "dependentSchemas", "prefixItems", "whatever"}),
                 Bag(3))
Meta(z) == Obj([k \in RandomSubset(R(0..5), {"$id", "title", "description", "$comment", "deprecated", "readOnly", "$anchor", "pattern", "Zed", "_", "aaa"}) |-> Str(k)])
Init == doc = Null /\ phase = "doc"
MkDoc == /\ phase = "doc" /\ phase' = "emit"
         /\ \E d \in {RS(Depth, {"#/$defs/x"}, "raw")} : \E m \in {Meta(d)} : \E e \in {IF Pct(60) THEN Extra(d) ELSE EmptyObj} : \E e2 \in {IF Pct(40) THEN Extra(d) ELSE EmptyObj} :
              doc' = IF IsBool(d) THEN (IF Pct(20) THEN d ELSE Ordered(MergeAll(<<m, e, e2>>, 1))) ELSE Ordered(MergeAll(<<d, m, e, e2>>, 1))
Emit == phase = "emit" /\ phase' = "end" /\ UNCHANGED doc /\ PrintT("CASE " \o ToJson([doc |-> doc]))
Next == MkDoc \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
