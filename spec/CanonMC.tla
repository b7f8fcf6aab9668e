------------------------------ MODULE CanonMC ------------------------------
(* The writing order on every small schema document and member order.       *)
EXTENDS CanonOrder, SequencesExt
CONSTANTS Deep
VARIABLES v, ready
vars == <<v, ready>>
KS == IF Deep THEN {"$defs", "$id", "a", "const", "properties", "required", "title", "type", "x-e", "items", "if", "enum"}
      ELSE {"$defs", "$id", "a", "const", "properties", "type", "x-e", "items"}
P(s) == <<"p", s>>
Perms(S) == {p \in [1..Cardinality(S) -> S] : Cardinality({p[i] : i \in 1..Cardinality(S)}) = Cardinality(S)}
Small == {Nu(1), P(<<>>), P(<< <<"type", Nu(1)>>, <<"a", True>> >>), P(<< <<"a", True>>, <<"$id", Nu(2)>> >>),
          <<"a", << P(<< <<"z", Nu(1)>>, <<"title", Nu(2)>> >>) >> >>}
Init == v = P(<<>>) /\ ready = 0
Sets == {S \in SUBSET KS : Cardinality(S) <= (IF Deep THEN 4 ELSE 3)}
Next == /\ ready = 0 /\ ready' = 1
        /\ \E S \in Sets : \E p \in Perms(S) : \E m \in [1..Cardinality(S) -> Small] :
              v' = P([i \in 1..Len(p) |-> <<p[i], IF Cardinality(S) > 3 /\ i > 2 THEN P(<< <<"type", Nu(1)>>, <<"a", True>> >>) ELSE m[i]>>])
Spec == Init /\ [][Next]_vars
Out == Canon(v, "schema")
Lossless == Written(v, Out, "schema") /\ Unordered(Out) = Unordered(v)
Stable == Canon(Out, "schema") = Out
InOrder == LET ks == PKeys(Out)
               pos(k) == CHOOSE i \in 1..Len(ks) : ks[i] = k IN
           /\ \A i, j \in 1..Len(First) : (i < j /\ First[i] \in SeqSet(ks) /\ First[j] \in SeqSet(ks)) => pos(First[i]) < pos(First[j])
           /\ \A k \in SeqSet(ks), f \in SeqSet(First) \cap SeqSet(ks) : k \notin SeqSet(First) => pos(f) < pos(k)
           /\ \A k \in SeqSet(ks), f \in SeqSet(Last) \cap SeqSet(ks) : k \notin SeqSet(Last) => pos(k) < pos(f)
DataKept == \A i \in 1..Len(v[2]) : RoleOf(v[2][i][1]) = "data" => PGet(Out, v[2][i][1]) = v[2][i][2]
=============================================================================
