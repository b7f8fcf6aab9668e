----------------------------- MODULE OverrideMC -----------------------------
(* All small pairs of item lists: what overriding means, item by item.      *)
EXTENDS Override
CONSTANT MaxLen
Ks == {"rename", "default", "skip", "skip_serializing", "bound"}
Items(v) == {<<k, v>> : k \in Ks}
Distinct(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]
Lists(S) == UNION {[1..n -> S] : n \in 0..MaxLen}
VARIABLES se, sc
Init == se = <<>> /\ sc = <<>>
AddSe == /\ Len(se) < MaxLen /\ UNCHANGED sc /\ \E x \in Items("a") : x \notin Range(se) /\ se' = Append(se, x)
AddSc == /\ Len(sc) < MaxLen /\ UNCHANGED se /\ \E x \in Items("b") \cup {<<"!", k>> : k \in Ks} : x \notin Range(sc) /\ sc' = Append(sc, x)
Next == AddSe \/ AddSc
Spec == Init /\ [][Next]_<<se, sc>>
E == Effective(se, sc)
Of(k) == {x \in E : x[1] = k}
Perms(s) == {[i \in DOMAIN s |-> s[p[i]]] : p \in Permutations(DOMAIN s)}
(* given in both: the schemars one; in one only: that one; cancelled: none *)
ItemByItem == WellFormed(se, sc) =>
    \A k \in Ks \ {"bound"} :
        /\ k \in Named(sc) => Of(k) = {<<k, "b">>}
        /\ (k \notin Named(sc) /\ k \notin Cancelled(sc) /\ k \in Named(se) /\ ~(k = "skip_serializing" /\ "skip" \in Named(sc))) => Of(k) = {<<k, "a">>}
        /\ k \in Cancelled(sc) => Of(k) = {}
        /\ (k \notin Named(sc) \cup Named(se)) => Of(k) = {}
OrderFree == \A s1 \in Perms(se) : \A s2 \in Perms(sc) : Effective(s1, s2) = E
(* settings do not influence one another *)
Independent == \A k \in Ks \ {"skip", "skip_serializing"} :
    LET Only(s) == SelectSeq(s, LAMBDA x : x[1] = k \/ x = <<"!", k>>)
    IN Of(k) = {x \in Effective(Only(se), Only(sc)) : x[1] = k}
=============================================================================
