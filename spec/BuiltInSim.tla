----------------------------- MODULE BuiltInSim -----------------------------
(* One state per type: all base types (Mode "base") or random compositions. *)
EXTENDS BuiltInGen
CONSTANTS Mode, NGood, NMut
VARIABLES t, phase
Docs(ty) == IF ty[1] = "leaf" THEN SetToSeq(Pool)
            ELSE IF ty[1] = "opt" /\ ty[2][1] = "leaf" THEN SetToSeq({Null} \cup RandomSubset(NGood, Pool))
            ELSE SetToSeq(TLCEval(Edges(ty))) \o TLCEval([i \in 1..NGood |-> TLCEval(GenDoc(ty, i))]) \o TLCEval([i \in 1..NMut |-> TLCEval(Mut(GenDoc(ty, i), 3))])
Init == /\ phase = 0
        /\ IF Mode = "base" THEN t \in BaseTypes ELSE t = L("u8")
Next == \/ phase = 0 /\ phase' = 1 /\ (IF Mode = "base" THEN UNCHANGED t ELSE \E x \in {RTy(R(1..3) + 0 * phase)} : t' = x)
        \/ phase = 1 /\ phase' = 2 /\ UNCHANGED t /\ \E d \in {Docs(t)} : PrintT("CASE " \o ToJson([ty |-> t, docs |-> d]))
Spec == Init /\ [][Next]_<<t, phase>>
=============================================================================
