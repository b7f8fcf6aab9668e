----------------------------- MODULE AnnotTrace -----------------------------
(* A record is one type of an annotated program: for each contract the      *)
(* definition t of the type, the definition b of its twin without           *)
(* annotations, all definitions either needed, and own: the program's types *)
(* as each was generated by itself.                                         *)
EXTENDS Annot, IOUtils, Json, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
Want == IOEnv.WANT
VARIABLES c, done
Init == c \in 1..Len(Trace) /\ done = FALSE
E == Trace[c]
T == E.types[E.k]
Differs(f, g, n) == n \in DOMAIN f /\ f[n] # g[n]
Judge(m) ==
    LET r == E.rec[m] IN
    Faults(m, T, E.an, r.b, r.t, r.defsB) \cup {<<"shared", n>> : n \in {n \in DOMAIN r.own : Differs(r.defsB, r.own, n) \/ Differs(r.defsT, r.own, n)}}
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED c
        /\ LET f == TLCEval([m \in {"ser", "de"} |-> Judge(m)]) IN
           IF \A m \in DOMAIN f : f[m] = {} THEN PrintT("DONE " \o ToString(c))
           ELSE PrintT("REJECT " \o ToJson([case |-> c, event |-> 1, props |-> {Want}, f |-> f]))
Spec == Init /\ [][Next]_<<c, done>>
=============================================================================
