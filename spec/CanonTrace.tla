----------------------------- MODULE CanonTrace -----------------------------
EXTENDS CanonOrder, IOUtils
CONSTANTS PreserveOrder
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, done
Init == c \in 1..Len(Trace) /\ done = FALSE
E == Trace[c]
C11 == \/ ~E.ok
       \/ (PreserveOrder /\ E.mem # E.doc)
       \/ (~PreserveOrder /\ (~SortedEverywhere(E.mem) \/ Unordered(E.mem) # Unordered(E.doc)))
       \/ ~Written(E.mem, E.out, "schema")
       \/ E.pretty # E.out \/ E.nested # E.out
       \/ (PreserveOrder /\ E.val # E.out) \/ Unordered(E.val) # Unordered(E.doc)
       \/ ~E.eq
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED c
        /\ IF C11 THEN /\ PrintT("REJECT " \o ToJson([case |-> c, event |-> 1, props |-> {"C11"}]))
                       /\ PrintT("EXPECT " \o ToJson([case |-> c, event |-> 1, out |-> Canon(E.doc, "schema")]))
           ELSE PrintT("DONE " \o ToString(c))
Spec == Init /\ [][Next]_<<c, done>>
=============================================================================
