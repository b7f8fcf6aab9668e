---------------------------- MODULE OverrideTrace ----------------------------
(* A record is one type: its places with their attribute items in source    *)
(* order, the schemas of the type so annotated, and those of its twin       *)
(* annotated with the wanted settings only.                                 *)
EXTENDS Override, IOUtils, Json
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, done
Init == c \in 1..Len(Trace) /\ done = FALSE
E == Trace[c]
ItemsOf(attrs, w) == LET RECURSIVE F(_)
                         F(i) == IF i > Len(attrs) THEN <<>> ELSE (IF attrs[i].w = w THEN attrs[i].items ELSE <<>>) \o F(i + 1)
                     IN F(1)
Place(p) == Effective(ItemsOf(p.attrs, "serde"), ItemsOf(p.attrs, "schemars")) = Range(p.want)
Wrong == {k \in DOMAIN E.base : E.base[k] # E.mixed[k]}
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED c
        /\ Assert(\A i \in DOMAIN E.places : Place(E.places[i]), "the places do not have the wanted settings")
        /\ IF Wrong = {} THEN PrintT("DONE " \o ToString(c))
           ELSE PrintT("REJECT " \o ToJson([case |-> c, event |-> 1, props |-> {"C21"}, which |-> Wrong]))
Spec == Init /\ [][Next]_<<c, done>>
=============================================================================
