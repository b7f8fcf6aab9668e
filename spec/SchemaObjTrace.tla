--------------------------- MODULE SchemaObjTrace ---------------------------
(* Recorded histories of a real Schema value against SchemaObj.             *)
EXTENDS SchemaObj, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, s
vars == <<c, l, s>>
Case == Trace[c]
Ev == Case.events
Init == c \in 1..Len(Trace) /\ l = 0 /\ s = None

(* what every observer must say about the value *)
ObsBad(o, v) ==
    \/ o.val # v \/ o.txt # v \/ o.into # v
    \/ o.asbool # (IF IsBool(v) THEN Some(v[2]) ELSE None)
    \/ o.isobj # IsObj(v)
    \/ o.eqtrue # (v = True) \/ o.eqfalse # (v = False)
    \/ \E i \in 1..Len(o.eqs) : ~o.eqs[i]
    \/ \E i \in 1..Len(o.neqs) : o.neqs[i]
    \/ \E i \in 1..Len(o.convs) : ~o.convs[i]
(* recorded finding: pointer_mut of the whole document lets a non-schema in *)
KnownRoot(e) == e.op.k = "pointermut" /\ IsRootPointer(e.op.p) /\ IsObj(s[1]) /\ ~IsSchemaLike(e.op.v) /\ e.obs.val = e.op.v
Report(ps, x) == /\ PrintT("REJECT " \o ToJson([case |-> c, event |-> l, props |-> ps]))
                 /\ PrintT("EXPECT " \o ToJson([case |-> c, event |-> l, state |-> x]))
Finish(ok) == /\ (ok => PrintT("DONE " \o ToString(c))) /\ l' = Len(Ev) + 2 /\ UNCHANGED <<c, s>>
Start ==
    /\ l = 0
    /\ LET b == Build(Case.init)
           bad == \/ \E i \in 1..Len(Case.built) : Case.built[i] # (b # None)
                  \/ b # None /\ (Len(Ev) = 0 \/ ObsBad(Case.obs0, b[1]))
       IN IF bad THEN Report({"C10"}, b) /\ Finish(FALSE)
          ELSE IF b = None THEN Finish(TRUE)
          ELSE l' = 1 /\ s' = b /\ UNCHANGED c
Consume ==
    /\ l \in 1..Len(Ev)
    /\ LET e == Ev[l] IN
       IF ~e.ok THEN Report({"C10"}, <<>>) /\ Finish(FALSE)
       ELSE IF KnownRoot(e) THEN Report({"K:C10:pointer-mut-root"}, <<>>) /\ Finish(TRUE)
       ELSE LET r == Do(e.op, s[1]) IN
            IF e.res # r[2] \/ ObsBad(e.obs, r[1])
            THEN Report({"C10"} \cup (IF e.op.k \in {"pointer", "pointermut"} THEN {"C12"} ELSE {}), r) /\ Finish(FALSE)
            ELSE IF l = Len(Ev) THEN Finish(TRUE) ELSE l' = l + 1 /\ s' = <<r[1]>> /\ UNCHANGED c
Spec == Init /\ [][Start \/ Consume]_vars
=============================================================================
