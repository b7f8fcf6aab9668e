------------------------------ MODULE WrapTrace ------------------------------
(* Schemas the real code built for Option<T> and for maps.                  *)
EXTENDS Wrappers, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, done
Init == c \in 1..Len(Trace) /\ done = FALSE
E == Trace[c]
OptVals == {Null, True, False, Str(""), Str("a"), Str("ab"), Nu(0), Nu(1), Dec(FALSE, "1", "5"), EmptyObj, Obj1("a", Nu(1)), Obj1("a", Null), Obj1("b", Str("x")),
            Obj1("type", True), Arr(<<>>), Arr(<<Nu(1)>>), Arr(<<Null, Str("a")>>), Arr(<<Nu(1), Null>>)}
NamesBase == {"", "a", "ab", "zb", "x", "7", "07", "-7", "0", "255", "true", "A", "A/B", "1.5", "-", "a b", "zz9"}
C20 == ~E.ok \/ ~OptOk(E.opt, E.inner, OptVals) \/ ~OptOk(E.optopt, E.inner, OptVals)
       \/ E.defs # E.defs0         \* the definitions of the inner type and of what it refers to
K20 == E.ok /\ E.defs = E.defs0 /\ KnownOpt(E.inner, E.raw)
C24 == ~E.ok \/ ~MapOk(E.map, E.key, E.val, NamesBase \cup EnumNames(E.key), {Str("v"), Nu(1), Nu(2), Null})
       \/ E.map # E.hash
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED c
        /\ LET ps == IF E.mode = "opt" THEN (IF ~C20 THEN {} ELSE IF K20 THEN {"K:C20:contradictory"} ELSE {"C20"})
                     ELSE (IF C24 THEN {"C24"} ELSE {})
           IN IF ps # {} THEN PrintT("REJECT " \o ToJson([case |-> c, event |-> 1, props |-> ps])) ELSE PrintT("DONE " \o ToString(c))
Spec == Init /\ [][Next]_<<c, done>>
=============================================================================
