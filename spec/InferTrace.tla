----------------------------- MODULE InferTrace -----------------------------
(* Schemas the real code inferred, against ValueInfer. *)
EXTENDS ValueInfer, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, done
Init == c \in 1..Len(Trace) /\ done = FALSE
E == Trace[c]
DialectOf(n) == CASE n = "2020" -> D2020 [] n = "2019" -> D2019 [] n = "07" -> D07 [] n = "oas" -> DOAS
ExampleOk(o, j) == IF o.set = "oas" THEN GetOr(o.schema, "example", True) = j /\ Has(o.schema, "example") ELSE GetOr(o.schema, "examples", Null) = Arr(<<j>>)
C13 ==
    LET j == ToJ(E.sv) IN
    \E i \in 1..Len(E.outs) :
        LET o == E.outs[i] IN
        \/ ~o.ok
        \/ ~Accepts(DialectOf(o.set), o.schema, j)
        \/ ~ExampleOk(o, j)
        \/ o.set = "2020" /\ ~Describes(o.schema, E.sv)
        \/ TitleOf(E.sv) # "" /\ GetOr(o.schema, "title", Null) # Str(TitleOf(E.sv))
C05 == \E i \in 1..Len(E.outs) : ~E.outs[i].same
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED c
        /\ LET m == E.json # ToJ(E.sv)     \* the model of serde_json itself
               ps == (IF m THEN {"MODEL"} ELSE {}) \cup (IF ~m /\ C13 THEN {"C13"} ELSE {}) \cup (IF C05 THEN {"C05"} ELSE {})
           IN IF ps # {} THEN /\ PrintT("REJECT " \o ToJson([case |-> c, event |-> 1, props |-> ps]))
                              /\ PrintT("EXPECT " \o ToJson([case |-> c, event |-> 1, json |-> ToJ(E.sv), schema |-> Infer(E.sv)]))
              ELSE PrintT("DONE " \o ToString(c))
Spec == Init /\ [][Next]_<<c, done>>
=============================================================================
