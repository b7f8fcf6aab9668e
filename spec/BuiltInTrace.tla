---------------------------- MODULE BuiltInTrace ----------------------------
(* Recorded types: their schemas, and serde's verdict on documents with     *)
(* what the accepted ones are written back as.                              *)
EXTENDS BuiltIn, IOUtils, Json
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, done
Init == c \in 1..Len(Trace) /\ done = FALSE
E == Trace[c]
T == E.ty
DialOf == [d20 |-> D2020, d19 |-> D2019, d07 |-> D07, oas |-> DOAS]
Settings == SeqSet(E.settings)
Acc(m, s, j) == Accepts(DialOf[s], E.schemas[m \o "_" \o s], j)
Ix == 1..Len(E.docs)
Probes == {E.docs[i].j : i \in Ix}
Back == {E.docs[i].back[1] : i \in {x \in Ix : E.docs[x].ok /\ E.docs[x].back # <<>>}}
Rejected == {E.docs[i].j : i \in {x \in Ix : ~E.docs[x].ok}}

BadRead == {<<"read", s, j>> : s \in Settings, j \in {x \in Probes \ Rejected : Wire("de", T, x)}}
BadWritten == {<<"written", s, j>> : s \in Settings, j \in Back}
BadKind == {<<"kind", m, s, j>> : m \in {"ser", "de"}, s \in {"d20"}, j \in Probes \cup Back}
Faults == {x \in BadRead : ~Acc("de", x[2], x[3])}
       \cup {x \in BadWritten : ~Acc("ser", x[2], x[3]) \/ ~Acc("de", x[2], x[3])}
       \cup {x \in BadKind : Acc(x[2], x[3], x[4]) /\ ~Upper_(x[2], T, x[4])}
(* other settings admit the same documents *)
BadOther == {<<"other", m, s, j>> : m \in {"ser", "de"}, s \in Settings \ {"d20"}, j \in Probes}
Faults2 == Faults \cup {x \in BadOther : Acc(x[2], x[3], x[4]) # Acc(x[2], "d20", x[4])}
(* a stated format holds of what is written *)
Fmt == {<<"format", j>> : j \in {x \in Back : T[1] = "leaf" /\ Has(E.schemas["ser_d20"], "format") /\ ~FmtOk(Get(E.schemas["ser_d20"], "format")[2], x)}}

(* known finding: decimals in scientific notation *)
RECURSIVE UsesDec(_), Strings(_)
UsesDec(t) == CASE t[1] = "leaf" -> IsDec(t[2])
                [] t[1] \in {"opt", "bound"} -> UsesDec(t[2])
                [] t[1] = "map" -> IsDec(t[3]) \/ UsesDec(t[4])
                [] t[1] = "tup" -> \E i \in 1..Len(t[2]) : UsesDec(t[2][i])
                [] t[1] \in {"res", "either"} -> UsesDec(t[2]) \/ UsesDec(t[3])
                [] OTHER -> UsesDec(t[3])
Strings(v) == CASE IsStr(v) -> {v[2]} [] IsArr(v) -> UNION {Strings(x) : x \in Elems(v)} [] IsObj(v) -> Keys(v) \cup UNION {Strings(v[2][k]) : k \in Keys(v)} [] OTHER -> {}
SciExp(v) == \E s \in Strings(v) : MatchesRegex("^[+-]?\\d+(\\.\\d*)?[eE][+-]?\\d+$", s)
Known(x) == x[1] = "written" /\ UsesDec(T) /\ SciExp(x[3])
Odd == {x \in Rejected : Wire("de", T, x)}
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED c
        /\ LET b == TLCEval(Faults2 \cup Fmt)
               n == {x \in b : ~Known(x)}
           IN /\ Odd # {} => PrintT("FMT " \o ToJson([case |-> c, f |-> CHOOSE x \in Odd : TRUE]))
              /\ IF b = {} THEN PrintT("DONE " \o ToString(c))
                 ELSE PrintT("REJECT " \o ToJson([case |-> c, event |-> 1, props |-> (IF n # {} THEN {"C26"} ELSE {}) \cup (IF n # b THEN {"K:C26:decimal-exponent"} ELSE {}),
                                                   f |-> CHOOSE x \in (IF n # {} THEN n ELSE b) : TRUE]))
Spec == Init /\ [][Next]_<<c, done>>
=============================================================================
