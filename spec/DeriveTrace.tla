----------------------------- MODULE DeriveTrace -----------------------------
(* Recorded programs: a record is one type of one program with the schemas, *)
(* serialised values and serde's verdicts on documents.                     *)
EXTENDS DeriveShape, JsonSchema, IOUtils, Json, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
Want == IOEnv.WANT
VARIABLES c, done
Init == c \in 1..Len(Trace) /\ done = FALSE
E == Trace[c]
DialOf == [x \in {"d20", "d20i"} |-> D2020] @@ [x \in {"d19"} |-> D2019] @@ [x \in {"d07", "d07i"} |-> D07] @@ [x \in {"oas"} |-> DOAS]
Prog == [types |-> E.types]
Me == <<"ref", E.k>>
Acc(m, s, j) == Accepts(DialOf[s], E.schemas[m \o "_" \o s], j)
Settings == SeqSet(E.settings)

(* What serde read from a document and wrote again may hold a flattened map with members repeating others'. *)
Written == {E.vals[i][1] : i \in {x \in Idx(E.vals) : E.vals[x] # <<>>}}
           \cup {E.docs[i].back[1] : i \in {x \in Idx(E.docs) : E.docs[x].ok /\ E.docs[x].back # <<>> /\ DocOK("ser", Prog, Me, E.docs[x].back[1])}}
(* known finding "lossy-unevaluated" (C08), seen through a derived schema *)
TR == INSTANCE Transforms
LossyBy == [m \in {"ser", "de"} |-> TR!LossyUneval(E.schemas[m \o "_d20"])]
Known(m, s) == s \in {"d07", "d07i", "oas"} /\ LossyBy[m]
Bad14 == {<<s, j>> \in Settings \X Written : ~Acc("ser", s, j)}
New14 == {x \in Bad14 : ~Known("ser", x[1])}
ReadOK == {E.docs[i].j : i \in {x \in Idx(E.docs) : E.docs[x].ok}}
ReadBad == {E.docs[i].j : i \in {x \in Idx(E.docs) : ~E.docs[x].ok}}
Bad15 == {<<s, j>> \in Settings \X {d \in ReadOK : DocOK("de", Prog, Me, d)} : ~Acc("de", s, j)}
New15 == {x \in Bad15 : ~Known("de", x[1])}
Bad27 == {<<s, j>> \in {"d20", "d20i"} \X {d \in ReadBad : ~DocOK("lax", Prog, Me, d)} : Acc("de", s, j)}
(* How the specification of the format compares with serde itself (information) *)
FmtOdd == {<<"read", d>> : d \in {d \in ReadBad : DocOK("de", Prog, Me, d)}}
          \cup {<<"written", E.vals[i][1]>> : i \in {x \in Idx(E.vals) : E.vals[x] # <<>> /\ ~DocOK("ser", Prog, Me, E.vals[x][1])}}

Shapes(F(_, _)) == UNION {{<<m, x>> : x \in F(m, E.schemas[m \o "_d20"])} : m \in {"ser", "de"}}
Bad16 == Shapes(LAMBDA m, s : MemberFaults(m, Prog, E.k, s, E.dflts))
Bad17 == Shapes(LAMBDA m, s : NameFaults(m, Prog, E.k, s))
Bad18 == Shapes(LAMBDA m, s : AltFaults(m, Prog, E.k, s))
Bad19 == IF ~HasFlat(Prog.types[E.k]) THEN {} ELSE
         {<<"ser", x>> : x \in New14} \cup {<<"de", x>> : x \in New15} \cup {<<"no", x>> : x \in Bad27} \cup Shapes(LAMBDA m, s : FlatFaults(m, Prog, E.k, s))

Judge(p) == CASE p = "C14" -> New14 [] p = "C15" -> New15 [] p = "C16" -> Bad16 [] p = "C17" -> Bad17 [] p = "C18" -> Bad18
              [] p = "C19" -> Bad19 [] p = "C27" -> Bad27
All == {"C14", "C15", "C16", "C17", "C18", "C19", "C27"}
Wanted == IF Want = "all" THEN All ELSE {Want}
Lossy == {p \in Wanted : (p = "C14" /\ Bad14 # New14) \/ (p = "C15" /\ Bad15 # New15)}
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED c
        /\ LET f == TLCEval([p \in IF Want = "all" THEN All ELSE {Want} |-> Judge(p)])
               ps == {p \in DOMAIN f : f[p] # {}}
               ks == Lossy
           IN /\ Want = "all" /\ FmtOdd # {} => PrintT("FMT " \o ToJson([case |-> c, f |-> CHOOSE x \in FmtOdd : TRUE]))
              /\ IF ps = {} /\ ks = {} THEN PrintT("DONE " \o ToString(c))
                 ELSE PrintT("REJECT " \o ToJson([case |-> c, event |-> 1,
                                                   props |-> IF "pin" \in DOMAIN E THEN {"K:" \o p \o ":" \o E.pin : p \in ps \cup ks}
                                                             ELSE ps \cup {"K:" \o p \o ":lossy-unevaluated" : p \in ks},
                                                   f |-> [p \in ps |-> CHOOSE x \in f[p] : TRUE]]))
Spec == Init /\ [][Next]_<<c, done>>
=============================================================================
