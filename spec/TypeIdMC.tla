----------------------------- MODULE TypeIdMC -----------------------------
(* All programs of two declared types from a family, and all types up to a  *)
(* depth over them: identities mean interchangeable schemas, and what        *)
(* serialises alike shares them.                                             *)
EXTENDS TypeId, TLC
CONSTANT Deep
VARIABLES P, phase
L(x) == <<"leaf", x>>
F(how, ty) == [n |-> "a", how |-> how, ty |-> ty]
D(mod, id, ren, kind, tps, cps, fields) == [mod |-> mod, id |-> id, ren |-> ren, kind |-> kind, tps |-> tps, cps |-> cps, lt |-> FALSE, fields |-> fields]
Firsts == {D("a", "A", ren, kind, <<"T">>, <<>>, <<F(how, ty)>>) :
              ren \in {<<>>, << <<"lit", "B">> >>, << <<"tp", 1>> >>, << <<"lit", "A_">>, <<"tp", 1>> >>},
              kind \in {"struct", "transparent", "cwith"}, how \in {"", "with", "assoc", "named", "phantom"},
              ty \in {<<"p", 1>>} \cup (IF Deep THEN {<<"opt", <<"p", 1>>>>, <<"w", "Box", <<"p", 1>>>>} ELSE {})}
Seconds == {D("b", id, ren, kind, <<>>, <<"N">>, <<F("const", <<"const", 1>>)>>) : id \in {"A", "C"}, ren \in {<<>>, << <<"lit", "B">> >>, << <<"cp", 1>> >>}, kind \in {"struct", "inline"}}
      \cup {D(mod, "B", <<>>, "struct", <<"T">>, <<>>, <<F("", <<"d", 1, <<<<"p", 1>>>>, <<>>>>)>>) : mod \in {"a", "b"}}
      \cup {D("a", "C", <<>>, "struct", <<"T", "U">>, <<>>, <<F("", <<"p", 1>>), [F(how, <<"p", 2>>) EXCEPT !.n = "b"]>>) : how \in {"", "phantom"}}
Fine(p) == /\ p[1].kind = "transparent" => p[1].fields[1].how = "" /\ p[1].ren = <<>>
           /\ p[1].kind = "cwith" => p[1].fields[1].how = ""
           /\ p[1].mod = p[2].mod => DeclName(p[1]) # DeclName(p[2])     \* the known finding
Leaves2 == {L("u8"), L("String"), L("CowStr")}
Con(k, p, S) == IF Len(p[k].tps) = 0 THEN {<<"d", k, <<>>, <<<<"n", FALSE, x, "">>>>>> : x \in {"1", "2"}}
                ELSE IF Len(p[k].tps) = 1 THEN {<<"d", k, <<x>>, <<>>>> : x \in S}
                ELSE {<<"d", k, <<x, y>>, <<>>>> : x \in S, y \in Leaves2}
Lift(p, S) == {<<"opt", x>> : x \in S} \cup {<<"w", w, x>> : w \in {"Box", "RcWeak"}, x \in S} \cup {<<"seq", k, x>> : k \in {"Vec", "VecDeque"}, x \in S}
         \cup {<<"arr", m, x>> : m \in {0, 2}, x \in S} \cup {<<"avec", m, x>> : m \in {2, 3}, x \in S} \cup {<<"map", "BTreeMap", k, x>> : k \in {"String", "u8"}, x \in S}
         \cup {<<"tup", <<x, y>>>> : x \in S, y \in Leaves2} \cup {<<"res", x, y>> : x \in S, y \in Leaves2} \cup {<<"set", "HashSet", x>> : x \in S} \cup {<<"range", "Range", x>> : x \in S}
T1(p) == Leaves2 \cup Con(1, p, Leaves2) \cup Con(2, p, Leaves2)
T2(p) == T1(p) \cup Lift(p, IF Deep THEN T1(p) ELSE Leaves2 \cup {<<"d", 1, <<L("u8")>>, <<>>>>}) \cup Con(1, p, T1(p)) \cup Con(2, p, T1(p))
Init == phase = 0 /\ P \in {<<x>> : x \in Firsts}
Next == phase = 0 /\ phase' = 1 /\ \E y \in Seconds : P' = Append(P, y) /\ Fine(P')
Spec == Init /\ [][Next]_<<P, phase>>
Info(u) == {<<t, Id(P, t), Shape(P, t, 5), Canon(P, t)>> : t \in u}
ByKey(I, k) == {x[k] : x \in I}
Interchangeable == phase = 1 => LET I == TLCEval(Info(T2(P))) IN \A i \in ByKey(I, 2) : \E s \in {x[3] : x \in {y \in I : y[2] = i}} : \A x \in I : x[2] = i => x[3] = s
Transparent == phase = 1 => LET I == TLCEval(Info(T2(P))) IN Cardinality({x[4] : x \in I}) = Cardinality({<<x[4], x[2]>> : x \in I})
=============================================================================
