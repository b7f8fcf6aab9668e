----------------------------- MODULE TypeIdSim -----------------------------
(* Random programs of declared types, and types built from them. *)
EXTENDS TypeId, Randomization, Json, TLC
CONSTANTS Decls, Exprs
VARIABLES n, P
R(S) == RandomElement(S)
Pct(k) == R(1..100) <= k
L(x) == <<"leaf", x>>
RLeaf(z) == L(R({"u8", "i16", "String", "bool", "PathBuf", "CowStr", "u32", "f64", "char", "unit", "JMap"} \cup (IF z THEN {} ELSE {"Uuid"})))
RConst(kind, z) == CASE kind = "usize" -> <<"n", FALSE, R({"0", "1", "2", "12"}), "">> [] kind = "bool" -> <<"b", Pct(50)>> [] kind = "char" -> <<"s", R({"a", ",", ">", "1"})>> [] kind = "i8" -> R({<<"n", TRUE, "1", "">>, <<"n", FALSE, "1", "">>, <<"n", FALSE, "2", "">>})
CKinds == {"usize", "bool", "char", "i8"}
(* a type over parameters 1..np, constant parameters of kinds cks, with declarations below k *)
RECURSIVE RT(_, _, _, _, _)
RT(Q, k, np, cks, d) ==
    LET Sub(z) == TLCEval(RT(Q, k, np, cks, R(0..(d - 1)) + z))
        x == R(1..20)
        KArg(kind, z) == LET s == {i \in 1..Len(cks) : cks[i] = kind} IN IF s # {} /\ Pct(60) THEN <<"c", R(s)>> ELSE RConst(kind, z)
    IN IF d <= 0 \/ x <= 3 THEN (IF np > 0 /\ Pct(70) THEN <<"p", R(1..np)>> ELSE RLeaf(d = 99))
       ELSE IF x <= 11 /\ k > 1 THEN
            (LET j == R(1..(k - 1)) IN <<"d", j, TLCEval([i \in 1..Len(Q[j].tps) |-> Sub(0 * i)]), TLCEval([i \in 1..Len(Q[j].cks) |-> KArg(Q[j].cks[i], 0 * i)])>>)
       ELSE IF x = 12 THEN <<"opt", Sub(0)>>
       ELSE IF x = 13 THEN <<"w", R({"Box", "Rc", "Arc", "RefCell", "Mutex", "RwLock", "Reverse", "RcWeak", "ArcWeak"}), Sub(0)>>
       ELSE IF x = 14 THEN <<"seq", R({"Vec", "VecDeque", "LinkedList", "BinaryHeap", "BoxSlice", "SmallVec", "RcSlice"}), Sub(0)>>
       ELSE IF x = 15 THEN <<"set", R({"BTreeSet", "HashSet", "IndexSet"}), Sub(0)>>
       ELSE IF x = 16 /\ Pct(50) /\ \E j \in 1..(k - 1) : Q[j].kind = "keys" THEN <<"kmap", R({"BTreeMap", "HashMap", "IndexMap"}), R({j \in 1..(k - 1) : Q[j].kind = "keys"}), Sub(0)>>
       ELSE IF x = 16 THEN <<"map", R({"BTreeMap", "HashMap", "IndexMap"}), R({"String", "CowStr", "u8", "i16", "char", "bool"} \ {y \in {"bool"} : d > 0}), Sub(0)>>
       ELSE IF x = 17 THEN <<"tup", TLCEval([i \in 1..R(1..3) |-> Sub(0 * i)])>>
       ELSE IF x = 18 THEN <<R({"arr", "avec"}), R({0, 1, 2, 11}), Sub(0)>>
       ELSE IF x = 19 THEN <<R({"res", "either"}), Sub(0), Sub(1 - 1)>>
       ELSE R({<<"bound", Sub(0)>>, <<"range", R({"Range", "RangeInclusive"}), Sub(0)>>})
(* sets need hashing and order, which is not asked of the types; arrays of none are of anything *)
RECURSIVE Plain(_)
Plain(t) == CASE t[1] \in {"leaf", "p", "c"} -> TRUE
              [] t[1] \in {"opt", "bound"} -> Plain(t[2])
              [] t[1] \in {"w", "seq", "set", "arr", "avec", "range"} -> Plain(t[3])
              [] t[1] \in {"map", "kmap"} -> Plain(t[4])
              [] t[1] = "tup" -> \A i \in 1..Len(t[2]) : Plain(t[2][i])
              [] t[1] \in {"res", "either"} -> Plain(t[2]) /\ Plain(t[3])
              [] t[1] = "d" -> \A i \in 1..Len(t[3]) : Plain(t[3][i])

Letters == <<"a", "b", "c", "d", "e">>
RField(Q, k, tps, cks, kind, i) ==
    LET np == Len(tps)
        hows == {"", "with", "fn"} \cup (IF np > 0 /\ kind # "enum" THEN {"phantom", "assoc", "named"} ELSE {}) \cup (IF cks # <<>> /\ kind # "enum" THEN {"const"} ELSE {})
        how == IF kind \in {"transparent", "cwith"} \/ Pct(40) THEN "" ELSE R({x \in hows : i > 0})
    IN [n |-> Letters[i], how |-> how,
        ty |-> CASE how = "const" -> <<"const", R(1..Len(cks))>> [] how = "phantom" -> <<"p", R(1..np)>> [] how \in {"assoc", "named"} -> <<"p", R(1..np)>>
                 [] OTHER -> RT(Q, k, np, cks, R(0..2))]
RRen(tps, cks, z) ==
    IF Pct(55 + z) THEN <<>>
    ELSE IF tps = <<>> /\ cks = <<>> THEN << <<"lit", R({"A", "B", "A2", "B2", "a b", "A{", "Vec"})>> >>
    ELSE LET one == IF tps # <<>> /\ Pct(70) THEN <<"tp", R(1..Len(tps))>> ELSE IF cks # <<>> THEN <<"cp", R(1..Len(cks))>> ELSE <<"tp", 1>>
         IN R({<< <<"lit", "A_">>, one>>, <<one, <<"lit", "B">> >>, << <<"lit", "A{">>, one, <<"lit", "}">> >>, << <<"lit", "A">> >>,
               <<one>> \o [i \in 1..Len(tps) |-> <<"tp", i>>] \o [i \in 1..Len(cks) |-> <<"cp", i>>]})
RDecl(Q, k) ==
    LET used == {x \in {"a", "b"} \X {"A", "B", "C"} : \A j \in 1..Len(Q) : <<Q[j].mod, Q[j].id>> # x}
        kind == R({"struct", "enum", "inline", "transparent", "cwith", "keys"})
        twins == {x \in used : \E j \in 1..Len(Q) : Q[j].kind = "keys" /\ Q[j].id = x[2]}
        mi == IF kind = "keys" /\ twins # {} /\ Pct(70) THEN R(twins) ELSE R(used)
        tps == IF kind = "keys" THEN <<>> ELSE SubSeq(<<"T", "U">>, 1, R({0, 1, 1, 2}))
        cks == TLCEval([i \in 1..(IF kind = "keys" THEN 0 ELSE R({0, 0, 0, 1, 2})) |-> R({x \in CKinds : i > 0})])
        lt == kind # "keys" /\ Pct(15)
        nf == IF kind \in {"transparent", "cwith"} THEN 1 ELSE R(1..3)
        fs == IF kind = "keys" THEN [i \in 1..nf |-> [n |-> <<R({"a", "x"}), R({"b", "y"}), R({"c", "z"})>>[i], how |-> "unit", ty |-> L("unit")]]
              ELSE [i \in 1..nf |-> TLCEval(RField(Q, k, tps, cks, kind, i))]
        ren0 == IF kind = "transparent" THEN <<>> ELSE TLCEval(RRen(tps, cks, 0 * k))
        D(r) == [mod |-> mi[1], id |-> mi[2], ren |-> r, kind |-> kind, tps |-> tps, cks |-> TLCEval(cks), cps |-> SubSeq(<<"M", "N">>, 1, Len(cks)), lt |-> lt,
              rec |-> kind = "struct" /\ Pct(25),
              fields |-> TLCEval(fs)]
        taken == {DeclName(Q[j]) : j \in {x \in 1..Len(Q) : Q[x].mod = mi[1]}}
        d0 == TLCEval(D(ren0))
    IN IF DeclName(d0) \notin taken THEN d0 ELSE IF mi[2] \notin taken THEN [d0 EXCEPT !.ren = <<>>] ELSE [d0 EXCEPT !.ren = << <<"lit", "R" \o ToString(k)>> >>]
(* the field of a type that refers to itself *)
WithRec(D, k) == IF D.rec THEN [D EXCEPT !.fields = Append(@, [n |-> "z", how |-> "", ty |-> <<"opt", <<"w", "Box", <<"d", k, [i \in 1..Len(D.tps) |-> <<"p", i>>], [i \in 1..Len(D.cks) |-> <<"c", i>>]>> >> >>])] ELSE D

(* a type close to another *)
RECURSIVE Vary(_, _)
Vary(Q, t) ==
    IF Pct(25) THEN RT(Q, Len(Q) + 1, 0, <<>>, R(0..2)) ELSE
    IF Pct(20) THEN <<"w", R({"Box", "Rc", "Arc", "RwLock"}), t>> ELSE
    CASE t[1] = "leaf" -> RLeaf(FALSE)
      [] t[1] \in {"opt", "bound"} -> <<t[1], Vary(Q, t[2])>>
      [] t[1] = "w" -> Vary(Q, t[3])
      [] t[1] = "seq" -> <<"seq", R({"Vec", "VecDeque", "SmallVec"}), t[3]>>
      [] t[1] = "set" -> <<R({"set", "seq"}), IF Pct(50) THEN "x" ELSE "x", t[3]>>
      [] t[1] \in {"arr", "avec"} -> <<t[1], R({t[2], 3, 1}), IF Pct(50) THEN t[3] ELSE Vary(Q, t[3])>>
      [] t[1] = "range" -> <<"range", t[2], Vary(Q, t[3])>>
      [] t[1] = "map" -> <<"map", R({"BTreeMap", "HashMap"}), R({"String", "u8", t[3]}), IF Pct(50) THEN t[4] ELSE Vary(Q, t[4])>>
      [] t[1] = "kmap" -> <<"kmap", R({"BTreeMap", "HashMap"}), R({j \in 1..Len(Q) : Q[j].kind = "keys"}), IF Pct(70) THEN t[4] ELSE Vary(Q, t[4])>>
      [] t[1] = "tup" -> LET j == R(1..Len(t[2])) IN <<"tup", [t[2] EXCEPT ![j] = TLCEval(Vary(Q, @))]>>
      [] t[1] \in {"res", "either"} -> <<R({"res", "either"}), t[3], t[2]>>
      [] t[1] = "d" -> IF t[3] # <<>> /\ Pct(60) THEN (LET j == R(1..Len(t[3])) IN <<"d", t[2], [t[3] EXCEPT ![j] = TLCEval(Vary(Q, @))], t[4]>>)
                       ELSE IF t[4] # <<>> THEN (LET j == R(1..Len(t[4])) IN <<"d", t[2], t[3], [t[4] EXCEPT ![j] = RConst(Q[t[2]].cks[j], 0)]>>)
                       ELSE LET like == {j \in 1..Len(Q) : Len(Q[j].tps) = Len(t[3]) /\ Q[j].cks = Q[t[2]].cks} IN <<"d", R(like), t[3], t[4]>>
(* set kinds are lost above, and made plain here *)
RECURSIVE Fix(_)
Fix(t) == CASE t[1] = "set" -> <<"set", IF t[2] = "x" THEN "HashSet" ELSE t[2], Fix(t[3])>>
            [] t[1] = "seq" -> <<"seq", IF t[2] = "x" THEN "Vec" ELSE t[2], Fix(t[3])>>
            [] t[1] \in {"opt", "bound"} -> <<t[1], Fix(t[2])>>
            [] t[1] \in {"w", "arr", "avec", "range"} -> <<t[1], t[2], Fix(t[3])>>
            [] t[1] \in {"map", "kmap"} -> <<t[1], t[2], t[3], Fix(t[4])>>
            [] t[1] = "tup" -> <<"tup", [i \in 1..Len(t[2]) |-> Fix(t[2][i])]>>
            [] t[1] \in {"res", "either"} -> <<t[1], Fix(t[2]), Fix(t[3])>>
            [] t[1] = "d" -> <<"d", t[2], [i \in 1..Len(t[3]) |-> Fix(t[3][i])], t[4]>>
            [] OTHER -> t
RECURSIVE RExprs(_, _, _)
RExprs(Q, m, acc) ==
    IF m = 0 THEN acc
    ELSE LET top == {j \in 1..Len(Q) : TRUE}
             ks == {j \in 1..Len(Q) : Q[j].kind = "keys"}
             new == IF ks # {} /\ Pct(12) THEN <<"kmap", R({"BTreeMap", "HashMap"}), R(ks), L(R({"u8", "bool"}))>> ELSE IF acc # <<>> /\ Pct(60) THEN TLCEval(Fix(Vary(Q, acc[R(1..Len(acc))])))
                    ELSE IF Pct(70) THEN (LET j == R(top) IN TLCEval(<<"d", j, TLCEval([i \in 1..Len(Q[j].tps) |-> RT(Q, Len(Q) + 1, 0 * i, <<>>, R(0..1))]), TLCEval([i \in 1..Len(Q[j].cks) |-> RConst(Q[j].cks[i], 0 * i)])>>))
                    ELSE TLCEval(RT(Q, Len(Q) + 1, 0, <<>>, R(1..2)))
         IN RExprs(Q, m - 1, Append(acc, new))
(* and the arguments of declared types among them, whose names are part of theirs *)
ArgsIn(xs) == UNION {{xs[i][3][j] : j \in 1..Len(xs[i][3])} : i \in {y \in 1..Len(xs) : xs[y][1] = "d"}}
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Full(xs) == xs \o SetSeq(ArgsIn(xs) \ {xs[i] : i \in 1..Len(xs)})

Init == n = 0 /\ P = <<>>
Next == \/ n < Decls /\ n' = n + 1 /\ \E D \in {RDecl(P, n + 1)} : P' = Append(P, WithRec(D, n + 1))
        \/ n = Decls /\ n' = n + 1 /\ UNCHANGED P /\ \E xs \in {RExprs(P, Exprs + 0 * n, <<>>)} : PrintT("CASE " \o ToJson([decls |-> P, exprs |-> Full(xs)]))
Spec == Init /\ [][Next]_<<n, P>>
=============================================================================
