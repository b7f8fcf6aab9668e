----------------------------- MODULE DeriveGen -----------------------------
(* Random programs (RandomElement during simulation), documents for their   *)
(* types and Rust expressions for values of them.                           *)
EXTENDS Serde, Randomization
R(S) == RandomElement(S)
Pct(n) == R(1..100) <= n
RECURSIVE RListFrom(_, _, _)
RListFrom(F(_), n, acc) == IF Len(acc) = n THEN acc ELSE RListFrom(F, n, Append(acc, TLCEval(F(Len(acc) + 1))))
RList(F(_), n) == RListFrom(F, n, <<>>)
RSeqPick(s) == s[R(1..Len(s))]

----------------------------------------------------------------------------
(* What a field type is like, given the types so far *)
RECURSIVE ObjLike(_, _), Flattenable(_, _)
(* may be the content of an internally tagged variant *)
ObjLike(P, ty) ==
    \/ ty[1] = "map"
    \/ ty[1] = "box" /\ ObjLike(P, ty[2])
    \/ ty[1] = "ref" /\ ty[2] <= Len(P.types) /\
         LET T == P.types[ty[2]] IN
         CASE T.kind = "struct" -> T.a.transp => ObjLike(P, T.fields[1].ty)
           [] T.kind = "newtype" -> ObjLike(P, T.fields[1].ty)
           [] T.kind = "enum" -> (T.a.tag \in {"int", "adj", "ext"} /\ \A i \in Idx(T.variants) : (~T.variants[i].a.unt /\ (T.a.tag = "ext" => T.variants[i].kind # "unit")))
                                 \/ (\A x \in Idx(T.variants) : T.variants[x].kind = "struct" \/ (T.variants[x].kind = "newtype" /\ ObjLike(P, T.variants[x].fields[1].ty)))
           [] OTHER -> FALSE
Flattenable(P, ty) ==
    \/ ty[1] = "box" /\ Flattenable(P, ty[2])
    \/ ty[1] = "ref" /\ ty[2] <= Len(P.types) /\
         LET T == P.types[ty[2]] IN
         CASE T.kind = "struct" -> ~T.a.transp
           [] T.kind = "newtype" -> Flattenable(P, T.fields[1].ty)
           [] T.kind = "enum" -> /\ T.variants # <<>>
                                 /\ \A i \in Idx(T.variants) : LET v == T.variants[i] IN
                                      IsUntaggedV(T, v) => (v.kind = "struct" \/ (v.kind = "newtype" /\ Flattenable(P, v.fields[1].ty)))
           [] OTHER -> FALSE
RECURSIVE FlatBase(_)
FlatBase(ty) == IF ty[1] \in {"box", "opt"} THEN FlatBase(ty[2]) ELSE ty
Below(ty, k) == FlatBase(ty)[1] = "ref" => FlatBase(ty)[2] < k
RECURSIVE FlatUses(_, _)       \* types whose members ty brings in
FlatUses(P, ty) == LET b == FlatBase(ty) IN
    IF b[1] # "ref" THEN {} ELSE
    LET T == P.types[b[2]]
        fs == IF T.kind = "enum" THEN UNION {SeqSet(T.variants[i].fields) : i \in Idx(T.variants)} ELSE SeqSet(T.fields)
    IN {b[2]} \cup UNION {IF Below(f.ty, b[2]) /\ (f.a.flat \/ T.kind = "newtype" \/ (T.kind = "enum" /\ T.a.tag # "ext")) THEN FlatUses(P, f.ty) ELSE {} : f \in fs}
RECURSIVE HasMapFlat(_, _)
HasMapFlat(P, ty) == LET b == FlatBase(ty) IN
    \/ b[1] \in {"map", "any"}
    \/ b[1] = "ref" /\ LET T == P.types[b[2]]
                           fs == IF T.kind = "enum" THEN UNION {SeqSet(T.variants[i].fields) : i \in Idx(T.variants)} ELSE SeqSet(T.fields)
                       IN \E f \in fs : (f.a.flat \/ T.kind \in {"newtype", "enum"}) /\ Below(f.ty, b[2]) /\ HasMapFlat(P, f.ty)

(* ty is an enum one of whose alternatives takes every remaining member of a typed map: known finding "typed-map-alternative" *)
RECURSIVE TypedMap(_, _), MapAlt(_, _)
TypedMap(P, ty) == LET b == FlatBase(ty) IN
    \/ b[1] = "map" /\ b[2] # <<"any">>
    \/ b[1] = "ref" /\ b[2] <= Len(P.types) /\
         LET T == P.types[b[2]]
             fs == IF T.kind = "enum" THEN UNION {SeqSet(T.variants[i].fields) : i \in Idx(T.variants)} ELSE SeqSet(T.fields)
         IN \E f \in fs : (f.a.flat \/ T.kind \in {"newtype", "enum"} \/ T.a.transp) /\ Below(f.ty, b[2]) /\ TypedMap(P, f.ty)
MapAlt(P, ty) == LET b == FlatBase(ty) IN
    /\ b[1] = "ref" /\ b[2] <= Len(P.types)
    /\ LET T == P.types[b[2]] IN
       IF T.kind = "enum" THEN \E i \in Idx(T.variants) : (T.a.tag = "int" \/ IsUntaggedV(T, T.variants[i])) /\
            \E f \in SeqSet(T.variants[i].fields) : (f.a.flat \/ T.variants[i].kind = "newtype") /\ Below(f.ty, b[2]) /\ TypedMap(P, f.ty)
       ELSE \E i \in Idx(T.fields) : (T.fields[i].a.flat \/ T.kind = "newtype" \/ T.a.transp) /\ Below(T.fields[i].ty, b[2]) /\ MapAlt(P, T.fields[i].ty)
(* ty's members are merged from a type behind a $ref that denies others (or wants them to fit a typed map): known finding "deny-behind-ref" *)
Denies(P, ty) == LET b == FlatBase(ty) IN
    b[1] = "ref" /\ b[2] <= Len(P.types) /\
      LET T == P.types[b[2]] IN T.a.deny \/ TypedMap(P, ty) \/ (T.kind = "enum" /\ T.a.tag = "ext" /\ \E i \in Idx(T.variants) : T.variants[i].kind # "unit")
RECURSIVE DenyBehind(_, _)
DenyBehind(P, ty) == LET b == FlatBase(ty) IN
    /\ b[1] = "ref" /\ b[2] <= Len(P.types)
    /\ LET T == P.types[b[2]]
           Deep(f) == Below(f.ty, b[2]) /\ (Denies(P, f.ty) \/ DenyBehind(P, f.ty))
       IN \/ (T.kind = "newtype" \/ T.a.transp) /\ Deep(T.fields[1])
          \/ T.kind = "struct" /\ \E i \in Idx(T.fields) : T.fields[i].a.flat /\ Below(T.fields[i].ty, b[2]) /\ DenyBehind(P, T.fields[i].ty)
          \/ T.kind = "enum" /\ \E i \in Idx(T.variants) : LET v == T.variants[i] IN
                IF v.kind = "newtype" THEN (T.a.tag \in {"int", "unt"} \/ v.a.unt) /\ Deep(v.fields[1])
                ELSE v.kind = "struct" /\ \E x \in Idx(v.fields) : v.fields[x].a.flat /\ Below(v.fields[x].ty, b[2]) /\ DenyBehind(P, v.fields[x].ty)
Scalars == <<<<"i", "u8">>, <<"i", "i32">>, <<"i", "u64">>, <<"i", "i64">>, <<"bool">>, <<"str">>, <<"str">>, <<"char">>, <<"f64">>, <<"unit">>>>
RECURSIVE RTy(_, _)
RTy(P, d) ==
    LET n == Len(P.types)  k == R(1..100) IN
    CASE d > 0 /\ k <= 12 -> <<"opt", RTy(P, d - 1)>>
      [] d > 0 /\ k <= 20 -> <<"vec", RTy(P, d - 1)>>
      [] d > 0 /\ k <= 26 -> <<"map", RTy(P, d - 1)>>
      [] d > 0 /\ k <= 31 -> <<"box", RTy(P, d - 1)>>
      [] d > 0 /\ k <= 35 -> <<"tup", RList(LAMBDA i : RTy(P, 0), R(1..3))>>
      [] d > 0 /\ k <= 38 -> <<"arr", RTy(P, d - 1), R(0..2)>>
      [] k <= 40 -> <<"any">>
      [] n > 0 /\ k <= 62 -> <<"ref", R(1..n)>>
      [] d > 0 /\ k <= 65 -> IF Pct(50) THEN <<"opt", <<"box", <<"ref", n + 1>>>>>> ELSE <<"vec", <<"ref", n + 1>>>>   \* the type itself
      [] OTHER -> RSeqPick(Scalars)
RECURSIVE NoSelf(_, _)
NoSelf(P, ty) == CASE ty[1] = "ref" -> ty[2] <= Len(P.types)
                   [] ty[1] \in {"opt", "vec", "map", "box", "arr"} -> NoSelf(P, ty[2])
                   [] ty[1] = "tup" -> \A i \in Idx(ty[2]) : NoSelf(P, ty[2][i])
                   [] OTHER -> TRUE

----------------------------------------------------------------------------
(* Rust expressions *)
RECURSIVE RVal(_, _, _), RValFields(_, _, _, _)
QStr == {"\"\"", "\"a\"", "\"zz\"", "\"A b\""}
IntLit(n) == (CASE n = "u8" -> R({"0", "7", "255"}) [] n \in {"u64"} -> R({"0", "12", "18446744073709551615"})
                [] n = "i64" -> R({"-9", "0", "4000000000"}) [] n = "i32" -> R({"-5", "0", "66"})) \o n
Paren(n, ss) == "(" \o Join(ss, ", ") \o (IF n = 1 THEN ",)" ELSE ")")
RValFields(P, fields, d, tuple) ==
    IF tuple THEN "(" \o Join(RList(LAMBDA i : RVal(P, fields[i].ty, d), Len(fields)), ", ") \o ")"
    ELSE " { " \o Join(RList(LAMBDA i : fields[i].id \o ": " \o RVal(P, fields[i].ty, d), Len(fields)), ", ") \o " }"
RVal(P, ty, d) ==
    CASE ty[1] = "i" -> IntLit(ty[2])
      [] ty[1] = "bool" -> R({"true", "false"})
      [] ty[1] = "str" -> R(QStr) \o ".to_string()"
      [] ty[1] = "char" -> R({"'c'", "'Z'"})
      [] ty[1] = "f64" -> R({"1.5f64", "0.0f64", "-2.0f64"})
      [] ty[1] = "unit" -> "()"
      [] ty[1] = "any" -> R({"json!(1)", "json!(null)", "json!({\"q\": [true]})"})
      [] ty[1] = "opt" -> IF d <= 0 \/ Pct(40) THEN "None" ELSE "Some(" \o RVal(P, ty[2], d - 1) \o ")"
      [] ty[1] = "vec" -> IF d <= 0 THEN "vec![]" ELSE "vec![" \o Join(RList(LAMBDA i : RVal(P, ty[2], d - 1), R(0..2)), ", ") \o "]"
      [] ty[1] = "map" -> IF d <= 0 \/ Pct(30) THEN "BTreeMap::new()" ELSE "BTreeMap::from([(" \o R({"\"k1\"", "\"k 2\""}) \o ".to_string(), " \o RVal(P, ty[2], d - 1) \o ")])"
      [] ty[1] = "box" -> "Box::new(" \o RVal(P, ty[2], d) \o ")"
      [] ty[1] = "arr" -> "[" \o Join(RList(LAMBDA i : RVal(P, ty[2], d - 1), ty[3]), ", ") \o "]"
      [] ty[1] = "tup" -> Paren(Len(ty[2]), RList(LAMBDA i : RVal(P, ty[2][i], d - 1), Len(ty[2])))
      [] ty[1] = "ref" ->
           LET T == P.types[ty[2]] IN
           CASE T.kind = "unit" -> T.name
             [] T.kind = "struct" -> T.name \o RValFields(P, T.fields, d - 1, FALSE)
             [] T.kind \in {"tuple", "newtype"} -> T.name \o RValFields(P, T.fields, d - 1, TRUE)
             [] T.kind = "enum" -> LET v == RSeqPick(T.variants) IN
                   T.name \o "::" \o v.id \o
                   (CASE v.kind = "unit" -> "" [] v.kind = "struct" -> RValFields(P, v.fields, d - 1, FALSE) [] OTHER -> RValFields(P, v.fields, d - 1, TRUE))

----------------------------------------------------------------------------
(* Documents of the documented form *)
RECURSIVE GenDoc(_, _, _, _), GenStruct(_, _, _, _, _, _), GenFlat(_, _, _, _), GenVariantContent(_, _, _, _, _)
GenDoc(m, P, ty, d) ==
    CASE ty[1] = "i" -> R(IF ty[2] \in Unsigned THEN {Nu(0), Nu(7)} ELSE {Nu(0), Nu(0 - 3), Nu(66)})
      [] ty[1] = "bool" -> R({True, False})
      [] ty[1] = "str" -> Str(R({"", "a", "zz", "A b"}))
      [] ty[1] = "char" -> Str(R({"c", "Z"}))
      [] ty[1] = "f64" -> R({Dec(FALSE, "1", "5"), Nu(0), Nu(0 - 2)})
      [] ty[1] = "unit" -> Null
      [] ty[1] = "any" -> R({Nu(1), Null, Str("q"), Obj1("q", Arr(<<True>>))})
      [] ty[1] = "opt" -> IF d <= 0 \/ Pct(40) THEN Null ELSE GenDoc(m, P, ty[2], d - 1)
      [] ty[1] = "vec" -> Arr(IF d <= 0 THEN <<>> ELSE RList(LAMBDA i : GenDoc(m, P, ty[2], d - 1), R(0..2)))
      [] ty[1] = "map" -> IF d <= 0 \/ Pct(30) THEN EmptyObj ELSE Obj1(R({"k1", "k 2"}), GenDoc(m, P, ty[2], d - 1))
      [] ty[1] = "box" -> GenDoc(m, P, ty[2], d)
      [] ty[1] = "arr" -> Arr(RList(LAMBDA i : GenDoc(m, P, ty[2], d - 1), ty[3]))
      [] ty[1] = "tup" -> Arr(RList(LAMBDA i : GenDoc(m, P, ty[2][i], d - 1), Len(ty[2])))
      [] ty[1] = "ref" ->
           LET T == P.types[ty[2]] IN
           CASE T.kind = "unit" -> Null
             [] T.kind = "struct" /\ T.a.transp -> GenDoc(m, P, T.fields[1].ty, d)
             [] T.kind = "newtype" -> GenDoc(m, P, T.fields[1].ty, d)
             [] T.kind = "struct" -> GenStruct(m, P, T, <<>>, T.fields, d)
             [] T.kind = "tuple" -> LET fs == ActiveSeq(m, T.fields)
                                        min == IF m = "ser" THEN Len(fs) ELSE Len(SelectSeq(fs, LAMBDA f : f.a.dflt = "" /\ T.a.dflt = ""))
                                    IN Arr(RList(LAMBDA i : GenDoc(m, P, fs[i].ty, d - 1), IF Pct(50) THEN Len(fs) ELSE R(min..Len(fs))))
             [] T.kind = "enum" ->
                   LET act == ActiveVars(m, T) IN
                   IF act = {} THEN Null ELSE
                   LET v == T.variants[R(act)]
                       n == VariantName(m, T, v)
                       c == TLCEval(GenVariantContent(m, P, T, v, d - 1))
                   IN CASE IsUntaggedV(T, v) -> c
                        [] T.a.tag = "ext" -> IF EffKind(m, v) = "unit" THEN Str(n) ELSE Obj1(n, c)
                        [] T.a.tag = "int" -> IF ~IsObj(c) THEN Obj1(T.a.t, Str(n)) ELSE With(c, T.a.t, Str(n))
                        [] T.a.tag = "adj" -> IF EffKind(m, v) = "unit" THEN Obj1(T.a.t, Str(n)) ELSE Obj((T.a.t :> Str(n)) @@ (T.a.c :> c))
GenVariantContent(m, P, T, v, d) ==
    CASE EffKind(m, v) = "unit" -> Null
      [] EffKind(m, v) = "newtype" -> GenDoc(m, P, v.fields[1].ty, d)
      [] EffKind(m, v) = "struct" -> GenStruct(m, P, T, v, v.fields, d)
      [] EffKind(m, v) = "tuple" -> LET fs == ActiveSeq(m, v.fields) IN Arr(RList(LAMBDA i : GenDoc(m, P, fs[i].ty, d - 1), Len(fs)))
RECURSIVE GenMembers(_, _, _, _, _, _, _, _)
GenMembers(m, P, T, v, fields, d, i, acc) ==
    IF i > Len(fields) THEN acc
    ELSE LET f == fields[i]
             add == IF ~Active(m, f.a) THEN EmptyObj
                    ELSE IF f.a.flat THEN GenFlat(m, P, f.ty, d - 1)
                    ELSE IF Optional(m, P, v = <<>> /\ T.a.dflt # "", f) /\ (Pct(45) \/ d < 0) THEN EmptyObj
                    ELSE Obj1(FieldName(m, T, v, f), GenDoc(m, P, f.ty, d - 1))
         IN GenMembers(m, P, T, v, fields, d, i + 1, TLCEval(MergeObj(add, acc)))
GenStruct(m, P, T, v, fields, d) ==
    LET o == GenMembers(m, P, T, v, fields, d, 1, EmptyObj)
    IN IF ~T.a.deny /\ FlatIdx(m, fields) = {} /\ Pct(15) THEN MergeObj(Obj1("zz extra", R({Nu(1), Null, Str("x")})), o) ELSE o
GenFlat(m, P, ty, d) ==
    CASE ty[1] = "opt" -> IF Pct(40) THEN EmptyObj ELSE GenFlat(m, P, ty[2], d)
      [] ty[1] = "ref" /\ P.types[ty[2]].kind = "enum" /\ P.types[ty[2]].a.tag = "ext" ->
            LET g == TLCEval(GenDoc(m, P, ty, d)) IN IF IsStr(g) THEN Obj1(g[2], Null) ELSE IF IsObj(g) THEN g ELSE EmptyObj
      [] ty[1] \in {"box", "ref"} /\ (ty[1] = "box" \/ P.types[ty[2]].kind = "newtype") ->
            GenFlat(m, P, IF ty[1] = "box" THEN ty[2] ELSE P.types[ty[2]].fields[1].ty, d)
      [] OTHER -> LET g == TLCEval(GenDoc(m, P, ty, d)) IN IF IsObj(g) THEN g ELSE EmptyObj

(* One structural change somewhere in a document *)
OtherVals == {Null, True, Nu(5), Nu(0 - 1), Dec(FALSE, "1", "5"), Str("zz"), Str(""), Arr(<<>>), Arr(<<Nu(1)>>), EmptyObj, Obj1("zz", Nu(1))}
RECURSIVE Mut(_)
Mut(j) ==
    IF IsObj(j) /\ Keys(j) # {} /\ Pct(55) THEN LET k == R(Keys(j)) IN With(j, k, Mut(j[2][k]))
    ELSE IF IsArr(j) /\ j[2] # <<>> /\ Pct(50) THEN LET i == R(Idx(j[2])) IN Arr([j[2] EXCEPT ![i] = Mut(j[2][i])])
    ELSE IF IsObj(j) THEN
        LET c == R(1..10) IN
        CASE c <= 4 /\ Keys(j) # {} -> Without(j, R(Keys(j)))
          [] c <= 6 -> With(j, R({"zz_x", "k9", "Zz"}), R({Nu(1), Null, Str("a"), True}))
          [] c <= 8 /\ Keys(j) # {} -> LET k == R(Keys(j)) IN With(Without(j, k), R({k \o "X", Upper(k), Lower(k), Dash(k)}), j[2][k])
          [] OTHER -> R(OtherVals)
    ELSE IF IsArr(j) THEN
        LET c == R(1..4) IN
        CASE c = 1 /\ j[2] # <<>> -> Arr(SubSeq(j[2], 1, Len(j[2]) - 1))
          [] c = 2 -> Arr(Append(j[2], R({Null, Nu(7), Str("a")})))
          [] OTHER -> R(OtherVals)
    ELSE IF IsStr(j) /\ Pct(40) THEN Str(R({j[2] \o "X", Upper(j[2]), Lower(j[2]), "nope"}))
    ELSE R(OtherVals)
=============================================================================
