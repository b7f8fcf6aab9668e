---------------------------- MODULE OverrideSim ----------------------------
(* Programs whose settings are spread over serde and schemars attributes,   *)
(* with decoys that are overridden or cancelled.                            *)
EXTENDS DeriveSim, Override
(* k = "s"; k; k(serialize = "s", deserialize = "d"), each half left out if empty *)
Eq(k, s) == <<k, "eq", s>>
Flag(k) == <<k>>
Two(k, s, d) == IF s = d THEN <<Eq(k, s)>> ELSE <<<<k, "two", s, d>>>>
Rule(k, s, d) == IF s = "" /\ d = "" THEN <<>> ELSE Two(k, s, d)
If(b, x) == IF b THEN <<x>> ELSE <<>>
RenI(a) == IF a.hasRen THEN Two("rename", a.renS, a.renD) ELSE <<>>
SkipI(a) == IF a.skipS /\ a.skipD THEN <<Flag("skip")>> ELSE If(a.skipS, Flag("skip_serializing")) \o If(a.skipD, Flag("skip_deserializing"))
DfltI(a, path) == CASE a.dflt = "trait" -> <<Flag("default")>> [] a.dflt = "path" -> <<Eq("default", path)>> [] OTHER -> <<>>
Ssi(n) == IF n = "is_none" THEN "Option::is_none" ELSE "crate::rt::" \o n
FieldI(a, path) == RenI(a) \o SkipI(a) \o If(a.ssi # "", Eq("skip_serializing_if", Ssi(a.ssi))) \o DfltI(a, path) \o If(a.flat, Flag("flatten"))
VarI(a) == RenI(a) \o Rule("rename_all", a.raS, a.raD) \o SkipI(a) \o If(a.unt, Flag("untagged"))
ContI(a, path) == RenI(a) \o Rule("rename_all", a.raS, a.raD) \o Rule("rename_all_fields", a.rafS, a.rafD)
    \o (CASE a.tag = "int" -> <<Eq("tag", a.t)>> [] a.tag = "adj" -> <<Eq("tag", a.t), Eq("content", a.c)>> [] a.tag = "unt" -> <<Flag("untagged")>> [] OTHER -> <<>>)
    \o If(a.deny, Flag("deny_unknown_fields")) \o DfltI(a, path) \o If(a.transp, Flag("transparent"))

Decoy(k) ==
    CASE k = "rename" -> R({Eq(k, "decoy"), <<k, "two", "decoyS", "">>, <<k, "two", "decoyS", "decoyD">>})
      [] k \in {"rename_all", "rename_all_fields"} -> R({Eq(k, "UPPERCASE"), Eq(k, "kebab-case"), <<k, "two", "SCREAMING-KEBAB-CASE", "">>})
      [] k \in {"tag", "content"} -> Eq(k, "decoy_" \o k)
      [] k = "default" -> R({Flag(k), Eq(k, "crate::rt::decoy")})
      [] k = "skip_serializing_if" -> Eq(k, "crate::rt::always")
      [] k \in {"into", "from", "try_from", "remote"} -> Eq(k, "String")
      [] OTHER -> Flag(k)
Fields == <<"rename", "skip", "skip_serializing", "skip_deserializing", "skip_serializing_if", "default", "flatten">>
Vars == <<"rename", "rename_all", "skip", "skip_serializing", "skip_deserializing", "untagged">>
Conts == <<"rename", "rename_all", "rename_all_fields", "tag", "content", "untagged", "deny_unknown_fields", "default", "transparent", "into", "from", "try_from", "remote">>

ItemOf(items, k) == LET S == {i \in DOMAIN items : Kw(items[i]) = k} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
(* <<serde items, schemars items>> for one keyword *)
SpreadK(items, k, plainRename) ==
    LET i == ItemOf(items, k)
        ks == {Kw(items[x]) : x \in DOMAIN items}
        r == R(1..100)
        half == k \in {"skip_serializing", "skip_deserializing"} /\ "skip" \in ks
        mustSerde == k = "rename" /\ plainRename /\ i > 0 /\ items[i][2] = "two"
    IN IF i > 0 THEN (CASE r <= 25 \/ mustSerde -> <<<<items[i]>>, <<>>>>
                        [] r <= 50 -> <<<<>>, <<items[i]>>>>
                        [] OTHER -> <<<<IF k = "skip" /\ Pct(50) THEN Flag(R({"skip_serializing", "skip_deserializing"})) ELSE Decoy(k)>>, <<items[i]>>>>)
       ELSE IF half \/ r > 22 \/ (k = "skip" /\ ks \cap {"skip_serializing", "skip_deserializing"} # {})
            THEN <<<<>>, <<>>>>
       ELSE <<<<Decoy(k)>>, <<<<"!", k>>>>>>
RECURSIVE SpreadAll(_, _, _, _, _)
SpreadAll(items, ks, plain, n, acc) ==
    IF n > Len(ks) THEN acc
    ELSE LET s == TLCEval(SpreadK(items, ks[n], plain)) IN
         SpreadAll(items, ks, plain, n + 1, TLCEval(<<acc[1] \o [x \in DOMAIN s[1] |-> <<"serde", s[1][x]>>], acc[2] \o [x \in DOMAIN s[2] |-> <<"schemars", s[2][x]>>]>>))
(* a random order, then neighbours of the same kind may share an attribute *)
RECURSIVE Shuffle(_, _), Group(_, _)
Shuffle(s, acc) == IF s = <<>> THEN acc ELSE LET i == R(1..Len(s)) IN Shuffle(SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s)), TLCEval(Append(acc, s[i])))
Group(s, acc) ==
    IF s = <<>> THEN acc
    ELSE LET x == Head(s) IN
         IF acc # <<>> /\ acc[Len(acc)].w = x[1] /\ Pct(50) THEN Group(Tail(s), TLCEval([acc EXCEPT ![Len(acc)].items = Append(acc[Len(acc)].items, x[2])]))
         ELSE Group(Tail(s), TLCEval(Append(acc, [w |-> x[1], items |-> <<x[2]>>])))
Spread(items, ks, plain, noise) ==
    LET a == TLCEval(SpreadAll(items, ks, plain, 1, <<<<>>, <<>>>>))
        n == IF Pct(12) THEN <<<<"serde", R(noise)>>>> ELSE <<>>
        both == IF Pct(12) /\ noise # {Eq("alias", "zz")} THEN <<<<"schemars", Eq("bound", "")>>>> ELSE <<>>
    IN [want |-> items, attrs |-> Group(TLCEval(Shuffle(a[1] \o a[2] \o n \o both, <<>>)), <<>>)]

(* serde's with names a module; schemars' with a type: the schemars one decides, or a cancelled one is ignored *)
WithItem(f, T, s) ==
    IF f.a.flat \/ T.a.transp THEN s ELSE
    LET r == R(1..100)
        se == [w |-> "serde", items |-> <<Eq("with", "crate::rt::wm")>>]
        sc == [w |-> "schemars", items |-> <<Eq("with", "@TY")>>]
        no == [w |-> "schemars", items |-> <<<<"!", "with">>>>]
    IN CASE r <= 6 -> [s EXCEPT !.attrs = <<se>> \o @ \o <<sc>>]
         [] r <= 10 -> [s EXCEPT !.attrs = <<sc>> \o @ \o <<se>>]
         [] r <= 14 -> [s EXCEPT !.attrs = <<se>> \o @ \o <<no>>]
         [] r <= 17 -> [s EXCEPT !.attrs = @ \o <<sc>>]
         [] OTHER -> s
Path(k, v, i) == "d_" \o ToString(k) \o "_" \o v \o "_" \o ToString(i - 1)
SpreadFields(T, k, v, fs) ==
    RList(LAMBDA i : TLCEval(WithItem(fs[i], T, TLCEval(Spread(FieldI(fs[i].a, Path(k, v, i)), Fields, FALSE, {Eq("alias", "zz")})))), Len(fs))
SpreadType(T, k) ==
    [c |-> Spread(ContI(T.a, "c_" \o ToString(k)), Conts, TRUE, {Eq("bound", ""), Eq("expecting", "x")}),
     f |-> SpreadFields(T, k, "s", T.fields),
     v |-> RList(LAMBDA i : [c |-> Spread(VarI(T.variants[i].a), Vars, FALSE, {Eq("alias", "zz")}),
                             f |-> SpreadFields(T, k, ToString(i - 1), T.variants[i].fields)], Len(T.variants))]
Next2 == \/ /\ Len(P.types) < NTypes /\ phase = 0 /\ UNCHANGED <<out, phase>>
            /\ \E kd \in {RKind(Len(P.types))} : \E t \in {NoDenyMap(P, RType(P, kd))} : P' = [types |-> Append(P.types, t)]
         \/ /\ Len(P.types) = NTypes /\ phase = 0 /\ phase' = 1 /\ UNCHANGED P
            /\ \E o \in {RList(LAMBDA k : [sp |-> SpreadType(P.types[k], k), dv |-> RVal(P, <<"ref", k>>, 2)], NTypes)} : out' = o
         \/ /\ phase = 1 /\ phase' = 2 /\ UNCHANGED <<P, out>>
            /\ PrintT("CASE " \o ToJson([types |-> P.types, subj |-> out]))
Spec2 == Init /\ [][Next2]_<<P, out, phase>>
=============================================================================
