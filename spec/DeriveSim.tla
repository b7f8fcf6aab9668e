----------------------------- MODULE DeriveSim -----------------------------
(* Programs of derived types.  Focus selects what the programs are rich in. *)
EXTENDS DeriveGen, Uri, Json
CONSTANTS Focus, NTypes
F(x) == Focus = x

FieldBases == <<"alpha", "beta_gamma", "x1_y", "_lead", "dbl__us", "camelCase", "q">>
VarBases == <<"Unit", "HttpReq", "snake_v", "X", "AbC9">>
Renames(idx) == CASE idx % 4 = 0 -> {"$ref", "a/b", ChrOf(233)} [] idx % 4 = 1 -> {"type", "x~y", "50%"}
                  [] idx % 4 = 2 -> {"", "with space", "const"} [] OTHER -> {"properties", "q\"uote", "Ren", "{0}"}
FIdent(ti, i) == FieldBases[((ti + i) % Len(FieldBases)) + 1] \o "_" \o ToString(i) \o ToString(ti)
VIdent(ti, i) == VarBases[((ti + i) % Len(VarBases)) + 1] \o ToString(ti)
RRename(a, idx, ti, pct) ==
    IF ~Pct(pct) THEN a ELSE
    LET s == R(Renames(idx)) \o (IF ti > 1 THEN ToString(ti) ELSE "") \o (IF idx > 4 THEN "v" ELSE "") IN
    IF Pct(60) THEN [a EXCEPT !.hasRen = TRUE, !.renS = s, !.renD = s]
    ELSE [a EXCEPT !.hasRen = TRUE, !.renS = s \o "S", !.renD = s \o "D"]
RSkip(a, pct) ==
    IF ~Pct(pct) THEN a ELSE
    LET k == R(1..3) IN
    CASE k = 1 -> [a EXCEPT !.skipS = TRUE] [] k = 2 -> [a EXCEPT !.skipD = TRUE] [] k = 3 -> [a EXCEPT !.skipS = TRUE, !.skipD = TRUE]
RRule(pct) == IF Pct(pct) THEN R(Rules) ELSE ""

(* kind: "struct" fields, "tuple" fields, "newtype" *)
RAttr(P, ty, idx, ti, inStruct) ==
    LET a0 == TLCEval(RRename(NoF, idx, ti, IF ~inStruct THEN 0 ELSE IF F("rename") THEN 45 ELSE 15))
        a1 == TLCEval(RSkip(a0, IF F("fields") THEN 30 ELSE 10))
        a2 == IF inStruct /\ Pct(IF F("fields") THEN 35 ELSE 12)
              THEN [a1 EXCEPT !.ssi = R(IF ty[1] = "opt" THEN {"is_none", "is_none", "is_dflt", "always"} ELSE {"is_dflt", "is_dflt", "never", "always"})] ELSE a1
    IN IF inStruct /\ Pct(IF F("fields") THEN 40 ELSE 15) THEN [a2 EXCEPT !.dflt = IF NoSelf(P, ty) THEN R({"trait", "path"}) ELSE "trait"] ELSE a2
FlatTy(P, used) ==
    LET ks == {k \in 1..Len(P.types) : Flattenable(P, <<"ref", k>>) /\ ~MapAlt(P, <<"ref", k>>) /\ ~DenyBehind(P, <<"ref", k>>) /\ FlatUses(P, <<"ref", k>>) \cap used = {}} IN
    IF ks = {} THEN <<"map", RTy(P, 0)>>
    ELSE LET k == IF Pct(60) THEN Max(ks) ELSE R(ks)  c == R(1..10) IN
         CASE c <= 6 -> <<"ref", k>> [] c <= 8 -> <<"opt", <<"ref", k>>>> [] c = 9 -> <<"box", <<"ref", k>>>> [] OTHER -> <<"map", RTy(P, 0)>>
(* fields of a braced struct or struct variant, one at a time so that flattened types are used once *)
RECURSIVE RFields(_, _, _, _, _, _)
RFields(P, ti, n, acc, used, hasMap) ==
    IF Len(acc) = n THEN     \* serde cannot derive a flattening struct none of whose fields are written
        IF n > 0 /\ (\E i \in 1..n : acc[i].a.flat) /\ \A i \in 1..n : acc[i].a.skipS THEN [acc EXCEPT ![n].a.skipS = FALSE] ELSE acc
    ELSE LET i == Len(acc) + 1
             fty == TLCEval(FlatTy(P, used))
             flat == Pct(IF F("flatten") THEN 50 ELSE 12) /\ FlatUses(P, fty) \cap used = {} /\ ~(hasMap /\ HasMapFlat(P, fty))
                     \* a map inside an earlier flattened value would see the members of later ones
                     /\ ~\E y \in Idx(acc) : acc[y].a.flat /\ ~IsMapLike(P, FlatBase(acc[y].ty)) /\ HasMapFlat(P, acc[y].ty)
             ty == IF flat THEN fty ELSE TLCEval(RTy(P, R(0..2)))
             a == TLCEval(RAttr(P, ty, i, ti, TRUE))
             fa == IF flat THEN [NoF EXCEPT !.flat = TRUE, !.skipS = a.skipS, !.skipD = a.skipD] ELSE a
             f == [id |-> FIdent(ti, i), ty |-> ty, a |-> fa, dv |-> IF fa.dflt = "path" THEN RVal(P, ty, 2) ELSE ""]
         IN RFields(P, ti, n, Append(acc, TLCEval(f)), IF flat THEN used \cup FlatUses(P, fty) ELSE used, hasMap \/ (flat /\ HasMapFlat(P, fty)))
RTupField(P, i, ti, noskip) ==
    LET ty == TLCEval(RTy(P, R(0..1))) IN
    [id |-> "", ty |-> ty, a |-> RSkip(NoF, IF noskip THEN 0 ELSE IF F("fields") \/ F("enum") THEN 25 ELSE 8), dv |-> ""]
(* a newtype variant's field skipped on one side only: known finding "newtype-skip-one-side" *)
BothSkips(f0) == LET f == TLCEval(f0) IN [f EXCEPT !.a.skipS = f.a.skipS /\ f.a.skipD, !.a.skipD = f.a.skipS /\ f.a.skipD]
Plain(P, ty) == [id |-> "", ty |-> ty, a |-> NoF, dv |-> ""]
(* trailing tuple fields may have defaults *)
TrailDflt(P, fs) == IF Len(fs) > 0 /\ Pct(25) THEN [fs EXCEPT ![Len(fs)].a.dflt = "trait"] ELSE fs
NoSelfTy(P, d) == LET t == TLCEval(RTy(P, d)) IN IF NoSelf(P, t) THEN t ELSE <<"str">>
ObjTy(P) == LET ks == {k \in 1..Len(P.types) : (ObjLike(P, <<"ref", k>>) /\ ~MapAlt(P, <<"ref", k>>) /\ ~DenyBehind(P, <<"ref", k>>)) \/ UnitLike(P, <<"ref", k>>)} IN
            IF ks = {} \/ Pct(15) THEN R({<<"map", <<"i", "u8">>>>, <<"unit">>, <<"map", <<"any">>>>}) ELSE LET k == R(ks) IN IF Pct(15) THEN <<"box", <<"ref", k>>>> ELSE <<"ref", k>>
RVariant(P, ti, i, tag) ==
    LET unt == tag # "unt" /\ Pct(IF F("enum") THEN 10 ELSE 4)
        k == R(1..100)
        kind == CASE k <= 35 -> "unit" [] k <= 60 -> "newtype" [] k <= 75 /\ tag # "int" -> "tuple" [] OTHER -> "struct"
        a0 == TLCEval(RSkip(RRename(NoV, i, ti, IF F("rename") THEN 40 ELSE 12), IF F("enum") \/ F("fields") THEN 15 ELSE 6))
        a == [a0 EXCEPT !.unt = unt, !.doc = Pct(15), !.raS = IF kind = "struct" THEN RRule(IF F("rename") THEN 30 ELSE 5) ELSE ""]
    IN [id |-> VIdent(ti, i), kind |-> kind, a |-> [a EXCEPT !.raD = IF Pct(70) THEN a.raS ELSE RRule(50)],
        fields |-> CASE kind = "unit" -> <<>>
                     [] kind = "newtype" -> IF tag = "int" /\ ~unt THEN <<Plain(P, ObjTy(P))>> ELSE IF tag = "unt" \/ unt THEN <<Plain(P, NoSelfTy(P, 1))>> ELSE <<BothSkips(RTupField(P, 1, ti, ~F("enum")))>>
                     [] kind = "tuple" -> RList(LAMBDA x : RTupField(P, x, ti, FALSE), R({2, 2, 3}))
                     [] kind = "struct" -> RFields(P, ti, R(0..3), <<>>, {}, FALSE)]
(* untagged variants must come last in a tagged enum; identical shapes are left to serde's first match *)
RECURSIVE SortUnt(_)
SortUnt(vs) == SelectSeq(vs, LAMBDA v : ~v.a.unt) \o SelectSeq(vs, LAMBDA v : v.a.unt)
RCont(ti, kind) ==
    LET a0 == TLCEval(IF Pct(IF F("rename") THEN 35 ELSE 10) THEN [NoC EXCEPT !.hasRen = TRUE, !.renS = "Renamed" \o ToString(ti), !.renD = "Renamed" \o ToString(ti)] ELSE NoC)
        r1 == RRule(IF F("rename") THEN 75 ELSE 25)
        r2 == IF Pct(65) THEN r1 ELSE RRule(60)
        f1 == IF kind = "enum" THEN RRule(IF F("rename") THEN 50 ELSE 15) ELSE ""
        f2 == IF kind # "enum" \/ Pct(65) THEN f1 ELSE RRule(60)
        tag == IF kind = "enum" THEN R({"ext", "ext", "int", "adj", "unt"}) ELSE "ext"
    IN [a0 EXCEPT !.raS = IF kind \in {"enum", "struct"} THEN r1 ELSE "", !.raD = IF kind \in {"enum", "struct"} THEN r2 ELSE "",
                  !.rafS = f1, !.rafD = f2, !.tag = tag,
                  !.t = IF tag \in {"int", "adj"} THEN R({"t", "type_", "ki nd"}) \o ToString(ti) ELSE "",
                  !.c = IF tag = "adj" THEN R({"c", "content"}) \o ToString(ti) ELSE "",
                  !.deny = kind \in {"struct", "enum"} /\ Pct(20),
                  !.dflt = IF kind = "struct" /\ Pct(IF F("fields") THEN 25 ELSE 8) THEN R({"trait", "trait", "path"}) ELSE "",
                  !.doc = Pct(15)]
RKind(z) == LET k == R(1..(100 + 0 * z)) IN
    IF F("enum") THEN (IF k <= 70 THEN "enum" ELSE IF k <= 85 THEN "struct" ELSE IF k <= 92 THEN "newtype" ELSE "unit")
    ELSE IF F("flatten") THEN (IF k <= 60 THEN "struct" ELSE IF k <= 95 THEN "enum" ELSE "newtype")
    ELSE IF F("fields") \/ F("plainf") THEN (IF k <= 70 THEN "struct" ELSE IF k <= 85 THEN "enum" ELSE IF k <= 95 THEN "tuple" ELSE "newtype")
    ELSE (IF k <= 40 THEN "struct" ELSE IF k <= 75 THEN "enum" ELSE IF k <= 85 THEN "tuple" ELSE IF k <= 95 THEN "newtype" ELSE "unit")
(* serde does not support denying unknown members next to a flattened map *)
NoDenyMap(P, T0) ==
    LET T == TLCEval(T0)
        fss == {T.fields} \cup {T.variants[i].fields : i \in Idx(T.variants)}
    IN IF T.a.deny /\ \E fs \in fss : \E i \in Idx(fs) : fs[i].a.flat /\ HasMapFlat(P, fs[i].ty) THEN [T EXCEPT !.a.deny = FALSE] ELSE T
RType(P, kind) ==
    LET ti == Len(P.types) + 1
        a == TLCEval(RCont(ti, kind))
        transp == kind = "struct" /\ Pct(4)
    IN [name |-> "T" \o ToString(ti), kind |-> kind,
        a |-> IF transp THEN [NoC EXCEPT !.transp = TRUE] ELSE a,
        fields |-> CASE kind \in {"enum", "unit"} -> <<>>
                     [] transp -> <<[Plain(P, NoSelfTy(P, 2)) EXCEPT !.id = "inner"]>>
                     [] kind = "newtype" -> <<Plain(P, NoSelfTy(P, 2))>>
                     [] kind = "tuple" -> TrailDflt(P, RList(LAMBDA i : RTupField(P, i, ti, FALSE), R({0, 2, 2, 3})))
                     [] kind = "struct" -> RFields(P, ti, R(0..(IF F("flatten") THEN 3 ELSE 4)), <<>>, {}, FALSE),
        variants |-> IF kind # "enum" THEN <<>> ELSE SortUnt(RList(LAMBDA i : RVariant(P, ti, i, a.tag), R(1..5)))]

Docs(P, k) == RList(LAMBDA i : IF i <= 6 THEN GenDoc("de", P, <<"ref", k>>, 3) ELSE Mut(GenDoc("de", P, <<"ref", k>>, 3)), 14)
Vals(P, k) == RList(LAMBDA i : RVal(P, <<"ref", k>>, 3), 4)
VARIABLES P, out, phase
Init == P = [types |-> <<>>] /\ out = <<>> /\ phase = 0
Next == \/ /\ Len(P.types) < NTypes /\ phase = 0 /\ UNCHANGED <<out, phase>>
           /\ \E kd \in {RKind(Len(P.types))} : \E t \in {NoDenyMap(P, RType(P, kd))} : P' = [types |-> Append(P.types, t)]
        \/ /\ Len(P.types) = NTypes /\ phase = 0 /\ phase' = 1 /\ UNCHANGED P
           /\ \E o \in {RList(LAMBDA k : [docs |-> Docs(P, k), vals |-> Vals(P, k), dv |-> RVal(P, <<"ref", k>>, 2)], NTypes)} : out' = o
        \/ /\ phase = 1 /\ phase' = 2 /\ UNCHANGED <<P, out>>
           /\ \A k \in 1..NTypes : \A i \in 1..6 : IF IsNull(out[k].docs[i]) \/ DocOK("de", P, <<"ref", k>>, out[k].docs[i]) THEN TRUE
                 ELSE PrintT("BADGEN " \o ToJson([k |-> k, j |-> out[k].docs[i], P |-> P]))
           /\ PrintT("CASE " \o ToJson([types |-> P.types, subj |-> out]))
Spec == Init /\ [][Next]_<<P, out, phase>>
=============================================================================
