----------------------------- MODULE DeriveShape -----------------------------
(* What a derived schema must state for a type, as faults found in a        *)
(* schema (the draft 2020-12 form, root with its members in place).         *)
EXTENDS Serde

ObjOr(s, k) == IF IsObj(s) /\ Has(s, k) THEN Get(s, k) ELSE EmptyObj
Props(s) == LET p == ObjOr(s, "properties") IN IF IsObj(p) THEN p ELSE EmptyObj
ReqSeq(s) == IF IsObj(s) /\ Has(s, "required") /\ IsArr(Get(s, "required")) THEN Get(s, "required")[2] ELSE <<>>
Req(s) == {x[2] : x \in SeqSet(ReqSeq(s))}
Declared(m, T, v, fields) == [i \in NamedIdx(m, fields) |-> FieldName(m, T, v, fields[i])]

(* The members flattened fields may bring in *)
RECURSIVE FlatNames(_, _, _)
FlatNames(m, P, ty) == FlatKeys(m, P, ty, EmptyObj)
FlatBrought(m, P, fields) == UNION {FlatNames(m, P, fields[i].ty) : i \in FlatIdx(m, fields)}

(* One object schema standing for these fields; extra are names it also declares (a tag). *)
FieldNameFaults(m, P, T, v, fields, s, extra) ==
    LET nm == Declared(m, T, v, fields)
        own == {nm[i] : i \in DOMAIN nm} \cup extra
        have == Keys(Props(s))
    IN {<<"missing", n>> : n \in own \ have} \cup {<<"unexpected", n>> : n \in (have \ own) \ FlatBrought(m, P, fields)}
DfltOf(dflts, vi, i) == {x \in SeqSet(dflts) : x.v = vi /\ x.f = i}
FieldMemberFaults(m, P, T, v, vi, fields, cdef, s, dflts, extra) ==
    LET nm == Declared(m, T, v, fields)
        must == {nm[i] : i \in {x \in DOMAIN nm : ~Optional(m, P, cdef, fields[x])}} \cup extra
        mine == {nm[i] : i \in DOMAIN nm} \cup extra
        req == Req(s)
        P1(i) == IF nm[i] \in Keys(Props(s)) THEN Props(s)[2][nm[i]] ELSE True
        HasM(i, k) == IsObj(P1(i)) /\ Has(P1(i), k) /\ Get(P1(i), k) = True
        D(i) == DfltOf(dflts, vi, i)
        WantD(i) == {x \in D(i) : ~fields[i].a.skipS /\ ~x.skip /\ x.j # <<>>}
        HasD(i) == IsObj(P1(i)) /\ Has(P1(i), "default")
    IN {<<"not required", n>> : n \in must \ req}
       \cup {<<"required", n>> : n \in (req \cap mine) \ must}
       \cup {<<"required", n>> : n \in (req \ mine) \ FlatBrought(m, P, fields)}
       \cup (IF Cardinality(req) # Len(ReqSeq(s)) /\ FlatIdx(m, fields) = {} THEN {<<"required", "repeated">>} ELSE {})
       \cup {<<"readOnly", nm[i]>> : i \in {x \in DOMAIN nm : HasM(x, "readOnly") # fields[x].a.skipD}}
       \cup {<<"writeOnly", nm[i]>> : i \in {x \in DOMAIN nm : HasM(x, "writeOnly") # fields[x].a.skipS}}
       \cup {<<"default", nm[i]>> : i \in {x \in DOMAIN nm : IF WantD(x) = {} THEN HasD(x) ELSE ~HasD(x) \/ Get(P1(x), "default") # (CHOOSE d \in WantD(x) : TRUE).j[1]}}
TupleFaults(m, fields, s) ==
    LET fs == ActiveSeq(m, fields)
        items == IF IsObj(s) /\ Has(s, "prefixItems") /\ IsArr(Get(s, "prefixItems")) THEN Get(s, "prefixItems")[2] ELSE <<>>
        HasM(i, k) == IsObj(items[i]) /\ Has(items[i], k) /\ Get(items[i], k) = True
    IN IF Len(items) # Len(fs) THEN {<<"elements", ToString(Len(items))>>}
       ELSE {<<"readOnly", ToString(i)>> : i \in {x \in Idx(fs) : HasM(x, "readOnly") # fs[x].a.skipD}}
            \cup {<<"writeOnly", ToString(i)>> : i \in {x \in Idx(fs) : HasM(x, "writeOnly") # fs[x].a.skipS}}

(* Alternatives of an enum *)
Alts(s) == IF ~IsObj(s) THEN <<s>> ELSE IF Has(s, "oneOf") THEN Get(s, "oneOf")[2] ELSE IF Has(s, "anyOf") THEN Get(s, "anyOf")[2] ELSE <<s>>
IsStringEnum(a) == IsObj(a) /\ GetOr(a, "type", Null) = Str("string") /\ Has(a, "enum")
EnumVals(a) == {x[2] : x \in SeqSet(Get(a, "enum")[2])}
IsConst(a, n) == IsObj(a) /\ (GetOr(a, "const", Null) = Str(n) \/ GetOr(a, "enum", Null) = Arr(<<Str(n)>>))
IsTagged(a, t, n) == IsObj(a) /\ t \in Keys(Props(a)) /\ IsConst(Props(a)[2][t], n) /\ t \in Req(a)
IsExtObj(a, n) == IsObj(a) /\ GetOr(a, "type", Null) = Str("object") /\ Keys(Props(a)) = {n} /\ Req(a) = {n}
AltsOf(m, T, s, i) ==     \* the alternatives that stand for tagged variant i
    LET v == T.variants[i]  n == VariantName(m, T, v)  as == Alts(s) IN
    {x \in Idx(as) :
       CASE T.a.tag = "ext" -> IF EffKind(m, v) = "unit" THEN (IsStringEnum(as[x]) /\ n \in EnumVals(as[x])) \/ (IsConst(as[x], n) /\ GetOr(as[x], "type", Null) = Str("string"))
                               ELSE IsExtObj(as[x], n)
         [] OTHER -> IsTagged(as[x], T.a.t, n)}
TaggedVars(m, T) == {i \in ActiveVars(m, T) : ~IsUntaggedV(T, T.variants[i])}
PlainUnits(m, T) == {i \in TaggedVars(m, T) : T.a.tag = "ext" /\ EffKind("ser", T.variants[i]) = "unit" /\ EffKind("de", T.variants[i]) = "unit" /\ ~T.variants[i].a.doc}
DistinctNames(m, T) == Cardinality({VariantName(m, T, T.variants[i]) : i \in TaggedVars(m, T)}) = Cardinality(TaggedVars(m, T))

AltFaults(m, P, k, s) ==
    LET T == P.types[k]
        act == ActiveVars(m, T)
        tv == TaggedVars(m, T)
        N(i) == VariantName(m, T, T.variants[i])
        as == Alts(s)
        plain == PlainUnits(m, T)
        single == tv \ plain
        enums == {x \in Idx(as) : IsStringEnum(as[x]) /\ EnumVals(as[x]) # {} /\ \A i \in single : x \notin AltsOf(m, T, s, i)}
        empty == {x \in Idx(as) : IsStringEnum(as[x]) /\ EnumVals(as[x]) = {}}
        unt == act \ tv
    IN IF T.kind # "enum" \/ act = {} \/ ~DistinctNames(m, T) THEN {}
       ELSE {<<"alternatives for", N(i)>> : i \in {x \in tv : Cardinality(AltsOf(m, T, s, x)) # 1}}
            \cup (IF plain # {} /\ unt = {} /\ (Cardinality(enums) # 1 \/ \E x \in enums : EnumVals(as[x]) # {N(i) : i \in plain}) THEN {<<"unit variants", "not combined">>} ELSE {})
            \cup (IF plain # {} /\ unt # {} /\ ~\E x \in Idx(as) : IsStringEnum(as[x]) /\ EnumVals(as[x]) = {N(i) : i \in plain} THEN {<<"unit variants", "not combined">>} ELSE {})
            \cup (IF Len(as) - Cardinality(empty) # Cardinality(single) + Cardinality(unt) + (IF plain # {} THEN 1 ELSE 0) THEN {<<"number of alternatives", ToString(Len(as))>>} ELSE {})
            \cup (IF unt # {} /\ Cardinality(act) > 1 /\ IsObj(s) /\ Has(s, "oneOf") THEN {<<"exclusive", "untagged">>} ELSE {})
            \cup (IF T.a.tag # "adj" THEN {} ELSE
                  UNION {LET a == as[CHOOSE x \in AltsOf(m, T, s, i) : TRUE]
                             want == {T.a.t} \cup (IF EffKind(m, T.variants[i]) = "unit" THEN {} ELSE {T.a.c})
                         IN (IF Keys(Props(a)) # want \/ Req(a) # want THEN {<<"adjacent form", N(i)>>} ELSE {})
                            \cup (IF (GetOr(a, "additionalProperties", True) = False) # T.a.deny THEN {<<"adjacent deny", N(i)>>} ELSE {})
                         : i \in {x \in tv : Cardinality(AltsOf(m, T, s, x)) = 1}})

(* The schema of a variant's own members, where there is one place for it *)
VariantSchema(m, T, s, i) ==
    LET v == T.variants[i]  as == Alts(s)  mine == AltsOf(m, T, s, i) IN
    IF Cardinality(mine) # 1 \/ ~DistinctNames(m, T) \/ EffKind(m, v) = "unit" THEN <<>>
    ELSE LET a == as[CHOOSE x \in mine : TRUE] IN
         CASE T.a.tag = "ext" -> <<Props(a)[2][VariantName(m, T, v)]>>
           [] T.a.tag = "int" -> <<a>>
           [] T.a.tag = "adj" -> IF T.a.c \in Keys(Props(a)) THEN <<Props(a)[2][T.a.c]>> ELSE <<>>
OverVariants(m, P, T, s, F(_, _), G(_, _)) ==
    UNION {LET vs == VariantSchema(m, T, s, i)  v == T.variants[i] IN
           IF vs = <<>> THEN {} ELSE IF v.kind = "struct" THEN F(i, vs[1]) ELSE IF v.kind = "tuple" THEN G(i, vs[1]) ELSE {}
           : i \in TaggedVars(m, T)}
NoFault(i, s) == {}

NameFaults(m, P, k, s) ==
    LET T == P.types[k] IN
    CASE T.kind = "struct" /\ ~T.a.transp -> FieldNameFaults(m, P, T, <<>>, T.fields, s, {})
      [] T.kind = "enum" /\ ActiveVars(m, T) # {} /\ DistinctNames(m, T) ->
           {<<"variant", VariantName(m, T, T.variants[i])>> : i \in {x \in TaggedVars(m, T) : AltsOf(m, T, s, x) = {}}}
           \cup OverVariants(m, P, T, s, LAMBDA i, vs : FieldNameFaults(m, P, T, T.variants[i], T.variants[i].fields, vs, IF T.a.tag = "int" THEN {T.a.t} ELSE {}), NoFault)
      [] OTHER -> {}
MemberFaults(m, P, k, s, dflts) ==
    LET T == P.types[k] IN
    CASE T.kind = "struct" /\ ~T.a.transp -> FieldMemberFaults(m, P, T, <<>>, 0, T.fields, T.a.dflt # "", s, dflts, {})
      [] T.kind = "tuple" -> TupleFaults(m, T.fields, s)
      [] T.kind = "enum" ->
           OverVariants(m, P, T, s, LAMBDA i, vs : FieldMemberFaults(m, P, T, T.variants[i], i, T.variants[i].fields, FALSE, vs, dflts, IF T.a.tag = "int" THEN {T.a.t} ELSE {}),
                        LAMBDA i, vs : TupleFaults(m, T.variants[i].fields, vs))
      [] OTHER -> {}

----------------------------------------------------------------------------
(* Flattening: where only structs, maps and options of them are flattened the merged object is known exactly. *)
HasFlat(T) == \/ \E i \in Idx(T.fields) : T.fields[i].a.flat
              \/ \E i \in Idx(T.variants) : \E x \in Idx(T.variants[i].fields) : T.variants[i].fields[x].a.flat
RECURSIVE PlainFlat(_, _, _), FlatReq(_, _, _), FlatProps(_, _, _), FlatMaps(_, _, _)
PlainFlat(m, P, ty) ==
    \/ ty[1] = "map"
    \/ ty[1] \in {"opt", "box"} /\ PlainFlat(m, P, ty[2])
    \/ ty[1] = "ref" /\ P.types[ty[2]].kind = "struct" /\ ~P.types[ty[2]].a.transp
         /\ \A i \in FlatIdx(m, P.types[ty[2]].fields) : PlainFlat(m, P, P.types[ty[2]].fields[i].ty)
FlatProps(m, P, ty) ==
    CASE ty[1] = "map" -> {}
      [] ty[1] \in {"opt", "box"} -> FlatProps(m, P, ty[2])
      [] ty[1] = "ref" -> LET T == P.types[ty[2]]  nm == Declared(m, T, <<>>, T.fields) IN
            {nm[i] : i \in DOMAIN nm} \cup UNION {FlatProps(m, P, T.fields[i].ty) : i \in FlatIdx(m, T.fields)}
FlatReq(m, P, ty) ==
    CASE ty[1] \in {"map", "opt"} -> {}
      [] ty[1] = "box" -> FlatReq(m, P, ty[2])
      [] ty[1] = "ref" -> LET T == P.types[ty[2]]  nm == Declared(m, T, <<>>, T.fields) IN
            {nm[i] : i \in {x \in DOMAIN nm : ~Optional(m, P, T.a.dflt # "", T.fields[x])}} \cup UNION {FlatReq(m, P, T.fields[i].ty) : i \in FlatIdx(m, T.fields)}
FlatMaps(m, P, ty) ==
    CASE ty[1] = "map" -> {ty[2]}
      [] ty[1] \in {"opt", "box"} -> FlatMaps(m, P, ty[2])
      [] ty[1] = "ref" -> UNION {FlatMaps(m, P, P.types[ty[2]].fields[i].ty) : i \in FlatIdx(m, P.types[ty[2]].fields)}
FlatFaults(m, P, k, s) ==
    LET T == P.types[k] IN
    IF T.kind # "struct" \/ T.a.transp \/ ~\A i \in FlatIdx(m, T.fields) : PlainFlat(m, P, T.fields[i].ty) THEN {}
    ELSE LET nm == Declared(m, T, <<>>, T.fields)
             flats == FlatIdx(m, T.fields)
             props == {nm[i] : i \in DOMAIN nm} \cup UNION {FlatProps(m, P, T.fields[i].ty) : i \in flats}
             req == {nm[i] : i \in {x \in DOMAIN nm : ~Optional(m, P, T.a.dflt # "", T.fields[x])}} \cup UNION {FlatReq(m, P, T.fields[i].ty) : i \in flats}
             maps == UNION {FlatMaps(m, P, T.fields[i].ty) : i \in flats}
             closed == GetOr(s, "additionalProperties", True) = False \/ GetOr(s, "unevaluatedProperties", True) = False
         IN {<<"flattened member missing", n>> : n \in props \ Keys(Props(s))} \cup {<<"flattened member unexpected", n>> : n \in Keys(Props(s)) \ props}
            \cup {<<"flattened requirement missing", n>> : n \in req \ Req(s)} \cup {<<"flattened requirement unexpected", n>> : n \in Req(s) \ req}
            \cup (IF maps = {} /\ closed # T.a.deny THEN {<<"extra members", "">>} ELSE {})
            \cup (IF maps # {} /\ ~Has(s, "additionalProperties") /\ ~Has(s, "unevaluatedProperties") THEN {<<"extra members", "map">>} ELSE {})
=============================================================================
