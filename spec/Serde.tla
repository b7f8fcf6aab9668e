------------------------------- MODULE Serde -------------------------------
(* The data format of a program's types, as serde defines it and as the     *)
(* schemars attributes (after overriding) describe it.  A program P is      *)
(* [types |-> <<T1, ..., Tn>>].  A type is                                  *)
(*   [name, kind: "struct"|"tuple"|"newtype"|"unit"|"enum", a, fields,      *)
(*    variants], a variant [id, kind, fields, a], a field [id, ty, a].      *)
(* Field types: <<"i",name>> <<"bool">> <<"str">> <<"char">> <<"f64">>      *)
(*   <<"unit">> <<"any">> <<"opt",t>> <<"vec",t>> <<"map",t>> <<"box",t>>   *)
(*   <<"arr",t,n>> <<"tup",<<t..>>>> <<"ref",k>>.                           *)
(* A contract m is "ser" or "de".  DocOK(m,P,ty,j): j is a document of the  *)
(* documented form of ty under m.  "lax" is "de" where malformed members of *)
(* an optional flattened value are ignored, as serde does.                  *)
EXTENDS JsonVal, SequencesExt, FiniteSetsExt

----------------------------------------------------------------------------
(* Attributes *)
NoF == [renS |-> "", renD |-> "", hasRen |-> FALSE, skipS |-> FALSE, skipD |-> FALSE, ssi |-> "", dflt |-> "", flat |-> FALSE]
NoV == [renS |-> "", renD |-> "", hasRen |-> FALSE, raS |-> "", raD |-> "", skipS |-> FALSE, skipD |-> FALSE, unt |-> FALSE, doc |-> FALSE]
NoC == [renS |-> "", renD |-> "", hasRen |-> FALSE, raS |-> "", raD |-> "", rafS |-> "", rafD |-> "", tag |-> "ext", t |-> "", c |-> "",
        deny |-> FALSE, dflt |-> "", transp |-> FALSE, doc |-> FALSE]

Active(m, a) == IF m = "ser" THEN ~a.skipS ELSE ~a.skipD
Pick(m, s, d) == IF m = "ser" THEN s ELSE d

(* Case conventions *)
Cap(s) == IF s = "" THEN "" ELSE UpCh(Ch(s, 1)) \o DropN(s, 1)
Uncap(s) == IF s = "" THEN "" ELSE LoCh(Ch(s, 1)) \o DropN(s, 1)
RECURSIVE Pascal(_, _, _)
Pascal(s, i, up) == IF i > Len(s) THEN ""
                    ELSE IF Ch(s, i) = "_" THEN Pascal(s, i + 1, TRUE)
                    ELSE (IF up THEN UpCh(Ch(s, i)) ELSE Ch(s, i)) \o Pascal(s, i + 1, FALSE)
RECURSIVE Snake(_, _)
Snake(s, i) == IF i > Len(s) THEN ""
               ELSE (IF i > 1 /\ Ch(s, i) \in UpperChars THEN "_" ELSE "") \o LoCh(Ch(s, i)) \o Snake(s, i + 1)
Dash(s) == MapStr(LAMBDA c : IF c = "_" THEN "-" ELSE c, s, 1)
CaseField(rule, s) ==
    CASE rule \in {"", "lowercase", "snake_case"} -> s
      [] rule \in {"UPPERCASE", "SCREAMING_SNAKE_CASE"} -> Upper(s)
      [] rule = "PascalCase" -> Pascal(s, 1, TRUE)
      [] rule = "camelCase" -> Uncap(Pascal(s, 1, TRUE))
      [] rule = "kebab-case" -> Dash(s)
      [] rule = "SCREAMING-KEBAB-CASE" -> Dash(Upper(s))
CaseVariant(rule, s) ==
    CASE rule \in {"", "PascalCase"} -> s
      [] rule = "lowercase" -> Lower(s)
      [] rule = "UPPERCASE" -> Upper(s)
      [] rule = "camelCase" -> Uncap(s)
      [] rule = "snake_case" -> Snake(s, 1)
      [] rule = "SCREAMING_SNAKE_CASE" -> Upper(Snake(s, 1))
      [] rule = "kebab-case" -> Dash(Snake(s, 1))
      [] rule = "SCREAMING-KEBAB-CASE" -> Dash(Upper(Snake(s, 1)))
Rules == {"lowercase", "UPPERCASE", "PascalCase", "camelCase", "snake_case", "SCREAMING_SNAKE_CASE", "kebab-case", "SCREAMING-KEBAB-CASE"}

Ident(id) == IF StartsWith(id, "r#") THEN DropN(id, 2) ELSE id
FieldRule(m, T, v) ==    \* v is <<>> in a struct
    IF v = <<>> THEN Pick(m, T.a.raS, T.a.raD)
    ELSE LET own == Pick(m, v.a.raS, v.a.raD) IN IF own # "" THEN own ELSE Pick(m, T.a.rafS, T.a.rafD)
FieldName(m, T, v, f) == IF f.a.hasRen THEN Pick(m, f.a.renS, f.a.renD) ELSE CaseField(FieldRule(m, T, v), Ident(f.id))
VariantName(m, T, v) == IF v.a.hasRen THEN Pick(m, v.a.renS, v.a.renD) ELSE CaseVariant(Pick(m, T.a.raS, T.a.raD), Ident(v.id))

RECURSIVE UnitLike(_, _)
UnitLike(P, ty) == ty[1] = "unit" \/ (ty[1] = "box" /\ UnitLike(P, ty[2])) \/ (ty[1] = "ref" /\ ty[2] <= Len(P.types) /\ P.types[ty[2]].kind = "unit")
RECURSIVE IsOptTy(_, _)
IsOptTy(P, ty) == \/ ty[1] = "opt"
                  \/ ty[1] = "box" /\ IsOptTy(P, ty[2])
                  \/ ty[1] = "ref" /\ P.types[ty[2]].a.transp /\ IsOptTy(P, P.types[ty[2]].fields[1].ty)
(* A member may be absent: when reading, if it has a default or is an option; when writing, if it may be skipped. *)
Optional(m, P, cdef, f) == IF m # "ser" THEN cdef \/ f.a.dflt # "" \/ IsOptTy(P, f.ty) ELSE f.a.ssi # ""

Idx(s) == 1..Len(s)
ActiveIdx(m, fields) == {i \in Idx(fields) : Active(m, fields[i].a)}
NamedIdx(m, fields) == {i \in ActiveIdx(m, fields) : ~fields[i].a.flat}
FlatIdx(m, fields) == {i \in ActiveIdx(m, fields) : fields[i].a.flat}
ActiveSeq(m, fields) == LET RECURSIVE F(_)
                            F(i) == IF i > Len(fields) THEN <<>> ELSE (IF Active(m, fields[i].a) THEN <<fields[i]>> ELSE <<>>) \o F(i + 1)
                        IN F(1)
(* A newtype variant whose only field is skipped is written and read as a unit variant. *)
EffKind(m, v) == IF v.kind = "newtype" /\ ~Active(m, v.fields[1].a) THEN "unit" ELSE v.kind
IsUntaggedV(T, v) == T.a.tag = "unt" \/ v.a.unt
ActiveVars(m, T) == {i \in Idx(T.variants) : Active(m, T.variants[i].a)}

----------------------------------------------------------------------------
OnlyKeys(j, ks) == Obj([k \in Keys(j) \cap ks |-> j[2][k]])
Unsigned == {"u8", "u16", "u32", "u64", "usize"}
IntMax == [x \in {"u8", "i8", "u16", "i16"} |-> CASE x = "u8" -> 255 [] x = "i8" -> 127 [] x = "u16" -> 65535 [] x = "i16" -> 32767]
IntMin == [x \in {"u8", "i8", "u16", "i16"} |-> CASE x \in {"u8", "u16"} -> 0 [] x = "i8" -> 0 - 128 [] x = "i16" -> 0 - 32768]
IntOK(n, j) == /\ IsInteger(j)
               /\ n \in Unsigned => ~j[2]
               /\ n \in DOMAIN IntMax => (NumLe(Nu(IntMin[n]), j) /\ NumLe(j, Nu(IntMax[n])))

RECURSIVE DocOK(_, _, _, _), TypeDocOK(_, _, _, _), StructOK(_, _, _, _, _, _, _, _), FlatOK(_, _, _, _), EnumOK(_, _, _, _, _), FlatKeys(_, _, _, _)
RECURSIVE ContentOK(_, _, _, _, _)

DocOK(m, P, ty, j) ==
    CASE ty[1] = "i" -> IntOK(ty[2], j)
      [] ty[1] = "bool" -> IsBool(j)
      [] ty[1] = "str" -> IsStr(j)
      [] ty[1] = "char" -> IsStr(j) /\ Len(j[2]) = 1
      [] ty[1] = "f64" -> IsNum(j)
      [] ty[1] = "unit" -> IsNull(j)
      [] ty[1] = "any" -> TRUE
      [] ty[1] = "opt" -> IsNull(j) \/ DocOK(m, P, ty[2], j)
      [] ty[1] = "vec" -> IsArr(j) /\ \A i \in Idx(j[2]) : DocOK(m, P, ty[2], j[2][i])
      [] ty[1] = "map" -> IsObj(j) /\ \A k \in Keys(j) : DocOK(m, P, ty[2], j[2][k])
      [] ty[1] = "box" -> DocOK(m, P, ty[2], j)
      [] ty[1] = "arr" -> IsArr(j) /\ Len(j[2]) = ty[3] /\ \A i \in Idx(j[2]) : DocOK(m, P, ty[2], j[2][i])
      [] ty[1] = "tup" -> IsArr(j) /\ Len(j[2]) = Len(ty[2]) /\ \A i \in Idx(j[2]) : DocOK(m, P, ty[2][i], j[2][i])
      [] ty[1] = "ref" -> TypeDocOK(m, P, ty[2], j)

TupleOK(m, P, fields, cdef, j) ==
    LET fs == ActiveSeq(m, fields) IN
    /\ IsArr(j) /\ Len(j[2]) <= Len(fs)
    /\ \A i \in Idx(fs) : IF i <= Len(j[2]) THEN DocOK(m, P, fs[i].ty, j[2][i]) ELSE m # "ser" /\ (fs[i].a.dflt # "" \/ cdef)

TypeDocOK(m, P, k, j) ==
    LET T == P.types[k] IN
    CASE T.kind = "enum" -> EnumOK(m, P, k, j, FALSE)
      [] T.kind = "struct" /\ T.a.transp -> DocOK(m, P, T.fields[1].ty, j)
      [] T.kind = "newtype" -> DocOK(m, P, T.fields[1].ty, j)
      [] T.kind = "unit" -> IsNull(j)
      [] T.kind = "tuple" -> TupleOK(m, P, T.fields, T.a.dflt # "", j)
      [] T.kind = "struct" -> StructOK(m, P, T, <<>>, T.fields, T.a.dflt # "", T.a.deny, j)

(* The members of j that a flattened value of type ty takes part in. *)
FlatKeys(m, P, ty, j) ==
    CASE ty[1] \in {"opt", "box"} -> FlatKeys(m, P, ty[2], j)
      [] ty[1] = "ref" /\ P.types[ty[2]].kind = "newtype" -> FlatKeys(m, P, P.types[ty[2]].fields[1].ty, j)
      [] ty[1] = "ref" /\ P.types[ty[2]].kind = "struct" ->
            LET T == P.types[ty[2]] IN
            {FieldName(m, T, <<>>, T.fields[i]) : i \in NamedIdx(m, T.fields)}
            \cup UNION {FlatKeys(m, P, T.fields[i].ty, j) : i \in FlatIdx(m, T.fields)}
      [] ty[1] = "ref" /\ P.types[ty[2]].kind = "enum" ->
            LET T == P.types[ty[2]]
                VKeys(i) == LET v == T.variants[i] IN
                    (CASE EffKind(m, v) = "struct" -> {FieldName(m, T, v, v.fields[x]) : x \in NamedIdx(m, v.fields)}
                                                       \cup UNION {FlatKeys(m, P, v.fields[x].ty, j) : x \in FlatIdx(m, v.fields)}
                       [] EffKind(m, v) = "newtype" -> FlatKeys(m, P, v.fields[1].ty, j)
                       [] OTHER -> {})
            IN UNION {IF IsUntaggedV(T, T.variants[i]) THEN VKeys(i)
                      ELSE CASE T.a.tag = "ext" -> {VariantName(m, T, T.variants[i])}
                             [] T.a.tag = "int" -> {T.a.t} \cup VKeys(i)
                             [] T.a.tag = "adj" -> {T.a.t, T.a.c} : i \in ActiveVars(m, T)}
      [] UnitLike(P, ty) -> {}
      [] OTHER -> Keys(j)

IsMapLike(P, ty) == ty[1] \in {"map", "any"}
StructOK(m, P, T, v, fields, cdef, deny, j) ==
    /\ IsObj(j)
    /\ LET nm == [i \in NamedIdx(m, fields) |-> FieldName(m, T, v, fields[i])]
           named == {nm[i] : i \in DOMAIN nm}
           flats == FlatIdx(m, fields)
           rest == Keys(j) \ named
           taken == UNION {IF IsMapLike(P, fields[i].ty) THEN {} ELSE FlatKeys(m, P, fields[i].ty, j) : i \in flats}
       IN /\ \A i \in DOMAIN nm : IF nm[i] \in Keys(j) THEN DocOK(m, P, fields[i].ty, j[2][nm[i]]) ELSE Optional(m, P, cdef, fields[i])
          /\ \A i \in flats : FlatOK(m, P, fields[i].ty, OnlyKeys(j, IF IsMapLike(P, fields[i].ty) THEN rest \ taken ELSE rest))
          /\ deny => \A k \in rest : k \in taken \/ \E i \in flats : IsMapLike(P, fields[i].ty)

FlatOK(m, P, ty, j) ==
    CASE ty[1] = "opt" -> m = "lax" \/ FlatOK(m, P, ty[2], j) \/ Keys(j) \cap FlatKeys(m, P, ty[2], j) = {}
      [] ty[1] = "box" -> FlatOK(m, P, ty[2], j)
      [] ty[1] = "ref" /\ P.types[ty[2]].kind = "newtype" -> FlatOK(m, P, P.types[ty[2]].fields[1].ty, j)
      [] ty[1] = "ref" /\ P.types[ty[2]].kind = "struct" ->
            LET T == P.types[ty[2]] IN StructOK(m, P, T, <<>>, T.fields, T.a.dflt # "", FALSE, j)
      [] ty[1] = "ref" /\ P.types[ty[2]].kind = "enum" -> EnumOK(m, P, ty[2], j, TRUE)
      [] OTHER -> DocOK(m, P, ty, j)

(* An enum inside an internally tagged one shares its object with the tag: its alternatives cannot deny other members. *)
RECURSIVE EnumTy(_, _)
EnumTy(P, ty) == \/ ty[1] = "box" /\ EnumTy(P, ty[2])
                 \/ ty[1] = "ref" /\ LET T == P.types[ty[2]] IN
                       IF T.kind = "newtype" \/ T.a.transp THEN EnumTy(P, T.fields[1].ty) ELSE T.kind = "enum"
(* The content of a variant, where flat tells that it shares its object with others. *)
ContentOK(m, P, T, v, j) ==
    CASE EffKind(m, v) = "unit" -> IsNull(j)
      [] EffKind(m, v) = "newtype" -> DocOK(m, P, v.fields[1].ty, j)
      [] EffKind(m, v) = "tuple" -> TupleOK(m, P, v.fields, FALSE, j)
      [] EffKind(m, v) = "struct" -> StructOK(m, P, T, v, v.fields, FALSE, T.a.deny, j)
(* ... merged with its tag (and, when flattened, with its siblings' members). *)
MergedOK(m, P, T, v, j, flat) ==
    CASE EffKind(m, v) = "unit" -> (~flat /\ T.a.deny) => Keys(j) = {}
      [] EffKind(m, v) = "newtype" -> (IF UnitLike(P, v.fields[1].ty) THEN TRUE ELSE IF flat \/ EnumTy(P, v.fields[1].ty) THEN FlatOK(m, P, v.fields[1].ty, j) ELSE DocOK(m, P, v.fields[1].ty, j))
      [] EffKind(m, v) = "struct" -> StructOK(m, P, T, v, v.fields, FALSE, T.a.deny /\ ~flat, j)
      [] OTHER -> FALSE

EnumOK(m, P, k, j, flat) ==
    LET T == P.types[k]
        act == ActiveVars(m, T)
        tagged == {i \in act : ~IsUntaggedV(T, T.variants[i])}
        N(i) == VariantName(m, T, T.variants[i])
        Untagged == \E i \in act \ tagged : IF flat THEN MergedOK(m, P, T, T.variants[i], j, TRUE) /\ T.variants[i].kind # "unit"
                                            ELSE ContentOK(m, P, T, T.variants[i], j)
        Tagged ==
          CASE T.a.tag = "ext" ->
                 IF flat THEN Cardinality(Keys(j) \cap {N(i) : i \in tagged}) = 1
                              /\ \E i \in tagged : N(i) \in Keys(j) /\ ContentOK(m, P, T, T.variants[i], j[2][N(i)])
                 ELSE \E i \in tagged :
                        IF EffKind(m, T.variants[i]) = "unit" THEN j = Str(N(i))
                        ELSE IsObj(j) /\ Keys(j) = {N(i)} /\ ContentOK(m, P, T, T.variants[i], j[2][N(i)])
            [] T.a.tag = "int" ->
                 IsObj(j) /\ \E i \in tagged : /\ GetOr(j, T.a.t, Null) = Str(N(i))
                                               /\ MergedOK(m, P, T, T.variants[i], Without(j, T.a.t), flat)
            [] T.a.tag = "adj" ->
                 IsObj(j) /\ \E i \in tagged : /\ GetOr(j, T.a.t, Null) = Str(N(i))
                                               /\ IF EffKind(m, T.variants[i]) = "unit" THEN ~Has(j, T.a.c)
                                                  ELSE Has(j, T.a.c) /\ ContentOK(m, P, T, T.variants[i], Get(j, T.a.c))
                                               /\ (T.a.deny /\ ~flat) => Keys(j) \subseteq {T.a.t, T.a.c}
            [] OTHER -> FALSE
    IN Tagged \/ Untagged
=============================================================================
