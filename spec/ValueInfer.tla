----------------------------- MODULE ValueInfer -----------------------------
(* Inferring a schema from a value of the serde data model.                 *)
(*   <<"bool",b>> <<"int",kind,num>> <<"flt",kind,num or Null>> <<"char",s>>*)
(*   <<"str",s>> <<"cstr",s>> <<"bytes",nats>> <<"none">> <<"some",v>>      *)
(*   <<"unit">> <<"ustruct",n>> <<"uvar",n,var>> <<"nt",n,v>>               *)
(*   <<"ntvar",n,var,v>> <<"seq",vs>> <<"tup",vs>> <<"tst",n,vs>>           *)
(*   <<"tvar",n,var,vs>> <<"map",mode,pairs>> <<"struct",n,pairs>>          *)
(*   <<"svar",n,var,pairs>>                                                 *)
(* A map's pairs are <<key value, value>>, a struct's <<name, value>>.      *)
(* mode: "entry" (members written one by one) or "all" (collect_map, as the *)
(* standard maps do, described by one schema for all values).               *)
(* ToJ is what serde_json writes; Infer is the inference as specified;      *)
(* Describes is what the property demands of any inferred schema.           *)
EXTENDS JsonSchema

RECURSIVE KeyStr(_)
KeyStr(k) == CASE k[1] \in {"str", "cstr", "char"} -> k[2]
               [] k[1] = "int" -> (IF k[3][2] THEN "-" ELSE "") \o k[3][3]
               [] k[1] = "bool" -> (IF k[2] THEN "true" ELSE "false")
               [] k[1] = "uvar" -> k[3]
               [] k[1] = "nt" -> KeyStr(k[3])
(* the members written: the last of several with the same name *)
PairName(p) == IF p[1] \in STRING THEN p[1] ELSE KeyStr(p[1])
Names(kind, ps) == {IF kind = "map" THEN KeyStr(ps[i][1]) ELSE ps[i][1] : i \in 1..Len(ps)}
NameAt(kind, p) == IF kind = "map" THEN KeyStr(p[1]) ELSE p[1]
LastOf(kind, ps, n) == CHOOSE i \in 1..Len(ps) : NameAt(kind, ps[i]) = n /\ \A j \in (i + 1)..Len(ps) : NameAt(kind, ps[j]) # n

RECURSIVE ToJ(_)
Members(kind, ps) == Obj([n \in Names(kind, ps) |-> ToJ(ps[LastOf(kind, ps, n)][2])])
ToJ(v) ==
    CASE v[1] = "bool" -> Bool(v[2])
      [] v[1] \in {"int", "flt"} -> v[3]
      [] v[1] \in {"char", "str", "cstr"} -> Str(v[2])
      [] v[1] = "bytes" -> Arr([i \in 1..Len(v[2]) |-> Nu(v[2][i])])
      [] v[1] \in {"none", "unit", "ustruct"} -> Null
      [] v[1] = "some" -> ToJ(v[2])
      [] v[1] = "uvar" -> Str(v[3])
      [] v[1] = "nt" -> ToJ(v[3])
      [] v[1] = "ntvar" -> Obj1(v[3], ToJ(v[4]))
      [] v[1] \in {"seq", "tup"} -> Arr([i \in 1..Len(v[2]) |-> ToJ(v[2][i])])
      [] v[1] = "tst" -> Arr([i \in 1..Len(v[3]) |-> ToJ(v[3][i])])
      [] v[1] = "tvar" -> Obj1(v[3], Arr([i \in 1..Len(v[4]) |-> ToJ(v[4][i])]))
      [] v[1] = "map" -> Members("map", v[3])
      [] v[1] = "struct" -> Members("struct", v[3])
      [] v[1] = "svar" -> Obj1(v[3], Members("struct", v[4]))

(* Values about whose JSON type the inference says nothing: an absent optional could be anything, and so can the
   other variants of an enum. *)
RECURSIVE AnyVal(_)
AnyVal(v) == \/ v[1] \in {"none", "unit", "uvar", "ntvar", "tvar", "svar"}
          \/ (v[1] = "flt" /\ IsNull(v[3]))
          \/ (v[1] = "some" /\ AnyVal(v[2])) \/ (v[1] = "nt" /\ AnyVal(v[3]))

----------------------------------------------------------------------------
(* The inference, schema by schema (2020-12, before transforms). *)
TypeObj(t) == Obj1("type", Str(t))
Optional(s) == IF IsBool(s) THEN s
               ELSE IF IsStr(Get(s, "type")) /\ Get(s, "type") # Str("null") THEN With(s, "type", Arr(<<Get(s, "type"), Str("null")>>)) ELSE s
RECURSIVE Infer(_)
DistinctSeq(ss) == SelectSeq([i \in 1..Len(ss) |-> <<i, ss[i]>>], LAMBDA x : \A j \in 1..(x[1] - 1) : ss[j] # x[2])
TupleOf(vs) == Obj(("type" :> Str("array")) @@ ("prefixItems" :> Arr([i \in 1..Len(vs) |-> Infer(vs[i])]))
                   @@ ("minItems" :> Nu(Len(vs))) @@ ("maxItems" :> Nu(Len(vs))))
ObjectOf(kind, ps) == Obj(("type" :> Str("object"))
                          @@ ("properties" :> Obj([n \in Names(kind, ps) |-> Infer(ps[LastOf(kind, ps, n)][2])])))
Infer(v) ==
    IF AnyVal(v) THEN True
    ELSE CASE v[1] = "bool" -> TypeObj("boolean")
      [] v[1] = "int" -> TypeObj("integer")
      [] v[1] = "flt" -> TypeObj("number")
      [] v[1] = "char" -> Obj(("type" :> Str("string")) @@ ("minLength" :> Nu(1)) @@ ("maxLength" :> Nu(1)))
      [] v[1] \in {"str", "cstr"} -> TypeObj("string")
      [] v[1] = "bytes" -> With(TypeObj("array"), "items", Obj(("type" :> Str("integer")) @@ ("minimum" :> Nu(0)) @@ ("maximum" :> Nu(255))))
      [] v[1] = "ustruct" -> TypeObj("null")
      [] v[1] = "some" -> Optional(Infer(v[2]))
      [] v[1] = "nt" -> Infer(v[3])
      [] v[1] = "seq" ->
           LET ss == [i \in 1..Len(v[2]) |-> Infer(v[2][i])]
               ds == DistinctSeq(ss)
           IN With(TypeObj("array"), "items",
                   IF Len(ss) = 0 \/ True \in SeqSet(ss) THEN True
                   ELSE IF Len(ds) = 1 THEN ds[1][2]
                   ELSE Obj1("anyOf", Arr([i \in 1..Len(ds) |-> ds[i][2]])))
      [] v[1] = "tup" -> TupleOf(v[2])
      [] v[1] = "tst" -> TupleOf(v[3])
      [] v[1] = "struct" -> ObjectOf("struct", v[3])
      [] v[1] = "map" ->
           IF v[2] = "entry" THEN ObjectOf("map", v[3])
           ELSE LET ss == {Infer(v[3][i][2]) : i \in 1..Len(v[3])} IN
                With(TypeObj("object"), "additionalProperties", IF Cardinality(ss) = 1 THEN CHOOSE x \in ss : TRUE ELSE True)

----------------------------------------------------------------------------
(* What the property asks of the schema of each part. *)
HasType(s, t, opt) == IsObj(s) /\ Has(s, "type") /\ t \in Types(Get(s, "type"))
                      /\ Types(Get(s, "type")) \subseteq ({t} \cup (IF opt THEN {"null"} ELSE {}))
RECURSIVE Desc(_, _, _)
Describes(s, v) == Desc(s, v, FALSE)
Bag(s, vs) ==      \* s describes the elements of a list
    IF s = True THEN vs = <<>> \/ \E i \in 1..Len(vs) : AnyVal(vs[i])
    ELSE LET alts == IF IsObj(s) /\ Has(s, "anyOf") THEN Elems(Get(s, "anyOf")) ELSE {s} IN
         /\ \A i \in 1..Len(vs) : \E a \in alts : Describes(a, vs[i])
         /\ \A a \in alts : \E i \in 1..Len(vs) : Describes(a, vs[i])
DTuple(s, vs, opt) == /\ HasType(s, "array", opt)
                      /\ (vs # <<>> => ArrKw(s, "prefixItems") /\ Len(Get(s, "prefixItems")[2]) = Len(vs)
                                       /\ \A i \in 1..Len(vs) : Describes(Get(s, "prefixItems")[2][i], vs[i]))
                      /\ GetOr(s, "minItems", Null) = Nu(Len(vs)) /\ GetOr(s, "maxItems", Null) = Nu(Len(vs))
DObject(s, kind, ps, opt) ==
    /\ HasType(s, "object", opt)
    /\ LET props == GetOr(s, "properties", EmptyObj) IN
       IsObj(props) /\ Keys(props) = Names(kind, ps)
       /\ \A n \in Names(kind, ps) : Describes(Get(props, n), ps[LastOf(kind, ps, n)][2])
Desc(s, v, opt) ==
    IF AnyVal(v) THEN IsSchemaVal(s)
    ELSE CASE v[1] = "bool" -> HasType(s, "boolean", opt)
      [] v[1] = "int" -> HasType(s, "integer", opt)
      [] v[1] = "flt" -> HasType(s, "number", opt)
      [] v[1] \in {"char", "str", "cstr"} -> HasType(s, "string", opt)
      [] v[1] = "bytes" -> HasType(s, "array", opt) /\ HasType(GetOr(s, "items", True), "integer", FALSE)
      [] v[1] = "ustruct" -> HasType(s, "null", FALSE)
      [] v[1] = "some" -> Desc(s, v[2], TRUE)
      [] v[1] = "nt" -> Desc(s, v[3], opt)
      [] v[1] = "seq" -> HasType(s, "array", opt) /\ Bag(GetOr(s, "items", True), v[2])
      [] v[1] = "tup" -> DTuple(s, v[2], opt)
      [] v[1] = "tst" -> DTuple(s, v[3], opt)
      [] v[1] = "struct" -> DObject(s, "struct", v[3], opt)
      [] v[1] = "map" ->
           IF v[2] = "entry" THEN DObject(s, "map", v[3], opt)
           ELSE LET vals == [i \in 1..Len(v[3]) |-> v[3][i][2]]
                    ap == GetOr(s, "additionalProperties", True)
                IN HasType(s, "object", opt)
                   /\ IF ap = True THEN \/ vals = <<>> \/ \E i \in 1..Len(vals) : AnyVal(vals[i])
                                        \/ \E i, j \in 1..Len(vals) : Infer(vals[i]) # Infer(vals[j])
                      ELSE \A i \in 1..Len(vals) : Describes(ap, vals[i])
(* The title of a root schema for a named struct. *)
RECURSIVE TitleOf(_)
TitleOf(v) == IF v[1] \in {"struct", "tst"} THEN v[2]
              ELSE IF v[1] = "nt" THEN (IF v[2] = "" THEN TitleOf(v[3]) ELSE v[2]) ELSE ""
=============================================================================
