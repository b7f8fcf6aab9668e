----------------------------- MODULE Transforms -----------------------------
(* The built-in transforms, what each must preserve, and what form each     *)
(* establishes.  A transform is a record:                                   *)
(*   [k |-> "bool", skip]  ReplaceBoolSchemas     [k |-> "ref"]  RemoveRefSiblings   *)
(*   [k |-> "example"]     SetSingleExample       [k |-> "const"] ReplaceConstValue  *)
(*   [k |-> "prefix"]      ReplacePrefixItems     [k |-> "null", rm, addc] AddNullable *)
(*   [k |-> "uneval"]      ReplaceUnevaluatedProperties                     *)
(*   [k |-> "formats", infer, allowed]  RestrictFormats                     *)
(*   [k |-> "visit"]  RecursiveTransform of a marker   [k |-> "visit1"] transform_subschemas of a marker *)
EXTENDS JsonSchema, Traverse, FiniteSetsExt

EnsureObj(s) == IF IsObj(s) THEN s ELSE IF s[2] THEN EmptyObj ELSE Obj1("not", EmptyObj)

RECURSIVE TBool(_, _)
TBool(skip, s) ==
    IF ~IsObj(s) THEN EnsureObj(s)
    ELSE MapSubschemasExcept(LAMBDA x : TBool(skip, x), s,
            IF skip /\ Has(s, "additionalProperties") /\ IsBool(Get(s, "additionalProperties"))
            THEN {"additionalProperties"} ELSE {})

RECURSIVE TRef(_)
TRef(s) ==
    IF ~IsObj(s) THEN s
    ELSE LET m == MapSubschemas(TRef, s) IN
         IF ~Has(m, "$ref") \/ Cardinality(Keys(m)) <= 1 THEN m
         ELSE LET rest == Without(m, "$ref")
                  all == IF Has(rest, "allOf") THEN Get(rest, "allOf")[2] ELSE <<>>
              IN With(rest, "allOf", Arr(Append(all, Obj1("$ref", Get(m, "$ref")))))

RECURSIVE TExample(_)
TExample(s) ==
    IF ~IsObj(s) THEN s
    ELSE LET m == MapSubschemas(TExample, s) IN
         IF ~Has(m, "examples") THEN m
         ELSE LET e == Get(m, "examples")  r == Without(m, "examples") IN
              IF IsArr(e) /\ Len(e[2]) > 0 THEN With(r, "example", e[2][1]) ELSE r

RECURSIVE TConst(_)
TConst(s) ==
    IF ~IsObj(s) THEN s
    ELSE LET m == MapSubschemas(TConst, s) IN
         IF ~Has(m, "const") THEN m
         ELSE With(Without(m, "const"), "enum", Arr(<<Get(m, "const")>>))

RECURSIVE TPrefix(_)
TPrefix(s) ==
    IF ~IsObj(s) THEN s
    ELSE LET m == MapSubschemas(TPrefix, s) IN
         IF ~Has(m, "prefixItems") THEN m
         ELSE LET r == With(Without(m, "prefixItems"), "items", Get(m, "prefixItems")) IN
              WithIf(r, Has(m, "items"), "additionalItems", GetOr(m, "items", True))

HasNullType(s) == Has(s, "type") /\ "null" \in Types(Get(s, "type"))
RECURSIVE TNull(_, _, _)
NullSelf(rm, addc, s) ==
    IF ~HasNullType(s) THEN s
    ELSE LET ty == Get(s, "type")
             n == With(s, "nullable", True)
             onlyNull == Types(ty) = {"null"} /\ (IsArr(ty) => \A x \in Elems(ty) : x = Str("null"))
             others == SelectSeq(ty[2], LAMBDA x : x # Str("null"))
         IN IF onlyNull
            THEN IF addc THEN (IF rm THEN Without(With(n, "const", Null), "type") ELSE With(n, "const", Null))
                 ELSE IF rm THEN With(n, "type", Arr(<<>>)) ELSE n
            ELSE IF rm THEN With(n, "type", IF Len(others) = 1 THEN others[1] ELSE Arr(others))
            ELSE n
TNull(rm, addc, s) ==
    IF ~IsObj(s) THEN s ELSE MapSubschemas(LAMBDA x : TNull(rm, addc, x), NullSelf(rm, addc, s))

(* property names declared by s and by the subschemas applied to the same object *)
RECURSIVE Gather(_)
Gather(s) ==
    IF ~IsObj(s) THEN {}
    ELSE (IF ObjKw(s, "properties") THEN Keys(Get(s, "properties")) ELSE {})
         \cup UNION {IF Has(s, k) THEN Gather(Get(s, k)) ELSE {} : k \in {"if", "then", "else"}}
         \cup UNION {IF ArrKw(s, k) THEN UNION {Gather(x) : x \in Elems(Get(s, k))} ELSE {} : k \in {"allOf", "anyOf", "oneOf"}}
RECURSIVE TUneval(_)
TUneval(s) ==
    IF ~IsObj(s) THEN s
    ELSE LET m == MapSubschemas(TUneval, s) IN
         IF ~Has(m, "unevaluatedProperties") THEN m
         ELSE LET r == Without(m, "unevaluatedProperties") IN
              IF Has(r, "additionalProperties") THEN r
              ELSE LET a == With(r, "additionalProperties", Get(m, "unevaluatedProperties"))
                       names == Gather(a)
                       old == IF Has(a, "properties") THEN Get(a, "properties") ELSE EmptyObj
                   IN IF names = {} \/ ~IsObj(old) THEN a
                      ELSE With(a, "properties", Obj([n \in names \cup Keys(old) |-> IF Has(old, n) THEN Get(old, n) ELSE True]))

URI07 == "http://json-schema.org/draft-07/schema#"
URI2019 == "https://json-schema.org/draft/2019-09/schema"
URI2020 == "https://json-schema.org/draft/2020-12/schema"
URIOAS == "https://spec.openapis.org/oas/3.0/schema/2024-10-18#/definitions/Schema"
Formats07 == {"date-time", "date", "time", "email", "idn-email", "hostname", "idn-hostname", "ipv4", "ipv6", "uri",
              "uri-reference", "iri", "iri-reference", "uri-template", "json-pointer", "relative-json-pointer", "regex"}
FormatsDefined(uri) == CASE uri = URI07 -> Formats07
                    [] uri \in {URI2019, URI2020} -> Formats07 \cup {"duration", "uuid"}
KnownMeta == {URI07, URI2019, URI2020}
RECURSIVE TFormats(_, _, _, _)
TFormats(infer, allowed, inforce, s) ==
    IF ~IsObj(s) THEN s
    ELSE LET meta == IF Has(s, "$schema") /\ IsStr(Get(s, "$schema")) THEN Get(s, "$schema")[2] ELSE ""
             declares == infer /\ Has(s, "$schema")
         IN IF declares /\ meta \notin KnownMeta THEN s
            ELSE LET now == IF declares THEN FormatsDefined(meta) ELSE inforce
                     drop == Has(s, "format") /\ IsStr(Get(s, "format")) /\ Get(s, "format")[2] \notin (allowed \cup now)
                 IN MapSubschemas(LAMBDA x : TFormats(infer, allowed, now, x), IF drop THEN Without(s, "format") ELSE s)

(* every visited schema becomes an object carrying the mark *)
MarkKey == "x-visit"
Marked(s) == With(EnsureObj(s), MarkKey, Null)
RECURSIVE TVisit(_)
TVisit(s) == MapSubschemas(TVisit, Marked(s))
TVisit1(s) == MapSubschemas(Marked, s)

SetOf(x) == SeqSet(x)
ApplyT(t, s) ==
    CASE t.k = "bool" -> TBool(t.skip, s)
      [] t.k = "ref" -> TRef(s)
      [] t.k = "example" -> TExample(s)
      [] t.k = "const" -> TConst(s)
      [] t.k = "prefix" -> TPrefix(s)
      [] t.k = "null" -> TNull(t.rm, t.addc, s)
      [] t.k = "uneval" -> TUneval(s)
      [] t.k = "formats" -> TFormats(t.infer, SetOf(t.allowed), {}, s)
      [] t.k = "visit" -> TVisit(s)
      [] t.k = "visit1" -> TVisit1(s)
RECURSIVE ApplyAll(_, _, _)
ApplyAll(ts, s, i) == IF i > Len(ts) THEN s ELSE ApplyAll(ts, ApplyT(ts[i], s), i + 1)

----------------------------------------------------------------------------
(* Forms: what a translated document no longer contains, anywhere. *)
RECURSIVE Everywhere(_, _)
At2(s, p) == IF Len(p) = 1 THEN Get(s, p[1]) ELSE IF Len(p) = 2 THEN Get(s, p[1])[2][p[2]] ELSE Components(s)[2][p[3]]
Children(s) ==
    IF ~IsObj(s) THEN {}
    ELSE {Get(s, k) : k \in {k \in Keys(s) : k \in SchemaKw \cup {"items"} /\ IsSchemaVal(Get(s, k))}}
         \cup UNION {{x \in Elems(Get(s, k)) : IsSchemaVal(x)} : k \in {k \in Keys(s) : k \in ListKw \cup {"items"} /\ IsArr(Get(s, k))}}
         \cup UNION {{Get(s, k)[2][m] : m \in {m \in Keys(Get(s, k)) : IsSchemaVal(Get(s, k)[2][m])}}
                     : k \in {k \in Keys(s) : k \in MapKw /\ IsObj(Get(s, k))}}
         \cup (IF HasComponents(s) THEN {x \in {Components(s)[2][m] : m \in Keys(Components(s))} : IsSchemaVal(x)} ELSE {})
Everywhere(P(_), s) == P(s) /\ \A x \in Children(s) : Everywhere(P, x)
RECURSIVE Somewhere(_, _)
Somewhere(P(_), s) == P(s) \/ \E x \in Children(s) : Somewhere(P, x)
RECURSIVE CountSchemas(_)

NoBoolHere(skip, s) ==      \* no boolean subschema directly below s (s itself being an object)
    IsObj(s) /\ \A x \in Children(IF skip /\ Has(s, "additionalProperties") /\ IsBool(Get(s, "additionalProperties"))
                                  THEN Without(s, "additionalProperties") ELSE s) : IsObj(x)
HasForm(f, s) ==
    CASE f = "bool" -> IsObj(s) /\ Everywhere(LAMBDA x : IsBool(x) \/ NoBoolHere(TRUE, x), s)
      [] f = "ref" -> Everywhere(LAMBDA x : Has(x, "$ref") => Cardinality(Keys(x)) = 1, s)
      [] f = "example" -> Everywhere(LAMBDA x : ~Has(x, "examples"), s)
      [] f = "const" -> Everywhere(LAMBDA x : ~Has(x, "const"), s)
      [] f = "prefix" -> Everywhere(LAMBDA x : ~Has(x, "prefixItems"), s)
      [] f = "null" -> Everywhere(LAMBDA x : ~HasNullType(x), s)
      [] f = "uneval" -> Everywhere(LAMBDA x : ~Has(x, "unevaluatedProperties"), s)
FormsOf == ("07" :> {"uneval", "ref", "prefix"}) @@ ("2019" :> {"prefix"}) @@ ("2020" :> {})
           @@ ("oas" :> {"uneval", "bool", "null", "ref", "example", "const", "prefix"})
ReadingOf == ("07" :> D07) @@ ("2019" :> D2019) @@ ("2020" :> D2020) @@ ("oas" :> DOAS)
MetaOf == ("07" :> URI07) @@ ("2019" :> URI2019) @@ ("2020" :> URI2020) @@ ("oas" :> URIOAS)
PathOf == ("07" :> "/definitions") @@ ("2019" :> "/$defs") @@ ("2020" :> "/$defs") @@ ("oas" :> "/components/schemas")
NullT == [k |-> "null", rm |-> TRUE, addc |-> TRUE]
PipelineOf == ("07" :> <<[k |-> "uneval"], [k |-> "ref"], [k |-> "prefix"]>>)
              @@ ("2019" :> <<[k |-> "prefix"]>>) @@ ("2020" :> <<>>)
              @@ ("oas" :> <<[k |-> "uneval"], [k |-> "bool", skip |-> TRUE], NullT, [k |-> "ref"], [k |-> "example"],
                             [k |-> "const"], [k |-> "prefix"]>>)

(* How to read a document once transform t has been applied to one read as rd. *)
NextReading(rd, t) ==
    CASE t.k = "prefix" -> [rd EXCEPT !.tuple = "items"]
      [] t.k = "ref" -> [rd EXCEPT !.refSib = FALSE]
      [] t.k = "null" -> [rd EXCEPT !.nullable = TRUE]
      [] t.k = "uneval" -> [rd EXCEPT !.uneval = FALSE]
      [] t.k = "const" -> [rd EXCEPT !.const = FALSE]
      [] OTHER -> rd
(* forms established / undone by t *)
NextForms(fs, t, s) ==
    LET new == IF t.k = "null" THEN (IF t.rm THEN {"null"} ELSE {})
               ELSE IF t.k \in {"bool", "ref", "example", "const", "prefix", "uneval"} THEN {t.k} ELSE {}
        undone == (IF t.k = "uneval" THEN {"bool"} ELSE {}) \cup (IF t.k = "null" /\ t.addc THEN {"const"} ELSE {})
    IN (fs \ undone) \cup new

(* Where replacing unevaluatedProperties is only an approximation: names     *)
(* evaluated in a subschema count in every branch (so more is accepted), and *)
(* names evaluated through a reference or by a nested pattern or catch-all   *)
(* are not seen (so less is accepted).                                       *)
RECURSIVE Hidden(_, _)
Hidden(s, top) ==
    IsObj(s) /\
      (\/ Has(s, "$ref")
       \/ ~top /\ (Has(s, "patternProperties") \/ Has(s, "additionalProperties") \/ Has(s, "unevaluatedProperties"))
       \/ Has(s, "dependentSchemas")
       \/ \E k \in {"if", "then", "else"} : Has(s, k) /\ Hidden(Get(s, k), FALSE)
       \/ \E k \in {"allOf", "anyOf", "oneOf"} : ArrKw(s, k) /\ \E x \in Elems(Get(s, k)) : Hidden(x, FALSE))
LossyUneval(s) == Somewhere(LAMBDA x : Has(x, "unevaluatedProperties") /\ ~Has(x, "additionalProperties") /\ Hidden(x, TRUE), s)
HasUneval(s) == Somewhere(LAMBDA x : Has(x, "unevaluatedProperties"), s)
(* Narrowing one position can widen acceptance above it (not, oneOf, if). *)
Monotone(s) == Everywhere(LAMBDA x : ~Has(x, "not") /\ ~Has(x, "oneOf") /\ ~Has(x, "if") /\ ~Has(x, "contains")
                                     /\ ~Has(x, "unevaluatedItems"), s)
(* const and enum (or type null and const) that contradict one another are  *)
(* outside the domain: the transforms let the later one win.                *)
Consistent(x) ==
    /\ (Has(x, "const") /\ ArrKw(x, "enum")) => Get(x, "enum") = Arr(<<Get(x, "const")>>)
    /\ (Has(x, "const") /\ Has(x, "type") /\ Types(Get(x, "type")) = {"null"}) => Get(x, "const") = Null
    /\ (ArrKw(x, "enum") /\ Has(x, "type") /\ Types(Get(x, "type")) = {"null"}) => Null \in Elems(Get(x, "enum"))
    /\ (Has(x, "allOf") => ArrKw(x, "allOf")) /\ (Has(x, "prefixItems") => ArrKw(x, "prefixItems"))
    /\ (Has(x, "items") => SchKw(x, "items")) /\ ~Has(x, "additionalItems") /\ ~Has(x, "nullable")
    /\ (Has(x, "examples") => ArrKw(x, "examples"))
InDomain(s) == Everywhere(LAMBDA x : IsBool(x) \/ Consistent(x), s)

(* a: reading of the original document, b: of the transformed one *)
LosesInstance(a, s, b, s2, insts) == \E v \in insts : Accepts(a, s, v) /\ ~Accepts(b, s2, v)
GainsInstance(a, s, b, s2, insts) == \E v \in insts : ~Accepts(a, s, v) /\ Accepts(b, s2, v)
MeaningKept(a, s, b, s2, approx, insts) ==
    IF approx THEN (Monotone(s) => ~LosesInstance(a, s, b, s2, insts))
    ELSE \A v \in insts : Accepts(a, s, v) = Accepts(b, s2, v)

(* Keywords a transform is about; everything else must be carried over. *)
About(t) ==
    CASE t.k = "ref" -> {"$ref", "allOf"} [] t.k = "example" -> {"example", "examples"} [] t.k = "const" -> {"const", "enum"}
      [] t.k = "prefix" -> {"prefixItems", "items", "additionalItems"}
      [] t.k = "null" -> {"nullable", "type"} \cup (IF t.addc THEN {"const"} ELSE {})
      [] t.k = "uneval" -> {"unevaluatedProperties", "additionalProperties", "properties"}
      [] t.k = "formats" -> {"format"} [] t.k \in {"visit", "visit1"} -> {MarkKey}
      [] OTHER -> {}
RECURSIVE Framed(_, _, _)
FramedList(t, a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : IF IsSchemaVal(a[i]) THEN Framed(t, a[i], b[i]) ELSE a[i] = b[i]
Framed(t, s, s2) ==
    IF IsBool(s) THEN s2 = s \/ (t.k \in {"bool", "visit", "visit1"} /\ IsObj(s2))
    ELSE /\ IsObj(s2)
         /\ \A k \in (Keys(s) \cup Keys(s2)) \ About(t) :
              /\ Has(s, k) /\ Has(s2, k)
              /\ LET v == Get(s, k)  w == Get(s2, k) IN
                 IF k \in SchemaKw \cup {"items"} /\ IsSchemaVal(v) THEN Framed(t, v, w)
                 ELSE IF k \in ListKw \cup {"items"} /\ IsArr(v) THEN IsArr(w) /\ FramedList(t, v[2], w[2])
                 ELSE IF k \in MapKw /\ IsObj(v)
                      THEN IsObj(w) /\ Keys(v) = Keys(w)
                           /\ \A m \in Keys(v) : IF IsSchemaVal(v[2][m]) THEN Framed(t, v[2][m], w[2][m]) ELSE v[2][m] = w[2][m]
                 ELSE k = "components" \/ v = w

CountSchemas(s) == 1 + FoldSet(LAMBDA p, n : n + CountSchemas(At2(s, p)), 0, SubPaths(s))
=============================================================================
