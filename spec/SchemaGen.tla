----------------------------- MODULE SchemaGen -----------------------------
(* Random schema documents (drawn with RandomElement during simulation).    *)
EXTENDS Transforms, Randomization, SequencesExt
R(S) == RandomElement(S)
Pct(n) == R(1..100) <= n

DataVals == { Null, True, False, Nu(0), Nu(1), Dec(FALSE, "1", "5"), Str(""), Str("a"), Arr(<<>>), Arr(<<Nu(1), Null>>), EmptyObj,
              Obj(("const" :> Nu(1)) @@ ("$ref" :> Str("#/nowhere")) @@ ("format" :> Str("uuid"))),
              Obj(("items" :> False) @@ ("prefixItems" :> Arr(<<True>>)) @@ ("type" :> Str("null"))),
              Obj(("examples" :> Arr(<<Nu(1)>>)) @@ ("properties" :> Obj1("a", True)) @@ ("unevaluatedProperties" :> False)),
              Arr(<<True, Obj1("not", True)>>) }
SomeFormats == {"uuid", "date", "int32", "duration", "custom", "ipv4", "date-time", "uri", "regex", "double", ""}
TypeNames == {"null", "boolean", "string", "number", "integer", "array", "object"}
PropNames == {"a", "b", "c", "const", "items", "$ref", "type", "properties"}
RandList(F(_), n) == [i \in 1..n |-> F(i)]
RECURSIVE MergeAll(_, _)
MergeAll(ss, i) == IF i > Len(ss) THEN EmptyObj ELSE MergeObj(ss[i], MergeAll(ss, i + 1))
RandTypes(z) == IF Pct(60) THEN Str(R(TypeNames))
             ELSE IF Pct(15) THEN StrArr(<<"null">>)
             ELSE Arr(SetToSeq({Str(t) : t \in RandomSubset(R(2..3), TypeNames)}))

(* refs: the pointer strings that may be referenced *)
RECURSIVE RS(_, _, _), RFrag(_, _, _, _)
Kid(d, refs, st) == RS(d - 1, refs, st)
Props(d, refs, st) == Obj([p \in RandomSubset(R(1..2), PropNames) |-> Kid(d, refs, st)])
RFrag(k, d, refs, st) ==
    CASE k = 1 -> Obj1("type", RandTypes(d))
      [] k = 2 -> Obj1("const", R(DataVals))
      [] k = 3 -> Obj1("enum", Arr(<<R(DataVals), R(DataVals)>>))
      [] k = 4 -> Obj1("examples", Arr(RandList(LAMBDA i : R(DataVals), R(0..3))))
      [] k = 5 -> Obj1("format", Str(R(SomeFormats)))
      [] k = 6 -> Obj1(R({"title", "description", "$comment"}), Str(R({"T", "some text"})))
      [] k = 7 -> Obj1(R({"default", "x-ext", "deprecated", "example", "x-items"}), R(DataVals))
      [] k = 8 -> MergeObj(Obj1("minimum", Nu(R(0..1))), Obj1("maxLength", Nu(R(0..1))))
      [] k = 9 -> Obj1("required", StrArr(<<R(PropNames)>>))
      [] k = 10 -> Obj1("minItems", Nu(R(0..2)))
      [] k = 11 -> IF refs = {} THEN EmptyObj ELSE Obj1("$ref", Str(R(refs)))
      [] d = 0 -> EmptyObj
      [] k \in 12..14 -> Obj1("properties", Props(d, refs, st))
      [] k \in 15..16 -> Obj1("additionalProperties", Kid(d, refs, st))
      [] k = 17 -> Obj1("unevaluatedProperties", Kid(d, refs, st))
      [] k = 18 -> Obj1("items", Kid(d, refs, st))
      [] k = 19 -> Obj1("prefixItems", Arr(RandList(LAMBDA i : Kid(d, refs, st), R(1..2))))
      [] k = 20 -> Obj(("prefixItems" :> Arr(<<Kid(d, refs, st)>>)) @@ ("items" :> Kid(d, refs, st)))
      [] k = 21 -> Obj1("patternProperties", Obj1(R({"^a", "b$"}), Kid(d, refs, st)))
      [] k = 22 -> Obj1("propertyNames", Kid(d, refs, st))
      [] k = 23 -> Obj1("contains", Kid(d, refs, st))
      [] k = 24 -> Obj1("not", Kid(d, refs, st))
      [] k \in 25..27 -> Obj1(R({"allOf", "anyOf", "oneOf"}), Arr(RandList(LAMBDA i : Kid(d, refs, st), R(1..2))))
      [] k = 28 -> MergeObj(Obj1("if", Kid(d, refs, st)), Obj1(R({"then", "else"}), Kid(d, refs, st)))
      [] k = 29 -> Obj1("unevaluatedItems", Kid(d, refs, st))
      [] k = 30 -> Obj1("dependentSchemas", Obj1("a", Kid(d, refs, st)))
      [] k = 31 -> Obj1("contentSchema", Kid(d, refs, st))
      [] k = 32 -> Obj1(R({"$defs", "definitions"}), Obj1("n", Kid(d, refs, st)))
      [] k = 33 -> IF st = "raw" THEN Obj1("items", IF Pct(50) THEN Arr(<<Kid(d, refs, st), Nu(3), Kid(d, refs, st)>>) ELSE Str("data")) ELSE EmptyObj
      [] k = 34 -> IF st = "raw" THEN Obj1(R({"not", "allOf", "properties", "additionalItems", "prefixItems", "$defs"}), R(DataVals \cup {Kid(d, refs, st)})) ELSE EmptyObj
      [] k = 35 -> IF st = "raw" THEN Obj1("components", IF Pct(60) THEN Obj1("schemas", Obj1("x", Kid(d, refs, st))) ELSE R(DataVals)) ELSE EmptyObj
      [] k = 36 -> Obj1("$schema", Str(R({URI07, URI2019, URI2020, URIOAS, "http://unknown"})))
      [] k \in 37..39 -> Obj1("format", Str(R(SomeFormats)))
Kinds(st) == IF st = "formats" THEN 1..39 ELSE 1..35
RS(d, refs, st) ==
    IF Pct(12) THEN R({True, False})
    ELSE MergeAll([i \in 1..R(IF d = 0 THEN 1..2 ELSE 1..4) |->
                     IF d > 0 /\ Pct(45) THEN RFrag(R(12..35), d, refs, st) ELSE RFrag(R(Kinds(st)), d, refs, st)], 1)

(* Documents dense in meta-schema declarations and formats *)
RECURSIVE RFm(_)
FmWrap(d) ==
    LET k == R({"items", "allOf", "anyOf", "properties", "not", "additionalProperties", "prefixItems", "$defs", "patternProperties",
                "contains", "propertyNames", "if", "default", "x-ext", "enum", "oneOf", "itemsArr"}) IN
    CASE k \in {"allOf", "anyOf", "oneOf", "prefixItems", "enum"} -> Obj1(k, Arr(RandList(LAMBDA i : RFm(d - 1), R(1..3))))
      [] k = "itemsArr" -> Obj1("items", Arr(RandList(LAMBDA i : RFm(d - 1), R(1..3))))
      [] k \in {"properties", "$defs", "patternProperties"} -> Obj1(k, Obj([p \in RandomSubset(R(1..3), {"a", "b", "format", "$schema"}) |-> RFm(d - 1)]))
      [] OTHER -> Obj1(k, RFm(d - 1))
RFm(d) ==
    MergeAll(<<IF Pct(30) THEN Obj1("$schema", Str(R({URI07, URI2019, URI2020, URI07, URI2020, URIOAS, "http://unknown", "http://json-schema.org/draft-07/schema"}))) ELSE EmptyObj,
               IF Pct(75) THEN Obj1("format", Str(R(SomeFormats))) ELSE EmptyObj,
               IF d > 0 THEN FmWrap(d) ELSE EmptyObj, IF d > 0 /\ Pct(50) THEN FmWrap(d) ELSE EmptyObj>>, 1)
=============================================================================
