----------------------------- MODULE JsonSchema -----------------------------
(* What it means for an instance to be accepted by a schema.  A dialect is  *)
(* a record of the features in which the supported dialects differ:         *)
(*   tuple    "prefix" prefixItems/items, "items" items array/additionalItems*)
(*   refSib   members next to $ref count                                    *)
(*   nullable "nullable" extends "type"     const    "const" counts         *)
(*   uneval   unevaluatedProperties counts                                  *)
(* Keywords that a dialect lacks and that the built-in settings do not      *)
(* promise to translate (unevaluatedItems, dependentSchemas, OpenAPI and    *)
(* patternProperties, ...) still count as in 2020-12.                       *)
(* Formats are annotations.  Patterns are regular expressions (see Regex).  *)
EXTENDS JsonVal, Uri, Regex

D2020 == [tuple |-> "prefix", refSib |-> TRUE, nullable |-> FALSE, const |-> TRUE, uneval |-> TRUE]
D2019 == [D2020 EXCEPT !.tuple = "items"]
D07 == [D2019 EXCEPT !.refSib = FALSE, !.uneval = FALSE]
DOAS == [D07 EXCEPT !.nullable = TRUE, !.const = FALSE]

----------------------------------------------------------------------------
(* Regular expressions used by schemars and by the generated cases. *)
IntStr(s) == AllDigits(s) \/ (StartsWith(s, "-") /\ AllDigits(DropN(s, 1)))
RECURSIVE RunOfDigits(_, _)
RunOfDigits(s, i) == IF i <= Len(s) /\ Ch(s, i) \in DigitChars THEN RunOfDigits(s, i + 1) ELSE i
DecimalStr(s) ==     \* ^-?\d+(\.\d+)?$
    LET b == IF StartsWith(s, "-") THEN 2 ELSE 1
        e == RunOfDigits(s, b)
    IN e > b /\ (e = Len(s) + 1 \/ (Ch(s, e) = "." /\ LET f == RunOfDigits(s, e + 1) IN f > e + 1 /\ f = Len(s) + 1))
DecimalExpStr(s) ==  \* ^-?\d+(\.\d+)?([eE]\d+)?$
    LET b == IF StartsWith(s, "-") THEN 2 ELSE 1
        e == RunOfDigits(s, b)
        e2 == IF e <= Len(s) /\ Ch(s, e) = "." /\ RunOfDigits(s, e + 1) > e + 1 THEN RunOfDigits(s, e + 1) ELSE e
    IN e > b /\ (e2 = Len(s) + 1
                 \/ (Ch(s, e2) \in {"e", "E"} /\ LET f == RunOfDigits(s, e2 + 1) IN f > e2 + 1 /\ f = Len(s) + 1))
Contains(s, sub) == \E i \in 1..(Len(s) + 1) : i + Len(sub) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(sub) - 1) = sub

AllIn(s, cs) == Len(s) > 0 /\ \A i \in 1..Len(s) : Ch(s, i) \in cs
SemverPat == "^(0|[1-9]\\d*)\\.(0|[1-9]\\d*)\\.(0|[1-9]\\d*)(?:-((?:0|[1-9]\\d*|\\d*[a-zA-Z-][0-9a-zA-Z-]*)(?:\\.(?:0|[1-9]\\d*|\\d*[a-zA-Z-][0-9a-zA-Z-]*))*))?(?:\\+([0-9a-zA-Z-]+(?:\\.[0-9a-zA-Z-]+)*))?$"
SemNum(s) == s = "0" \/ (AllDigits(s) /\ Ch(s, 1) # "0")
IdentChars == LowerChars \cup UpperChars \cup DigitChars \cup {"-"}
SemIdent(s) == AllIn(s, IdentChars)
SemPreIdent(s) == SemIdent(s) /\ (AllDigits(s) => SemNum(s))
FirstIdx(s, c) == IF HasChar(s, c) THEN CHOOSE i \in 1..Len(s) : Ch(s, i) = c /\ \A j \in 1..(i - 1) : Ch(s, j) # c ELSE 0
SemverStr(s) ==
    LET p == FirstIdx(s, "+")
        body == IF p = 0 THEN s ELSE SubSeq(s, 1, p - 1)
        build == IF p = 0 THEN <<>> ELSE Split(DropN(s, p), ".")
        h == FirstIdx(body, "-")
        core == Split(IF h = 0 THEN body ELSE SubSeq(body, 1, h - 1), ".")
        pre == IF h = 0 THEN <<>> ELSE Split(DropN(body, h), ".")
    IN Len(core) = 3 /\ (\A i \in 1..3 : SemNum(core[i]))
       /\ (\A i \in 1..Len(pre) : SemPreIdent(pre[i])) /\ (\A i \in 1..Len(build) : SemIdent(build[i]))

MetaChars == {"\\", ".", "+", "*", "?", "(", ")", "|", "[", "]", "{", "}", "^", "$"}
PatternKnown(p) == Wellformed(p)
(* The patterns schemars is known to write, directly (RegexMC shows that these *)
(* agree with the expressions); any other by matching the expression.          *)
Matches(p, s) ==
    CASE p = "^\\d+$" -> AllDigits(s)
      [] p = "^-?\\d+$" -> IntStr(s)
      [] p = SemverPat -> SemverStr(s)
      [] p = "^x" -> StartsWith(s, "x")
      [] p = "^a" -> StartsWith(s, "a")
      [] p = "b$" -> EndsWith(s, "b")
      [] p = "^[A-Z]" -> Len(s) > 0 /\ Ch(s, 1) \in UpperChars
      [] p = "^[a-z]+$" -> AllIn(s, LowerChars)
      [] OTHER -> IF \E i \in 1..Len(p) : Ch(p, i) \in MetaChars THEN MatchesRegex(p, s) ELSE Contains(s, p)

----------------------------------------------------------------------------
TypeOk(t, v) ==
    CASE t = "null" -> IsNull(v)
      [] t = "boolean" -> IsBool(v)
      [] t = "string" -> IsStr(v)
      [] t = "number" -> IsNum(v)
      [] t = "integer" -> IsInteger(v)
      [] t = "array" -> IsArr(v)
      [] t = "object" -> IsObj(v)
      [] OTHER -> FALSE
Types(s) == IF IsStr(s) THEN {s[2]} ELSE {x[2] : x \in {y \in Elems(s) : IsStr(y)}}

(* Members of schema object s that hold a number / schema / list, with guards. *)
NumKw(s, k) == Has(s, k) /\ IsNum(Get(s, k))
ArrKw(s, k) == Has(s, k) /\ IsArr(Get(s, k))
ObjKw(s, k) == Has(s, k) /\ IsObj(Get(s, k))
SchKw(s, k) == Has(s, k) /\ IsSchemaVal(Get(s, k))

RECURSIVE Valid(_, _, _, _, _)
RECURSIVE EvalProps(_, _, _, _, _)
RECURSIVE EvalItems(_, _, _, _, _)

IgnoreSiblings(d, s) == ~d.refSib /\ Has(s, "$ref")

PatKeys(s, v) ==
    IF ObjKw(s, "patternProperties")
    THEN {k \in Keys(v) : \E p \in Keys(Get(s, "patternProperties")) : Matches(p, k)} ELSE {}
PropKeys(s, v) == IF ObjKw(s, "properties") THEN Keys(v) \cap Keys(Get(s, "properties")) ELSE {}

(* Number of leading array positions with their own schema, and that list. *)
Positional(d, s) ==
    IF d.tuple = "prefix" /\ ArrKw(s, "prefixItems") THEN Get(s, "prefixItems")[2]
    ELSE IF d.tuple = "items" /\ ArrKw(s, "items") THEN Get(s, "items")[2]
    ELSE <<>>
RestSchema(d, s) ==
    IF d.tuple = "items" /\ ArrKw(s, "items")
    THEN GetOr(s, "additionalItems", True)
    ELSE IF SchKw(s, "items") THEN Get(s, "items") ELSE True

ValidCore(d, root, s, v, fuel) ==
    /\ Has(s, "type") =>
         LET nullable == d.nullable /\ Has(s, "nullable") /\ Get(s, "nullable") = True
         IN (\E t \in Types(Get(s, "type")) : TypeOk(t, v)) \/ (nullable /\ IsNull(v))
    /\ Has(s, "enum") => \E i \in 1..Len(Get(s, "enum")[2]) : Get(s, "enum")[2][i] = v
    /\ (d.const /\ Has(s, "const")) => Get(s, "const") = v
    /\ IsNum(v) =>
        /\ (NumKw(s, "minimum") => NumLe(Get(s, "minimum"), v))
        /\ (NumKw(s, "maximum") => NumLe(v, Get(s, "maximum")))
        /\ NumKw(s, "exclusiveMinimum") => NumLt(Get(s, "exclusiveMinimum"), v)
        /\ NumKw(s, "exclusiveMaximum") => NumLt(v, Get(s, "exclusiveMaximum"))
    /\ IsStr(v) =>
        /\ NumKw(s, "minLength") => NumLe(Get(s, "minLength"), Nu(Len(v[2])))
        /\ NumKw(s, "maxLength") => NumLe(Nu(Len(v[2])), Get(s, "maxLength"))
        /\ (Has(s, "pattern") /\ IsStr(Get(s, "pattern"))) => Matches(Get(s, "pattern")[2], v[2])
    /\ IsArr(v) =>
        /\ NumKw(s, "minItems") => NumLe(Get(s, "minItems"), Nu(Len(v[2])))
        /\ NumKw(s, "maxItems") => NumLe(Nu(Len(v[2])), Get(s, "maxItems"))
        /\ (Has(s, "uniqueItems") /\ Get(s, "uniqueItems") = True) => Cardinality(SeqSet(v[2])) = Len(v[2])
        /\ LET pos == Positional(d, s)  rest == RestSchema(d, s) IN
           \A i \in 1..Len(v[2]) :
              IF i <= Len(pos) THEN Valid(d, root, pos[i], v[2][i], fuel - 1)
              ELSE Valid(d, root, rest, v[2][i], fuel - 1)
        /\ SchKw(s, "contains") =>
             LET n == Cardinality({i \in 1..Len(v[2]) : Valid(d, root, Get(s, "contains"), v[2][i], fuel - 1)})
                 min == IF NumKw(s, "minContains") THEN Get(s, "minContains") ELSE Nu(1)
             IN NumLe(min, Nu(n)) /\ (NumKw(s, "maxContains") => NumLe(Nu(n), Get(s, "maxContains")))
    /\ IsObj(v) =>
        /\ NumKw(s, "minProperties") => NumLe(Get(s, "minProperties"), Nu(Cardinality(Keys(v))))
        /\ NumKw(s, "maxProperties") => NumLe(Nu(Cardinality(Keys(v))), Get(s, "maxProperties"))
        /\ ArrKw(s, "required") => \A x \in Elems(Get(s, "required")) : x[2] \in Keys(v)
        /\ \A k \in PropKeys(s, v) : Valid(d, root, Get(s, "properties")[2][k], v[2][k], fuel - 1)
        /\ ObjKw(s, "patternProperties") =>
             \A p \in Keys(Get(s, "patternProperties")) : \A k \in Keys(v) :
                 Matches(p, k) => Valid(d, root, Get(s, "patternProperties")[2][p], v[2][k], fuel - 1)
        /\ SchKw(s, "additionalProperties") =>
             \A k \in Keys(v) \ (PropKeys(s, v) \cup PatKeys(s, v)) :
                 Valid(d, root, Get(s, "additionalProperties"), v[2][k], fuel - 1)
        /\ SchKw(s, "propertyNames") =>
             \A k \in Keys(v) : Valid(d, root, Get(s, "propertyNames"), Str(k), fuel - 1)
        /\ ObjKw(s, "dependentSchemas") =>
             \A k \in Keys(v) \cap Keys(Get(s, "dependentSchemas")) :
                 Valid(d, root, Get(s, "dependentSchemas")[2][k], v, fuel - 1)
    /\ (Has(s, "$ref")) =>
         LET r == ResolveRef(root, Get(s, "$ref")[2]) IN
         r[1] /\ IsSchemaVal(r[2]) /\ Valid(d, root, r[2], v, fuel - 1)
    /\ ArrKw(s, "allOf") => \A i \in 1..Len(Get(s, "allOf")[2]) : Valid(d, root, Get(s, "allOf")[2][i], v, fuel - 1)
    /\ ArrKw(s, "anyOf") => \E i \in 1..Len(Get(s, "anyOf")[2]) : Valid(d, root, Get(s, "anyOf")[2][i], v, fuel - 1)
    /\ ArrKw(s, "oneOf") =>
         Cardinality({i \in 1..Len(Get(s, "oneOf")[2]) : Valid(d, root, Get(s, "oneOf")[2][i], v, fuel - 1)}) = 1
    /\ SchKw(s, "not") => ~Valid(d, root, Get(s, "not"), v, fuel - 1)
    /\ (SchKw(s, "if")) =>
         IF Valid(d, root, Get(s, "if"), v, fuel - 1)
         THEN (SchKw(s, "then") => Valid(d, root, Get(s, "then"), v, fuel - 1))
         ELSE (SchKw(s, "else") => Valid(d, root, Get(s, "else"), v, fuel - 1))
    /\ (IsObj(v) /\ SchKw(s, "unevaluatedProperties") /\ d.uneval) =>
         \A k \in Keys(v) \ EvalProps(d, root, Without(s, "unevaluatedProperties"), v, fuel - 1) :
             Valid(d, root, Get(s, "unevaluatedProperties"), v[2][k], fuel - 1)
    /\ (IsArr(v) /\ SchKw(s, "unevaluatedItems")) =>
         \A i \in (1..Len(v[2])) \ EvalItems(d, root, Without(s, "unevaluatedItems"), v, fuel - 1) :
             Valid(d, root, Get(s, "unevaluatedItems"), v[2][i], fuel - 1)

Valid(d, root, s, v, fuel) ==
    IF fuel = 0 THEN Assert(FALSE, "validator: out of fuel (unguarded recursion in schema)")
    ELSE IF s[1] = "b" THEN s[2]
    ELSE IF s[1] # "o" THEN FALSE
    ELSE IF IgnoreSiblings(d, s) THEN
         LET r == ResolveRef(root, Get(s, "$ref")[2]) IN
         r[1] /\ IsSchemaVal(r[2]) /\ Valid(d, root, r[2], v, fuel - 1)
    ELSE ValidCore(d, root, s, v, fuel)

SubOk(d, root, s, k, v, fuel) == SchKw(s, k) /\ Valid(d, root, Get(s, k), v, fuel)
InPlace(d, root, s, v, fuel, Eval(_)) ==   \* annotations of subschemas applied to the same instance
    UNION { IF ArrKw(s, k) THEN UNION {IF Valid(d, root, x, v, fuel - 1) THEN Eval(x) ELSE {} : x \in Elems(Get(s, k))} ELSE {}
            : k \in {"allOf", "anyOf", "oneOf"} }
    \cup (IF Has(s, "$ref") THEN LET r == ResolveRef(root, Get(s, "$ref")[2]) IN
             IF r[1] /\ IsSchemaVal(r[2]) /\ Valid(d, root, r[2], v, fuel - 1) THEN Eval(r[2]) ELSE {} ELSE {})
    \cup (IF SchKw(s, "if") THEN
            IF Valid(d, root, Get(s, "if"), v, fuel - 1)
            THEN Eval(Get(s, "if")) \cup (IF SubOk(d, root, s, "then", v, fuel - 1) THEN Eval(Get(s, "then")) ELSE {})
            ELSE (IF SubOk(d, root, s, "else", v, fuel - 1) THEN Eval(Get(s, "else")) ELSE {})
          ELSE {})
    \cup (IF ObjKw(s, "dependentSchemas") /\ IsObj(v) THEN
            UNION {IF Valid(d, root, Get(s, "dependentSchemas")[2][k], v, fuel - 1) THEN Eval(Get(s, "dependentSchemas")[2][k]) ELSE {}
                   : k \in Keys(v) \cap Keys(Get(s, "dependentSchemas"))} ELSE {})

EvalProps(d, root, s, v, fuel) ==
    IF s[1] # "o" THEN {}
    ELSE PropKeys(s, v) \cup PatKeys(s, v)
         \cup (IF SchKw(s, "additionalProperties") \/ SchKw(s, "unevaluatedProperties") THEN Keys(v) ELSE {})
         \cup InPlace(d, root, s, v, fuel, LAMBDA x : EvalProps(d, root, x, v, fuel - 1))

EvalItems(d, root, s, v, fuel) ==
    IF s[1] # "o" THEN {}
    ELSE LET n == Len(v[2]) IN
         ((1..n) \cap (1..Len(Positional(d, s))))
         \cup (IF SchKw(s, "items") \/ SchKw(s, "unevaluatedItems")
                  \/ (d.tuple = "items" /\ ArrKw(s, "items") /\ SchKw(s, "additionalItems")) THEN 1..n ELSE {})
         \cup (IF SchKw(s, "contains")
               THEN {i \in 1..n : Valid(d, root, Get(s, "contains"), v[2][i], fuel - 1)} ELSE {})
         \cup InPlace(d, root, s, v, fuel, LAMBDA x : EvalItems(d, root, x, v, fuel - 1))

FUEL == 60
Accepts(d, root, v) == Valid(d, root, root, v, FUEL)
AcceptsAt(d, root, s, v) == Valid(d, root, s, v, FUEL)
=============================================================================
