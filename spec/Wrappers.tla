------------------------------ MODULE Wrappers ------------------------------
(* Optional values and maps: what their schemas must accept in terms of the *)
(* schemas of the wrapped types, and the way schemars builds them.          *)
EXTENDS JsonSchema

----------------------------------------------------------------------------
(* Optional values *)
ImmediateKw == {"if", "allOf", "anyOf", "oneOf", "$ref"}
HasImmediate(s) == \E k \in ImmediateKw : Has(s, k)
TypeNull == Obj1("type", Str("null"))
AdmitsNullType(s) == Has(s, "type") /\ "null" \in Types(Get(s, "type"))
AddNullType(t) == IF IsStr(t) THEN (IF t = Str("null") THEN t ELSE Arr(<<t, Str("null")>>))
                  ELSE IF Str("null") \in Elems(t) THEN t ELSE Arr(Append(t[2], Str("null")))
AllowNull(s) ==
    IF s = True THEN s
    ELSE IF s = False THEN TypeNull
    ELSE IF Keys(s) = {"anyOf"} /\ (\E x \in Elems(Get(s, "anyOf")) : IsObj(x) /\ AdmitsNullType(x)) THEN s
    ELSE IF HasImmediate(s) \/ (Has(s, "not") /\ ~Has(s, "type")) THEN Obj1("anyOf", Arr(<<s, TypeNull>>))
    ELSE LET a == IF Has(s, "type") THEN With(s, "type", AddNullType(Get(s, "type"))) ELSE s IN
         IF Has(a, "const") THEN (IF Get(a, "const") = Null THEN a ELSE With(Without(a, "const"), "enum", Arr(<<Get(a, "const"), Null>>)))
         ELSE IF ArrKw(a, "enum") /\ Null \notin Elems(Get(a, "enum")) THEN With(a, "enum", Arr(Append(Get(a, "enum")[2], Null)))
         ELSE a

(* Schemas on which the construction is known to go wrong (recorded findings). *)
RECURSIVE KnownOpt(_, _)
NotRejectsNull(root, s) == SchKw(s, "not") /\ AcceptsAt(D2020, root, Get(s, "not"), Null)
KnownOpt(root, s) ==
    IsObj(s) /\
    ( \/ (Has(s, "type") /\ NotRejectsNull(root, s))
      \/ (Has(s, "const") /\ ArrKw(s, "enum") /\ Get(s, "const") \notin Elems(Get(s, "enum")))
      \/ (Keys(s) = {"anyOf"} /\ (\E x \in Elems(Get(s, "anyOf")) : IsObj(x) /\ AdmitsNullType(x))
                              /\ ~AcceptsAt(D2020, root, s, Null)))

OptOk(rootOpt, rootInner, vals) ==
    \A v \in vals : Accepts(D2020, rootOpt, v) = (IsNull(v) \/ Accepts(D2020, rootInner, v))

----------------------------------------------------------------------------
(* Maps *)
NumOf(name) == Dec(StartsWith(name, "-"), IF StartsWith(name, "-") THEN DropN(name, 1) ELSE name, "")
CanonInt(name) == LET d == IF StartsWith(name, "-") THEN DropN(name, 1) ELSE name IN
                  AllDigits(d) /\ (d = "0" \/ Ch(d, 1) # "0") /\ ~(StartsWith(name, "-") /\ d = "0")
(* name is a string form of some value the key schema accepts *)
KeyForm(kroot, name) ==
    \/ Accepts(D2020, kroot, Str(name))
    \/ CanonInt(name) /\ Accepts(D2020, kroot, NumOf(name))
    \/ name \in {"true", "false"} /\ Accepts(D2020, kroot, Bool(name = "true"))
(* the alternatives of a key schema, looking through references *)
Deref(root, s) == IF IsObj(s) /\ Has(s, "$ref") THEN LET r == ResolveRef(root, Get(s, "$ref")[2]) IN IF r[1] THEN r[2] ELSE s ELSE s
Alternatives(root) == LET s == root IN
    IF ArrKw(s, "anyOf") /\ (\A i \in 1..Len(Get(s, "anyOf")[2]) : IsObj(Get(s, "anyOf")[2][i]))
    THEN [i \in 1..Len(Get(s, "anyOf")[2]) |-> Deref(root, Get(s, "anyOf")[2][i])] ELSE <<Deref(root, s)>>
AllStrings(s) == \A x \in Elems(s) : IsStr(x)
(* key kinds that are described precisely: patterned strings, string enumerations, integers *)
Kind(s) == IF ~IsObj(s) \/ ~Has(s, "type") THEN "any"
           ELSE IF Get(s, "type") = Str("integer") THEN (IF Has(s, "minimum") /\ ~Get(s, "minimum")[2] THEN "unsigned" ELSE "signed")
           ELSE IF Get(s, "type") # Str("string") THEN "any"
           ELSE IF Has(s, "pattern") THEN "pattern"
           ELSE IF ArrKw(s, "enum") /\ AllStrings(Get(s, "enum")) THEN "enum" ELSE "any"
Fits(s, name) == CASE Kind(s) = "unsigned" -> AllDigits(name)
                   [] Kind(s) = "signed" -> IntStr(name)
                   [] Kind(s) = "pattern" -> Matches(Get(s, "pattern")[2], name)
                   [] Kind(s) = "enum" -> Str(name) \in Elems(Get(s, "enum"))
                   [] OTHER -> TRUE
Alien(kroot, name) == IF IsObj(kroot) THEN \A i \in 1..Len(Alternatives(kroot)) : ~Fits(Alternatives(kroot)[i], name) ELSE FALSE
EnumNames(root) == IF ~IsObj(root) THEN {}
                   ELSE UNION {LET a == Alternatives(root)[i] IN IF IsObj(a) /\ ArrKw(a, "enum") THEN {x[2] : x \in {y \in Elems(Get(a, "enum")) : IsStr(y)}} ELSE {}
                               : i \in 1..Len(Alternatives(root))}
MapOk(mroot, kroot, vroot, names, vals) ==
    /\ Accepts(D2020, mroot, EmptyObj)
    /\ ~Accepts(D2020, mroot, Null) /\ ~Accepts(D2020, mroot, Arr(<<>>)) /\ ~Accepts(D2020, mroot, Str("a"))
    /\ \A n \in names : \A v \in vals :
         LET ok == Accepts(D2020, mroot, Obj1(n, v)) IN
         /\ KeyForm(kroot, n) => (ok = Accepts(D2020, vroot, v))
         /\ Alien(kroot, n) => ~ok
         /\ ~Accepts(D2020, vroot, v) => ~ok
    /\ \A n \in names, m \in {"7", "zb"} : \A v, w \in (vals \cap {Str("v"), Nu(1)}) :   \* members are judged one by one
         n # m => Accepts(D2020, mroot, Obj((n :> v) @@ (m :> w))) = (Accepts(D2020, mroot, Obj1(n, v)) /\ Accepts(D2020, mroot, Obj1(m, w)))
(* how schemars builds it *)
MapSchema(key, value) ==
    LET alts == IF IsObj(key) THEN Alternatives(key) ELSE <<True>>
        kinds == {Kind(alts[i]) : i \in 1..Len(alts)}
        pats == {Get(alts[i], "pattern")[2] : i \in {j \in 1..Len(alts) : Kind(alts[j]) = "pattern"}}
                \cup (IF "signed" \in kinds THEN {"^-?\\d+$"} ELSE IF "unsigned" \in kinds THEN {"^\\d+$"} ELSE {})
        names == UNION {{x[2] : x \in Elems(Get(alts[i], "enum"))} : i \in {j \in 1..Len(alts) : Kind(alts[j]) = "enum"}}
        base == Obj(("type" :> Str("object")) @@ ("additionalProperties" :> (IF "any" \in kinds THEN value ELSE False)))
        p == WithIf(base, pats # {}, "patternProperties", Obj([x \in pats |-> value]))
    IN WithIf(p, names # {}, "properties", Obj([x \in names |-> value]))
=============================================================================
