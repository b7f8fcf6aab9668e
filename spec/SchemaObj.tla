----------------------------- MODULE SchemaObj -----------------------------
(* A Schema value as a little state machine: construction, map-like reads   *)
(* and writes, JSON-pointer access.  Opt values: <<v>> or <<>>.             *)
EXTENDS JsonVal, Uri

None == <<>>
Some(v) == <<v>>
IsSchemaLike(v) == v[1] \in {"b", "o"}
EnsureObject(s) == IF IsObj(s) THEN s ELSE IF s[2] THEN EmptyObj ELSE Obj1("not", EmptyObj)

(* "#..." is the URI-fragment form and is percent-decoded first *)
PointerText(p) == IF StartsWith(p, "#") THEN FragDecode(DropN(p, 1)) ELSE <<TRUE, p>>
SchemaPointer(s, p) ==
    IF IsBool(s) THEN None
    ELSE LET d == PointerText(p) IN
         IF ~d[1] THEN None ELSE LET r == PointerLookup(s, d[2]) IN IF r[1] THEN Some(r[2]) ELSE None
RECURSIVE SetAt(_, _, _, _)
SetAt(v, segs, i, x) ==
    IF i > Len(segs) THEN x
    ELSE IF IsObj(v) THEN With(v, segs[i], SetAt(v[2][segs[i]], segs, i + 1, x))
    ELSE LET k == ToNat(segs[i]) + 1 IN Arr([v[2] EXCEPT ![k] = SetAt(@, segs, i + 1, x)])
PointerSet(s, p, x) == IF SchemaPointer(s, p) = None THEN s ELSE SetAt(s, PointerSegs(PointerText(p)[2])[2], 1, x)
IsRootPointer(p) == p \in {"", "#"}

(* How a schema comes to be: <<schema>> or <<>> when refused *)
Build(i) == CASE i.k = "bool" -> Some(Bool(i.b))
              [] i.k = "map" -> Some(i.v)
              [] i.k = "json" -> IF IsSchemaLike(i.v) THEN Some(i.v) ELSE None
              [] i.k = "default" -> Some(EmptyObj)
              [] i.k = "ref" -> Some(Obj1("$ref", Str(i.s)))

Member(s, k) == IF Has(s, k) THEN Some(Get(s, k)) ELSE None
(* <<schema after, result>> *)
Do(o, s) ==
    CASE o.k = "insert" -> LET e == EnsureObject(s) IN << With(e, o.key, o.v), Member(e, o.key) >>
      [] o.k = "remove" -> << IF Has(s, o.key) THEN Without(s, o.key) ELSE s, Member(s, o.key) >>
      [] o.k = "get" -> << s, Member(s, o.key) >>
      [] o.k = "getmut" -> << IF Has(s, o.key) THEN With(s, o.key, o.v) ELSE s, Member(s, o.key) >>
      [] o.k = "ensure" -> << EnsureObject(s), Some(EnsureObject(s)) >>
      [] o.k = "objmut" -> << IF IsObj(s) THEN With(s, o.key, o.v) ELSE s, IF IsObj(s) THEN Some(s) ELSE None >>
      [] o.k = "pointer" -> << s, SchemaPointer(s, o.p) >>
      [] o.k = "pointermut" -> << PointerSet(s, o.p, o.v), SchemaPointer(s, o.p) >>
=============================================================================
