------------------------------- MODULE TypeId -------------------------------
(* Identities and names of types.  A program declares types in modules;     *)
(*  decl: [mod, id, ren, kind, tps, cps, lt, fields]                         *)
(*    kind "struct", "transparent", "inline", "enum" (fields are variants)   *)
(*    "keys" (an enum of unit variants, which maps may have for their keys)  *)
(*    or "cwith" (described by the first field's type); ren <<>> for none;   *)
(*    tps/cps names of the type and constant parameters, lt a lifetime       *)
(*  field: [n, how, ty]  how: "" plain, "with" a type, "fn" a function of ty,*)
(*    "assoc" (a list of ty, as an associated type of it), "named" (a number *)
(*    annotated with the name of ty), "phantom",                             *)
(*    "const" (ty <<"const",i>>: a number that the schema shows)             *)
(*  type expression: as in BuiltIn, and                                      *)
(*    <<"kmap", kind, k, ty>> a map with keys of the declared type k,       *)
(*    <<"d", k, args, consts>> a declared type, <<"p", i>> a type parameter, *)
(*    <<"c", i>> (as a constant argument) a constant parameter               *)
EXTENDS JsonVal, Uri

----------------------------------------------------------------------------
RECURSIVE Subst(_, _, _)
Subst(t, a, c) ==
    CASE t[1] = "p" -> a[t[2]]
      [] t[1] = "leaf" -> t
      [] t[1] \in {"opt", "bound"} -> <<t[1], Subst(t[2], a, c)>>
      [] t[1] \in {"w", "seq", "set", "arr", "avec", "range"} -> <<t[1], t[2], Subst(t[3], a, c)>>
      [] t[1] \in {"map", "kmap"} -> <<t[1], t[2], t[3], Subst(t[4], a, c)>>
      [] t[1] = "tup" -> <<"tup", [i \in 1..Len(t[2]) |-> Subst(t[2][i], a, c)]>>
      [] t[1] \in {"res", "either"} -> <<t[1], Subst(t[2], a, c), Subst(t[3], a, c)>>
      [] t[1] = "d" -> <<"d", t[2], [i \in 1..Len(t[3]) |-> Subst(t[3][i], a, c)], [i \in 1..Len(t[4]) |-> IF t[4][i][1] = "c" THEN c[t[4][i][2]] ELSE t[4][i]]>>
FieldsOf(P, t) == LET D == P[t[2]] IN [i \in 1..Len(D.fields) |->
    IF D.fields[i].how = "const" THEN [D.fields[i] EXCEPT !.ty = t[4][D.fields[i].ty[2]]] ELSE [D.fields[i] EXCEPT !.ty = Subst(D.fields[i].ty, t[3], t[4])]]

(* What a type is, when types that serialise alike and share their description are not told apart *)
RECURSIVE Canon(_, _)
Canon(P, t) ==
    CASE t[1] = "leaf" -> IF t[2] \in {"String", "BoxStr", "RcStr", "CowStr", "PathBuf"} THEN <<"leaf", "String">> ELSE t
      [] t[1] = "opt" -> <<"opt", Canon(P, t[2])>>
      [] t[1] = "bound" -> <<"bound", Canon(P, t[2])>>
      [] t[1] = "w" -> IF t[2] \in {"RcWeak", "ArcWeak"} THEN <<"opt", Canon(P, t[3])>> ELSE Canon(P, t[3])
      [] t[1] = "seq" -> <<"seq", "Vec", Canon(P, t[3])>>
      [] t[1] = "set" -> <<"set", "BTreeSet", Canon(P, t[3])>>
      [] t[1] = "range" -> <<"range", "Range", Canon(P, t[3])>>
      [] t[1] \in {"arr", "avec"} -> <<t[1], t[2], Canon(P, t[3])>>
      [] t[1] = "map" -> <<"map", "BTreeMap", Canon(P, <<"leaf", t[3]>>)[2], Canon(P, t[4])>>
      [] t[1] = "kmap" -> <<"kmap", "BTreeMap", t[3], Canon(P, t[4])>>
      [] t[1] = "tup" -> <<"tup", [i \in 1..Len(t[2]) |-> Canon(P, t[2][i])]>>
      [] t[1] \in {"res", "either"} -> <<t[1], Canon(P, t[2]), Canon(P, t[3])>>
      [] t[1] = "d" -> IF P[t[2]].kind = "transparent" THEN Canon(P, FieldsOf(P, t)[1].ty)
                       ELSE <<"d", t[2], [i \in 1..Len(t[3]) |-> Canon(P, t[3][i])], t[4]>>

(* Names: the renamed or declared name, with placeholders replaced *)
ConstText(c) == CASE c[1] = "s" -> c[2] [] c[1] = "b" -> (IF c[2] THEN "true" ELSE "false") [] c[1] = "n" -> (IF c[2] THEN "-" ELSE "") \o c[3]
(* format: pieces <<"lit", s>> <<"tp", i>> <<"cp", i>>; names of arguments are known (as recorded) *)
RECURSIVE Expand(_, _, _)
Expand(fmt, argNames, consts) ==
    IF fmt = <<>> THEN ""
    ELSE LET h == Head(fmt) IN
         (CASE h[1] = "lit" -> h[2] [] h[1] = "tp" -> argNames[h[2]] [] h[1] = "cp" -> ConstText(consts[h[2]])) \o Expand(Tail(fmt), argNames, consts)
NameOf(D, argNames, consts) == IF D.ren = <<>> THEN D.id ELSE Expand(D.ren, argNames, consts)

----------------------------------------------------------------------------
(* Two schemas describe the same, each with references into its own         *)
(* definitions: equal but for what definitions are called.                  *)
RefName(s) == IF IsObj(s) /\ Has(s, "$ref") THEN Get(s, "$ref")[2] ELSE ""
DefOf(defs, r) ==
    IF ~StartsWith(r, "#/$defs/") THEN <<FALSE>>
    ELSE LET d == FragDecode(DropN(r, Len("#/$defs/"))) IN IF d[1] /\ Unescape(d[2]) \in DOMAIN defs THEN <<TRUE, defs[Unescape(d[2])]>> ELSE <<FALSE>>
RECURSIVE Same(_, _, _, _, _)
Same(a, da, b, db, seen) ==
    IF a[1] # b[1] THEN FALSE
    ELSE IF IsArr(a) THEN Len(a[2]) = Len(b[2]) /\ \A i \in 1..Len(a[2]) : Same(a[2][i], da, b[2][i], db, seen)
    ELSE IF ~IsObj(a) THEN a = b
    ELSE /\ Keys(a) = Keys(b)
         /\ \A k \in Keys(a) \ {"$ref"} : Same(Get(a, k), da, Get(b, k), db, seen)
         /\ Has(a, "$ref") =>
              LET ra == Get(a, "$ref")[2]  rb == Get(b, "$ref")[2] IN
              IF <<ra, rb>> \in seen THEN TRUE
              ELSE LET x == DefOf(da, ra)  y == DefOf(db, rb) IN
                   x[1] /\ y[1] /\ Same(x[2], da, y[2], db, seen \cup {<<ra, rb>>})

----------------------------------------------------------------------------
(* The identities that schemars gives, and what they stand for (for the     *)
(* model check; leaves are all different here).                             *)
RECURSIVE Uses(_, _)
Uses(t, i) == CASE t[1] = "p" -> t[2] = i
                [] t[1] = "leaf" -> FALSE
                [] t[1] \in {"opt", "bound"} -> Uses(t[2], i)
                [] t[1] \in {"w", "seq", "set", "arr", "avec", "range"} -> Uses(t[3], i)
                [] t[1] \in {"map", "kmap"} -> Uses(t[4], i)
                [] t[1] = "tup" -> \E j \in 1..Len(t[2]) : Uses(t[2][j], i)
                [] t[1] \in {"res", "either"} -> Uses(t[2], i) \/ Uses(t[3], i)
                [] t[1] = "d" -> \E j \in 1..Len(t[3]) : Uses(t[3][j], i)
RelevantIn(D, i) ==     \* parameter i has a say in the schema
    \/ \E f \in 1..Len(D.fields) : D.fields[f].how \in {"", "with", "fn", "assoc", "named"} /\ Uses(D.fields[f].ty, i)
    \/ \E x \in 1..Len(D.ren) : D.ren[x] = <<"tp", i>>
RECURSIVE Id(_, _), ArgIds(_, _, _)
ArgIds(P, D, args) == LET xs == SelectSeq([i \in 1..Len(args) |-> <<i, Id(P, args[i])>>], LAMBDA x : RelevantIn(D, x[1])) IN [i \in 1..Len(xs) |-> xs[i][2]]
RECURSIVE Placeholders(_, _)
Placeholders(D, fmt) == IF fmt = <<>> THEN "" ELSE LET h == Head(fmt) IN
    (CASE h[1] = "lit" -> h[2] [] h[1] = "tp" -> "{" \o D.tps[h[2]] \o "}" [] h[1] = "cp" -> "{" \o D.cps[h[2]] \o "}") \o Placeholders(D, Tail(fmt))
DeclName(D) == IF D.ren = <<>> THEN D.id ELSE Placeholders(D, D.ren)
Id(P, t) ==
    CASE t[1] = "leaf" -> Canon(P, t)[2]
      [] t[1] = "opt" -> "Option<" \o Id(P, t[2]) \o ">"
      [] t[1] = "bound" -> "Bound<" \o Id(P, t[2]) \o ">"
      [] t[1] = "w" -> IF t[2] \in {"RcWeak", "ArcWeak"} THEN "Option<" \o Id(P, t[3]) \o ">" ELSE Id(P, t[3])
      [] t[1] = "seq" -> "[" \o Id(P, t[3]) \o "]"
      [] t[1] = "set" -> "Set<" \o Id(P, t[3]) \o ">"
      [] t[1] = "range" -> "Range<" \o Id(P, t[3]) \o ">"
      [] t[1] = "arr" -> IF t[2] = 0 THEN "[]" ELSE "[" \o ToString(t[2]) \o "; " \o Id(P, t[3]) \o "]"
      [] t[1] = "avec" -> "ArrayVec<" \o Id(P, t[3]) \o ", " \o ToString(t[2]) \o ">"
      [] t[1] = "map" -> IF Canon(P, <<"leaf", t[3]>>)[2] = "String" THEN "Map<" \o Id(P, t[4]) \o ">" ELSE "Map<" \o t[3] \o ", " \o Id(P, t[4]) \o ">"
      [] t[1] = "kmap" -> "Map<" \o Id(P, <<"d", t[3], <<>>, <<>> >>) \o ", " \o Id(P, t[4]) \o ">"
      [] t[1] = "tup" -> "(" \o Join([i \in 1..Len(t[2]) |-> Id(P, t[2][i])], ",") \o ")"
      [] t[1] = "res" -> "Result<" \o Id(P, t[2]) \o ", " \o Id(P, t[3]) \o ">"
      [] t[1] = "either" -> "either::Either<" \o Id(P, t[2]) \o ", " \o Id(P, t[3]) \o ">"
      [] t[1] = "d" -> LET D == P[t[2]] IN
            IF D.kind = "transparent" THEN Id(P, FieldsOf(P, t)[1].ty)
            ELSE IF D.cps = <<>> /\ ArgIds(P, D, t[3]) = <<>> THEN D.mod \o "::" \o DeclName(D)
            ELSE D.mod \o "::" \o DeclName(D) \o "<" \o Join([i \in 1..Len(t[4]) |-> ConstText(t[4][i])] \o ArgIds(P, D, t[3]), ", ") \o ">"
(* What a type's schema shows, down to a depth *)
RECURSIVE Shape(_, _, _)
Shape(P, t0, n) ==
    LET t == Canon(P, t0)  S(x) == Shape(P, x, n - 1) IN
    IF n = 0 THEN "..." ELSE
    CASE t[1] = "leaf" -> t
      [] t[1] \in {"opt", "bound"} -> <<t[1], S(t[2])>>
      [] t[1] \in {"seq", "set", "range", "arr", "avec"} -> <<t[1], t[2], IF t[1] = "arr" /\ t[2] = 0 THEN "none" ELSE S(t[3])>>
      [] t[1] = "map" -> <<"map", t[3], S(t[4])>>
      [] t[1] = "kmap" -> <<"kmap", {P[t[3]].fields[i].n : i \in 1..Len(P[t[3]].fields)}, S(t[4])>>
      [] t[1] = "tup" -> <<"tup", [i \in 1..Len(t[2]) |-> S(t[2][i])]>>
      [] t[1] \in {"res", "either"} -> <<t[1], S(t[2]), S(t[3])>>
      [] t[1] = "d" -> <<"d", [i \in 1..Len(P[t[2]].fields) |-> LET f == FieldsOf(P, t)[i] IN
                              <<f.n, IF f.how \in {"phantom", "const"} THEN f.how ELSE "", IF f.how = "phantom" THEN "none" ELSE IF f.how = "const" THEN f.ty ELSE IF f.how \in {"assoc", "named"} THEN <<f.how, S(f.ty)>> ELSE S(f.ty)>>]>>
=============================================================================
