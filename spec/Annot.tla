-------------------------------- MODULE Annot --------------------------------
(* Annotations of an item (container, variant or field) and the schema they *)
(* make of the item's plain schema.  An annotation a is                     *)
(*  [doc: lines, title, desc: <<>> or <<text>>, ex: examples, dep: BOOLEAN, *)
(*   ext: <<<<key, value>>..>>, tf: names, val: validation items].          *)
(* A validation item is [ns, kw, ...]: ns "schemars"|"validate"|"garde";    *)
(*  kw "length"|"range" with min, max, eq ("" unset); "pattern"|"regex"|    *)
(*  "contains" with s; "format" with s; "required"; "inner" with items.     *)
EXTENDS Serde

----------------------------------------------------------------------------
(* Documentation text *)
Space == {" ", "\t", "\n", "\f", "\r"}
RECURSIVE TrimL(_), TrimR(_), DropHash(_)
TrimL(s) == IF s # "" /\ Ch(s, 1) \in Space THEN TrimL(DropN(s, 1)) ELSE s
TrimR(s) == IF s # "" /\ Ch(s, Len(s)) \in Space THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimR(TrimL(s))
DropHash(s) == IF s # "" /\ Ch(s, 1) = "#" THEN DropHash(DropN(s, 1)) ELSE s
Unindent(l) == IF l # "" /\ Ch(l, 1) = " " THEN DropN(l, 1) ELSE l
DocText(lines) == Trim(Join([i \in DOMAIN lines |-> Unindent(lines[i])], "\n"))
FirstLine(s) == Split(s, "\n")[1]
Heading(s) == s # "" /\ Ch(s, 1) = "#"
DocTitle(lines) == LET s == DocText(lines) IN IF Heading(s) THEN Trim(DropHash(FirstLine(s))) ELSE ""
DocDesc(lines) == LET s == DocText(lines) IN IF Heading(s) THEN Trim(DropN(s, Len(FirstLine(s)))) ELSE s

Opened(s) == IF s = True THEN EmptyObj ELSE IF s = False THEN Obj([x \in {"not"} |-> EmptyObj]) ELSE s
Put(s, k, v) == With(Opened(s), k, v)
PutIf(s, c, k, v) == IF c THEN Put(s, k, v) ELSE s
RECURSIVE PutAll(_, _, _), Mark(_, _, _)
PutAll(s, kvs, i) == IF i > Len(kvs) THEN s ELSE PutAll(Put(s, kvs[i][1], kvs[i][2]), kvs, i + 1)
(* the transforms used: each notes its name and how many texts and examples it saw *)
Mark(s, names, i) ==
    IF i > Len(names) THEN s
    ELSE LET o == Opened(s)  old == IF Has(o, "x-tf") THEN Get(o, "x-tf")[2] ELSE <<>>
             n == Cardinality(Keys(o) \cap {"title", "description", "deprecated", "examples"})
         IN Mark(With(o, "x-tf", Arr(Append(old, Arr(<<Str(names[i]), Nu(n)>>)))), names, i + 1)
(* Explicit values win over the documentation comment; an empty text is none. *)
Meta(s0, a) ==
    LET title == IF a.title # <<>> THEN a.title[1] ELSE DocTitle(a.doc)
        desc == IF a.desc # <<>> THEN a.desc[1] ELSE DocDesc(a.doc)
        s1 == PutIf(s0, title # "", "title", Str(title))
        s2 == PutIf(s1, desc # "", "description", Str(desc))
        s3 == PutIf(s2, a.dep, "deprecated", True)
        s4 == PutIf(s3, a.ex # <<>>, "examples", Arr(a.ex))
    IN Mark(PutAll(s4, a.ext, 1), a.tf, 1)

----------------------------------------------------------------------------
(* Validation *)
Namespaces == <<"schemars", "validate", "garde">>
InNs(items, ns) == SelectSeq(items, LAMBDA x : x.ns = ns)
Ordered(items) == InNs(items, "schemars") \o InNs(items, "validate") \o InNs(items, "garde")
(* What an attribute of a higher namespace states decides; <<>> if nothing is said. *)
First(items, kws) == LET s == SelectSeq(Ordered(items), LAMBDA x : x.kw \in kws) IN IF s = <<>> THEN <<>> ELSE <<s[1]>>
HasType(s, t) == IsObj(s) /\ Has(s, "type") /\ (Get(s, "type") = Str(t) \/ (IsArr(Get(s, "type")) /\ Str(t) \in SeqSet(Get(s, "type")[2])))
IsNumeric(s) == HasType(s, "number") \/ HasType(s, "integer")
Lo(x) == IF x.min # <<>> THEN x.min ELSE x.eq
Hi(x) == IF x.max # <<>> THEN x.max ELSE x.eq
Bound(s, b, k) == IF b = <<>> THEN s ELSE Put(s, k, b[1])
Bounds(s, x, lo, hi) == Bound(Bound(s, Lo(x), lo), Hi(x), hi)

(* A pattern that matches exactly the strings containing a text: the text with special characters escaped *)
Special == {Ch("\\.+*?()|[]{}^$", i) : i \in 1..14}
MayEscape == Special \cup {"#", "&", "-", "~", "/"}
RECURSIVE Literal(_, _)
Literal(p, i) ==     \* <<>> if p is not a plain literal
    IF i > Len(p) THEN <<"">>
    ELSE LET esc == Ch(p, i) = "\\"
             c == IF esc /\ i < Len(p) THEN Ch(p, i + 1) ELSE Ch(p, i)
             rest == Literal(p, IF esc THEN i + 2 ELSE i + 1)
         IN IF (esc /\ (i = Len(p) \/ c \notin MayEscape)) \/ (~esc /\ c \in Special) \/ rest = <<>> THEN <<>> ELSE <<c \o rest[1]>>
Containing(text, t) ==     \* the pattern in t if it says that, else something it is not
    IF IsObj(t) /\ Has(t, "pattern") /\ IsStr(Get(t, "pattern")) /\ Literal(Get(t, "pattern")[2], 1) = <<text>> THEN Get(t, "pattern")
    ELSE Arr(<<Str("a pattern for"), Str(text)>>)

FormatName(f) == IF f = "url" THEN "uri" ELSE f
RECURSIVE Valid(_, _, _)
(* t is the schema that was generated, consulted only for how a contained text is escaped *)
Valid(s, items, t) ==
    LET len == First(items, {"length"})
        rng == First(items, {"range"})
        pat == First(items, {"pattern", "regex", "contains"})
        fmt == First(items, {"format"})
        inn == SelectSeq(Ordered(items), LAMBDA x : x.kw = "inner")
        s1 == IF len # <<>> /\ HasType(s, "string") THEN Bounds(s, len[1], "minLength", "maxLength") ELSE s
        s2 == IF len # <<>> /\ HasType(s, "array") THEN Bounds(s1, len[1], "minItems", "maxItems") ELSE s1
        s3 == IF rng # <<>> /\ IsNumeric(s) THEN Bounds(s2, rng[1], "minimum", "maximum") ELSE s2
        s4 == IF pat # <<>> /\ HasType(s, "string") THEN Put(s3, "pattern", IF pat[1].kw = "contains" THEN Containing(pat[1].s, t) ELSE Str(pat[1].s)) ELSE s3
        s5 == IF fmt # <<>> THEN Put(s4, "format", Str(FormatName(fmt[1].s))) ELSE s4
        all == FlattenSeq([i \in DOMAIN inn |-> [x \in DOMAIN inn[i].items |-> [inn[i].items[x] EXCEPT !.ns = inn[i].ns]]])
    IN IF inn # <<>> /\ IsObj(s5) /\ Has(s5, "items") /\ Get(s5, "items")[1] \in {"b", "o"}
       THEN With(s5, "items", Valid(Get(s5, "items"), all, IF IsObj(t) /\ Has(t, "items") THEN Get(t, "items") ELSE Null)) ELSE s5
Required(a) == \E i \in DOMAIN a.val : a.val[i].kw = "required"
Field(s, a, t) == Valid(Meta(s, a), a.val, t)

----------------------------------------------------------------------------
(* Does t say of a field what its plain schema b and its annotation make of it? *)
(* A required option is described as its content, in place or by reference.     *)
FieldIs(b, a, t, defs) ==
    \/ t = Field(b, a, t)
    \/ /\ Required(a) /\ IsObj(b) /\ "$ref" \in Keys(b) /\ StartsWith(Get(b, "$ref")[2], "#/$defs/")
       /\ LET n == Unescape(DropN(Get(b, "$ref")[2], 8))
              Beside(s) == LET o == Opened(s) IN Obj([k \in Keys(o) \cup (Keys(b) \ {"$ref"}) |-> IF k \in Keys(b) THEN Get(b, k) ELSE Get(o, k)])
          IN n \in DOMAIN defs /\ t = Field(IF Keys(b) = {"$ref"} THEN defs[n] ELSE Beside(defs[n]), a, t)
PropsOf(s) == IF IsObj(s) /\ Has(s, "properties") THEN Get(s, "properties")[2] ELSE EmptyFn
WithProps(s, f) == IF IsObj(s) /\ Has(s, "properties") THEN With(s, "properties", Obj(f)) ELSE s
(* <<faults, b with the annotated places as they are in t>> *)
Struct(m, T, v, fields, anns, b, t, defs) ==
    LET ns == NamedIdx(m, fields)
        N(i) == FieldName(m, T, v, fields[i])
        bp == PropsOf(b)  tp == PropsOf(t)
        lost == {i \in ns : N(i) \notin DOMAIN bp \/ N(i) \notin DOMAIN tp}
        wrong == {i \in ns \ lost : ~FieldIs(bp[N(i)], anns[i], tp[N(i)], defs)}
        mine == {N(i) : i \in ns \ lost}
        (* annotations of a flattened field or type are not the container's *)
        leak == IF IsObj(b) THEN Keys(b) \cap {"title", "description", "deprecated", "examples"} ELSE {}
    IN <<{<<"field", N(i)>> : i \in lost \cup wrong} \cup {<<"leak", k>> : k \in leak}, WithProps(b, [n \in DOMAIN bp |-> IF n \in mine THEN tp[n] ELSE bp[n]])>>
ItemsOf(s) == IF IsObj(s) /\ Has(s, "prefixItems") THEN Get(s, "prefixItems")[2] ELSE <<>>
Tuple(m, fields, anns, b, t, defs) ==
    LET act == SetToSortSeq(ActiveIdx(m, fields), <)
        bi == ItemsOf(b)  ti == ItemsOf(t)
    IN IF Len(bi) # Len(act) \/ Len(ti) # Len(act) THEN <<{<<"elements", ToString(Len(ti))>>}, b>>
       ELSE <<{<<"element", ToString(i)>> : i \in {i \in DOMAIN act : ~FieldIs(bi[i], anns[act[i]], ti[i], defs)}},
              IF act = <<>> THEN b ELSE With(b, "prefixItems", Arr(ti))>>
(* The content of a variant or struct whose fields are in b and t *)
Body(m, T, v, kind, fields, anns, b, t, defs) ==
    CASE kind = "struct" -> Struct(m, T, v, fields, anns, b, t, defs)
      [] kind = "tuple" -> Tuple(m, fields, anns, b, t, defs)
      [] kind = "newtype" -> <<IF FieldIs(b, anns[1], t, defs) THEN {} ELSE {<<"content", ToString(b)>>}, t>>
      [] OTHER -> <<{}, b>>

(* Alternatives, unit variants that share one one by one *)
AltSeq(s) ==
    LET as == IF ~IsObj(s) THEN <<>> ELSE IF Has(s, "oneOf") THEN Get(s, "oneOf")[2] ELSE IF Has(s, "anyOf") THEN Get(s, "anyOf")[2] ELSE <<s>>
        One(a) == IF IsObj(a) /\ Has(a, "enum") /\ GetOr(a, "type", Null) = Str("string")
                  THEN [i \in DOMAIN Get(a, "enum")[2] |-> Obj([k \in {"type", "const"} |-> IF k = "type" THEN Str("string") ELSE Get(a, "enum")[2][i]])]
                  ELSE <<a>>
    IN FlattenSeq([i \in DOMAIN as |-> One(as[i])])
NoAnn(a) == a.doc = <<>> /\ a.title = <<>> /\ a.desc = <<>> /\ a.ex = <<>> /\ ~a.dep /\ a.ext = <<>> /\ a.tf = <<>>
(* The order of the alternatives: unit variants without annotations first *)
Order(m, T, Plain(_)) == LET act == ActiveVars(m, T) IN SetToSortSeq({i \in act : Plain(i)}, <) \o SetToSortSeq({i \in act : ~Plain(i)}, <)
IsUnitV(v) == v.kind = "unit" \/ (v.kind = "newtype" /\ v.fields[1].a.skipS /\ v.fields[1].a.skipD)
Variant(m, T, i, an, b, t, defs) ==      \* b, t: the plain and the annotated alternative of variant i
    LET v == T.variants[i]
        n == VariantName(m, T, v)
        kind == IF IsUnitV(v) THEN "unit" ELSE v.kind
        bare == IsUntaggedV(T, v) \/ T.a.tag \in {"int", "unt"}
        key == IF T.a.tag = "ext" THEN n ELSE T.a.c
        In(s) == PropsOf(s)[key]
        lost == ~bare /\ kind # "unit" /\ (key \notin DOMAIN PropsOf(b) \/ key \notin DOMAIN PropsOf(t))
        (* a variant that is one field has the field's annotations and then its own *)
        same == bare /\ kind = "newtype"
        r == IF lost \/ same \/ kind = "unit" THEN <<{}, b>>
             ELSE IF bare THEN Body(m, T, v, kind, v.fields, an.f, b, t, defs)
             ELSE LET x == Body(m, T, v, kind, v.fields, an.f, In(b), In(t), defs) IN
                  <<x[1], WithProps(b, [k \in DOMAIN PropsOf(b) |-> IF k = key THEN x[2] ELSE PropsOf(b)[k]])>>
        want == Meta(IF same THEN Field(b, an.f[1], t) ELSE r[2], an.c)
    IN IF lost THEN {<<"variant", n>>} ELSE r[1] \cup (IF want = t THEN {} ELSE {<<"variant", n>>})
Rest(s) == IF IsObj(s) THEN WithoutAll(s, {"oneOf", "anyOf", "type", "enum"}) ELSE s

Faults(m, T, an, b, t, defs) ==
    CASE T.kind = "enum" ->
           LET bo == Order(m, T, LAMBDA i : T.a.tag = "ext" /\ IsUnitV(T.variants[i]) /\ ~T.variants[i].a.unt)
               to == Order(m, T, LAMBDA i : T.a.tag = "ext" /\ IsUnitV(T.variants[i]) /\ ~T.variants[i].a.unt /\ NoAnn(an.v[i].c))
               bs == AltSeq(b)  ts == AltSeq(t)
               At(s, o, i) == s[CHOOSE x \in DOMAIN o : o[x] = i]
           IN IF Len(bs) # Len(bo) \/ Len(ts) # Len(to) THEN {<<"alternatives", ToString(Len(ts))>>}
              ELSE UNION {Variant(m, T, i, an.v[i], At(bs, bo, i), At(ts, to, i), defs) : i \in ActiveVars(m, T)}
                   \cup (IF Rest(t) = Meta(Rest(b), an.c) THEN {} ELSE {<<"container", T.name>>})
      [] T.kind = "newtype" \/ T.a.transp -> IF t = Meta(Field(b, an.f[1], t), an.c) THEN {} ELSE {<<"container", T.name>>}
      [] OTHER -> LET r == Body(m, T, <<>>, T.kind, T.fields, an.f, b, t, defs) IN
                  r[1] \cup (IF t = Meta(r[2], an.c) THEN {} ELSE {<<"container", T.name>>})
=============================================================================
