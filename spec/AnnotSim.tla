------------------------------ MODULE AnnotSim ------------------------------
(* Programs with annotated containers, variants and fields.  Kind: "meta"   *)
(* (documentation and metadata) or "val" (validation).                      *)
EXTENDS DeriveSim, Annot
CONSTANT Kind

Lines == {"", " Some text.", "  indented", "no space", " # Heading", "# Tight heading #", " ## Second level ##  ", "#", " ###", " with \"quotes\" and \\ back", "\ttab", " trailing  ",
          " #NoSpace", " * list", " caf" \o ChrOf(233) \o " " \o ChrOf(2047), " {braces} {0} %s", "   ", " a # b", " ```", " two\n lines", "\r\n windows", ChrOf(160) \o "nbsp", "\fff"}
RLines(n) == RList(LAMBDA i : R(Lines), n)
Texts == {"", "A title", " spaced ", "two\nlines", "# not a heading", "q\"uo\\te", "u" \o ChrOf(252), "{name}", "x"}
Values == {Null, True, Nu(0), Nu(0 - 3), Dec(FALSE, "1", "5"), Str(""), Str("fn_name"), Str("a b"), Arr(<<>>), Arr(<<Nu(1), Str("x")>>), EmptyObj, Obj([k \in {"k", "a b"} |-> Arr(<<Null>>)])}
NoAnnot == [doc |-> <<>>, title |-> <<>>, desc |-> <<>>, ex |-> <<>>, dep |-> FALSE, ext |-> <<>>, tf |-> <<>>, val |-> <<>>, o |-> 0]
ExtKeys == <<"x-a", "x y", "$comment", "x-a/b~">>
RExt(doc) == LET n == R({0, 0, 0, 1, 2, 3})
                 e == RList(LAMBDA i : <<ExtKeys[i], R(Values)>>, n)
             IN IF doc # <<>> /\ Pct(10) THEN Append(e, <<R({"title", "description"}), Str("extended")>>)
                ELSE IF Pct(5) THEN Append(e, <<"examples", Arr(<<Nu(7)>>)>>) ELSE e
RMeta(z) ==
    LET doc == TLCEval(IF Pct(45) THEN RLines(R({1, 1, 2, 3})) ELSE <<>>) IN
    [NoAnnot EXCEPT !.doc = doc, !.title = IF Pct(15) THEN <<R(Texts)>> ELSE <<>>, !.desc = IF Pct(15) THEN <<R(Texts)>> ELSE <<>>,
                    !.ex = IF Pct(20) THEN RList(LAMBDA i : R(Values), R(1..2)) ELSE <<>>, !.dep = Pct(15), !.ext = RExt(doc),
                    !.tf = IF Pct(12) THEN RList(LAMBDA i : R({"tfa", "tfb"}), R(1..2)) ELSE <<>>, !.o = R(0..(5 + 0 * z))]

Lens == {<<Nu(0)>>, <<Nu(1)>>, <<Nu(5)>>, <<Nu(5)>>, <<Nu(300)>>, <<>>}
Rngs == {<<Nu(0)>>, <<Nu(0 - 5)>>, <<Nu(5)>>, <<Dec(FALSE, "1", "5")>>, <<Dec(TRUE, "0", "5")>>, <<Nu(1000)>>, <<Dec(FALSE, "18446744073709551615", "")>>, <<>>}
NS(ok) == R(ok)
RBounds(S, kw, ns) == IF Pct(25) THEN [ns |-> ns, kw |-> kw, min |-> <<>>, max |-> <<>>, eq |-> R(S \ {<<>>})]
                      ELSE [ns |-> ns, kw |-> kw, min |-> R(S), max |-> R(S), eq |-> <<>>]
Pats == {"^a+$", "\\d{3}", "x", "", "[\"']", ChrOf(233), "#&-~"}
Subs == {"a", "a.b", "(x)", "", "[]{}", "^$|?*+", "\\", "#&-~ /", "q\"", ChrOf(233), "-", "a-b"}
AllNs == {"schemars", "validate", "garde"}
RECURSIVE RItems(_, _)
OneItem(kw, ns, depth) ==
    CASE kw = "length" -> RBounds(Lens, kw, ns)
      [] kw = "range" -> RBounds(Rngs, kw, ns)
      [] kw = "pat" -> (CASE ns = "schemars" -> R({[ns |-> ns, kw |-> "pattern", s |-> R(Pats)], [ns |-> ns, kw |-> "regex", s |-> R(Pats)], [ns |-> ns, kw |-> "contains", s |-> R(Subs)]})
                          [] ns = "validate" -> R({[ns |-> ns, kw |-> "regex", s |-> R(Pats)], [ns |-> ns, kw |-> "contains", s |-> R(Subs)]})
                          [] OTHER -> R({[ns |-> ns, kw |-> "pattern", s |-> R(Pats)], [ns |-> ns, kw |-> "contains", s |-> R(Subs)]}))
      [] kw = "format" -> [ns |-> ns, kw |-> "format", s |-> R({"email", "url", "ip", "ipv4", "ipv6"})]
      [] kw = "required" -> [ns |-> ns, kw |-> "required"]
      [] kw = "inner" -> [ns |-> ns, kw |-> "inner", items |-> RItems(depth - 1, ns)]
Kws == <<"length", "range", "pat", "format", "inner">>
(* usually one namespace states a keyword, sometimes several with different values *)
ItemsFor(kw, depth, only, z) ==
    LET ok == IF only # "" THEN {only} ELSE IF kw = "inner" THEN AllNs \ {"validate"} ELSE AllNs
        some == IF Pct(80) THEN {R(ok)} ELSE ok
    IN [i \in 1..Cardinality(some) |-> OneItem(kw, SetToSortSeq(some, LAMBDA x, y : x = "schemars" \/ (x = "validate" /\ y = "garde"))[i], depth)]
RECURSIVE EachKw(_, _, _, _)
EachKw(i, depth, only, acc) ==
    IF i > Len(Kws) THEN acc
    ELSE LET take == Kws[i] # "inner" \/ depth > 0
             x == TLCEval(IF take /\ Pct(IF depth = 2 THEN 30 ELSE 45) THEN ItemsFor(Kws[i], depth, only, i) ELSE <<>>)
         IN EachKw(i + 1, depth, only, TLCEval(acc \o x))
RItems(depth, only) == EachKw(1, depth, only, <<>>)
RVal0(mayReq) == [NoAnnot EXCEPT !.val = TLCEval(RItems(2, "") \o (IF mayReq /\ Pct(30) THEN <<[ns |-> R(AllNs), kw |-> "required"]>> ELSE <<>>)), !.o = R(0..7)]

FieldAnn(f, named, z) == IF Kind = "meta" THEN (IF Pct(60) THEN RMeta(z) ELSE NoAnnot)
                         ELSE IF f.a.flat THEN NoAnnot
                         ELSE RVal0(named /\ f.ty[1] = "opt" /\ f.ty[2][1] # "opt" /\ f.a.ssi # "is_none" /\ f.a.dflt = "" /\ ~f.a.skipD)
Anns(fields, named) == RList(LAMBDA i : FieldAnn(fields[i], named, i), Len(fields))
ItemAnn(z) == IF Kind = "meta" /\ Pct(60) THEN RMeta(z) ELSE NoAnnot
TypeAnn(T) == [c |-> ItemAnn(1), f |-> Anns(T.fields, T.kind = "struct" /\ ~T.a.transp),
               v |-> RList(LAMBDA i : [c |-> ItemAnn(i), f |-> Anns(T.variants[i].fields, T.variants[i].kind = "struct")], Len(T.variants))]

(* Left out: names and texts of the unannotated generator, defaults that need values of the types *)
PlainF(f0) == LET f == TLCEval(f0) IN [f EXCEPT !.dv = "", !.a.dflt = IF @ = "" THEN "" ELSE "trait"]
PlainT(T0) == LET T == TLCEval(T0) IN
    [T EXCEPT !.a.hasRen = FALSE, !.a.doc = FALSE, !.a.dflt = "", !.fields = [i \in DOMAIN T.fields |-> PlainF(T.fields[i])],
              !.variants = [i \in DOMAIN T.variants |-> [T.variants[i] EXCEPT !.a.doc = FALSE, !.fields = [x \in DOMAIN T.variants[i].fields |-> PlainF(T.variants[i].fields[x])]]]]
Next3 == \/ /\ Len(P.types) < NTypes /\ phase = 0 /\ UNCHANGED <<out, phase>>
            /\ \E kd \in {RKind(Len(P.types))} : \E t \in {PlainT(NoDenyMap(P, RType(P, kd)))} : P' = [types |-> Append(P.types, t)]
         \/ /\ Len(P.types) = NTypes /\ phase = 0 /\ phase' = 1 /\ UNCHANGED P
            /\ \E o \in {RList(LAMBDA k : [an |-> TypeAnn(P.types[k]), dv |-> RVal(P, <<"ref", k>>, 2)], NTypes)} : out' = o
         \/ /\ phase = 1 /\ phase' = 2 /\ UNCHANGED <<P, out>>
            /\ PrintT("CASE " \o ToJson([types |-> P.types, subj |-> out]))
Spec3 == Init /\ [][Next3]_<<P, out, phase>>
=============================================================================
