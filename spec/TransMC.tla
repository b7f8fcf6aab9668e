------------------------------ MODULE TransMC ------------------------------
(* A schema document acted on by the built-in transforms, one at a time, in *)
(* any order, from every small document: meaning, forms, frame, idempotence.*)
EXTENDS Transforms, Randomization
CONSTANTS Rich, MaxSteps, Sample   \* Sample: extensions tried per base document, 0 for all

VARIABLES orig, doc, rd, forms, approx, n
vars == <<orig, doc, rd, forms, approx, n>>

RefD == Obj1("$ref", Str("#/$defs/D"))
D == Obj(("type" :> Str("object")) @@ ("properties" :> Obj1("d", True)))
Leaf == { True, False, EmptyObj, Obj1("type", Str("null")), Obj1("type", StrArr(<<"string", "null">>)), Obj1("type", Str("string")),
          Obj1("const", Null), Obj1("const", Nu(0)), RefD }
LeafQ == IF Rich THEN Leaf ELSE {True, False, Obj1("type", StrArr(<<"string", "null">>)), Obj1("const", Nu(0)), RefD}
Opt(k, S) == {EmptyObj} \cup {Obj1(k, v) : v \in S}
Types1 == Opt("type", {StrArr(<<"object", "null">>), Str("null"), StrArr(<<"null">>), StrArr(<<"array", "string", "null">>)})
Vals == {EmptyObj, Obj1("const", Null), Obj1("enum", Arr(<<Null, Nu(0)>>)), Obj1("examples", Arr(<<Nu(1), Nu(2)>>)), Obj1("examples", Arr(<<>>))}
Refs == {EmptyObj, RefD}
Arrs(S) == {EmptyObj} \cup {Obj1("prefixItems", Arr(<<x>>)) : x \in S} \cup {Obj(("prefixItems" :> Arr(<<x>>)) @@ ("items" :> y)) : x, y \in S}
Objs(S) == {EmptyObj} \cup {Obj1("properties", Obj1("a", x)) : x \in S}
           \cup {Obj(("properties" :> Obj1("a", x)) @@ ("unevaluatedProperties" :> y)) : x, y \in S}
           \cup {Obj(("allOf" :> Arr(<<Obj1("properties", Obj1("a", x))>>)) @@ ("unevaluatedProperties" :> y)) : x, y \in S}
           \cup {Obj(("anyOf" :> Arr(<<Obj(("properties" :> Obj1("a", x)) @@ ("required" :> StrArr(<<"a">>))), Obj1("properties", Obj1("b", x))>>))
                     @@ ("unevaluatedProperties" :> y)) : x, y \in S}
           \cup {Obj(("additionalProperties" :> x) @@ ("unevaluatedProperties" :> y)) : x, y \in S}
           \cup {Obj1("additionalProperties", x) : x \in S} \cup {Obj1("not", x) : x \in S}
           \cup {Obj1("anyOf", Arr(<<x, y>>)) : x, y \in S} \cup {Obj1("oneOf", Arr(<<x, y>>)) : x, y \in S}
Bases == {With(MergeObj(MergeObj(a, b), c), "$defs", Obj1("D", D)) : a \in Types1, b \in Vals, c \in Refs}
Exts == Arrs(LeafQ) \cup Objs(LeafQ)
SomeExts == IF Sample = 0 THEN Exts ELSE RandomSubset(Sample, Exts)
Insts == { Null, True, Nu(0), Nu(1), Str("x"), Arr(<<>>), Arr(<<Null>>), Arr(<<Nu(0)>>), Arr(<<Nu(0), Str("x")>>), EmptyObj,
           Obj1("a", Null), Obj1("a", Nu(0)), Obj1("b", Nu(0)), Obj1("d", Nu(0)), Obj(("a" :> Str("x")) @@ ("b" :> Str("y"))) }
Bools == {TRUE, FALSE}
Ts == {[k |-> "bool", skip |-> b] : b \in Bools} \cup {[k |-> k] : k \in {"ref", "example", "const", "prefix", "uneval"}}
      \cup {[k |-> "null", rm |-> r, addc |-> a] : r, a \in Bools}

Init == /\ orig \in Bases
        /\ doc = orig /\ rd = D2020 /\ forms = {} /\ approx = FALSE /\ n = 0 - 1
Extend == /\ n = 0 - 1 /\ n' = 0
          /\ orig' \in {d \in {MergeObj(orig, e) : e \in SomeExts} : InDomain(d) /\ ~LossyUneval(d)}
          /\ doc' = orig' /\ UNCHANGED <<rd, forms, approx>>
(* orders in which the transforms are meant to be combined *)
Sensible(t) == /\ (t.k = "null" /\ t.addc) => "const" \notin forms
               /\ t.k = "uneval" => "ref" \notin forms
Apply(t) == /\ n >= 0 /\ n < MaxSteps /\ Sensible(t)
            /\ doc' = ApplyT(t, doc) /\ rd' = NextReading(rd, t) /\ forms' = NextForms(forms, t, doc)
            /\ approx' = (approx \/ (t.k = "uneval" /\ HasUneval(doc)))
            /\ n' = n + 1 /\ UNCHANGED orig
Next == Extend \/ \E t \in Ts : Apply(t)
Spec == Init /\ [][Next]_vars

Meaning == n > 0 => MeaningKept(D2020, orig, rd, doc, approx, Insts)
FormsHold == \A f \in forms : HasForm(f, doc)
Pipelines == n = 0 => \A x \in {"07", "2019", "2020", "oas"} :
    LET out == ApplyAll(PipelineOf[x], orig, 1) IN
    /\ \A f \in FormsOf[x] : HasForm(f, out)
    /\ MeaningKept(D2020, orig, ReadingOf[x], out, "uneval" \in FormsOf[x] /\ HasUneval(orig), Insts)
Idempotent == n >= 0 => \A t \in Ts : LET x == ApplyT(t, doc) IN ApplyT(t, x) = x
Frame == n >= 0 => \A t \in Ts : Framed(t, doc, ApplyT(t, doc))
(* C06: a recursive marker marks every schema position exactly once and changes nothing else *)
CountMarks(s) == Cardinality({p \in SubPaths(s) : Has(At2(s, p), MarkKey)})
Visits == n = 0 =>
          /\ Everywhere(LAMBDA x : Has(x, MarkKey), TVisit(orig))
          /\ CountMarks(TVisit1(orig)) = Cardinality(SubPaths(orig)) /\ ~Has(TVisit1(orig), MarkKey)
          /\ Everywhere(LAMBDA x : ~Has(x, MarkKey), orig)
          /\ Framed([k |-> "visit"], orig, TVisit(orig)) /\ Framed([k |-> "visit1"], orig, TVisit1(orig))
=============================================================================
