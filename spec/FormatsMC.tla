----------------------------- MODULE FormatsMC -----------------------------
(* RestrictFormats on every small nesting of meta-schema declarations.      *)
EXTENDS Transforms
CONSTANTS Deep
VARIABLES doc, infer, allowed, ready
vars == <<doc, infer, allowed, ready>>
Metas == {EmptyObj, Obj1("$schema", Str(URI07)), Obj1("$schema", Str(URI2020)), Obj1("$schema", Str("http://unknown"))}
Fmts == {EmptyObj, Obj1("format", Str("uuid")), Obj1("format", Str("date")), Obj1("format", Str("custom"))}
Leafs == {MergeObj(m, f) : m \in Metas, f \in Fmts}
Wrap(k, x) == CASE k = "items" -> Obj1("items", x) [] k = "allOf" -> Obj1("allOf", Arr(<<True, x>>))
                [] k = "unev" -> Obj1("unevaluatedProperties", x)
                [] k = "properties" -> Obj1("properties", Obj1("format", x)) [] k = "default" -> Obj1("default", x)
Wraps == {"items", "allOf", "properties", "default", "unev"}
Mids == {MergeObj(MergeObj(m, f), Wrap(k, x)) : m \in Metas, f \in (IF Deep THEN Fmts ELSE {EmptyObj}), k \in Wraps, x \in Leafs}
Init == doc \in Leafs /\ infer \in BOOLEAN /\ allowed \in {{}, {"custom"}, {"uuid"}} /\ ready = 0
Next == /\ ready = 0 /\ ready' = 1 /\ UNCHANGED <<infer, allowed>>
        /\ \/ doc' \in {MergeObj(doc, Wrap(k, x)) : k \in {"items", "allOf"}, x \in Mids}
           \/ doc' \in {MergeObj(doc, MergeObj(Wrap("items", x), Wrap("unev", y))) : x, y \in Leafs}
Spec == Init /\ [][Next]_vars

(* Independent statement: walk down with the innermost declaration on the path. *)
RECURSIVE Ok(_, _, _)
Ok(s, s2, decl) ==
    IF ~IsObj(s) THEN s2 = s
    ELSE LET d == IF infer /\ Has(s, "$schema") THEN Get(s, "$schema")[2] ELSE decl IN
         IF d # "" /\ d \notin KnownMeta THEN s2 = s
         ELSE /\ Has(s2, "format") = (Has(s, "format") /\ (Get(s, "format")[2] \in allowed \/ (d # "" /\ Get(s, "format")[2] \in FormatsDefined(d))))
              /\ SubPaths(s2) = SubPaths(s)
              /\ \A p \in SubPaths(s) : Ok(At2(s, p), At2(s2, p), d)
Out == TFormats(infer, allowed, {}, doc)
Exact == Ok(doc, Out, "")
Frame == Framed([k |-> "formats"], doc, Out) /\ TFormats(infer, allowed, {}, Out) = Out
=============================================================================
