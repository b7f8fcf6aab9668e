----------------------------- MODULE TransTrace -----------------------------
(* Recorded applications of the real transforms, checked step by step.      *)
EXTENDS Transforms, IOUtils, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, cur, rd, forms, approx, sens
vars == <<c, l, cur, rd, forms, approx, sens>>

Case == Trace[c]
Ev == Case.events
Init == /\ c \in 1..Len(Trace) /\ l = 1
        /\ cur = Trace[c].doc /\ rd = D2020 /\ forms = {} /\ approx = FALSE /\ sens = TRUE

BaseInsts == { Null, True, Nu(0), Nu(1), Dec(FALSE, "1", "5"), Str(""), Str("a"), Str("ab"), Arr(<<>>), Arr(<<Null>>), Arr(<<Nu(0), Str("x")>>),
               Arr(<<Nu(1), Null>>), Arr(<<True, True, True>>), EmptyObj, Obj1("a", Null), Obj1("a", Nu(0)), Obj1("b", Str("a")), Obj1("z", Nu(1)),
               Obj(("a" :> Nu(1)) @@ ("b" :> Null)), Obj(("c" :> Arr(<<>>)) @@ ("items" :> True) @@ ("z" :> EmptyObj)), Obj1("const", Nu(1)),
               Obj(("a" :> EmptyObj) @@ ("type" :> Str("a"))) }
(* values the document itself mentions *)
RECURSIVE Mentioned(_)
Mentioned(s) == (IF Has(s, "const") THEN {Get(s, "const")} ELSE {}) \cup (IF ArrKw(s, "enum") THEN Elems(Get(s, "enum")) ELSE {})
                \cup UNION {Mentioned(x) : x \in Children(s)}
InstsFor(s) == LET m == Mentioned(s) IN BaseInsts \cup m \cup {Obj1("a", x) : x \in m} \cup {Arr(<<x>>) : x \in m}

Sensible(t) == /\ (t.k = "null" /\ t.addc) => "const" \notin forms
               /\ t.k = "uneval" => "ref" \notin forms

RECURSIVE Strip(_)
StripHere(s) == IF Has(s, MarkKey) THEN With(s, MarkKey, Null) ELSE s
Strip(s) == MapSubschemas(Strip, StripHere(s))
RECURSIVE MarksIn(_)
MarkOf(s) == ToNat(Get(s, MarkKey)[3])
MarksIn(s) == (IF Has(s, MarkKey) THEN <<MarkOf(s)>> ELSE <<>>)
              \o FlattenSeq([i \in 1..Cardinality(SubPaths(s)) |-> MarksIn(At2(s, SetToSeq(SubPaths(s))[i]))])
ParentFirst(s) == Everywhere(LAMBDA x : Has(x, MarkKey) => \A y \in Children(x) : Has(y, MarkKey) => MarkOf(x) < MarkOf(y), s)
C06(e) == LET exp == ApplyT(e.t, cur) IN
          \/ Strip(e.out) # exp
          \/ LET m == MarksIn(e.out) IN Len(m) # e.calls \/ Cardinality(SeqSet(m)) # Len(m)
          \/ e.t.k = "visit" /\ ~ParentFirst(e.out)

(* C09 stated position by position: metas is the stack of declared meta-schemas on the way down *)
RECURSIVE FormatsOk(_, _, _, _, _)
FormatsOk(infer, allowed, inforce, s, s2) ==
    IF ~IsObj(s) THEN s2 = s
    ELSE /\ IsObj(s2)
         /\ LET decl == IF infer /\ Has(s, "$schema") THEN {Get(s, "$schema")[2]} ELSE inforce IN
            IF infer /\ Has(s, "$schema") /\ Get(s, "$schema")[2] \notin KnownMeta THEN s2 = s
            ELSE /\ Has(s2, "format") = (Has(s, "format") /\ (Get(s, "format")[2] \in allowed
                                                              \/ \E u \in decl : Get(s, "format")[2] \in FormatsDefined(u)))
                 /\ Has(s2, "format") => Get(s2, "format") = Get(s, "format")
                 /\ SubPaths(s) = SubPaths(s2)
                 /\ \A p \in SubPaths(s) : FormatsOk(infer, allowed, decl, At2(s, p), At2(s2, p))
C09(e) == \/ ~FormatsOk(e.t.infer, SetOf(e.t.allowed), {}, cur, e.out)
          \/ ~Framed(e.t, cur, e.out) \/ e.out # ApplyT(e.t, cur) \/ e.again # e.out

C08(e) == \/ e.out # ApplyT(e.t, cur) \/ e.again # e.out \/ ~Framed(e.t, cur, e.out)
          \/ (l = Len(Ev) /\ sens /\ Sensible(e.t) /\ ~LossyUneval(Case.doc)
              /\ ~MeaningKept(D2020, Case.doc, NextReading(rd, e.t), e.out, approx \/ (e.t.k = "uneval" /\ HasUneval(cur)), InstsFor(Case.doc)))
(* recorded finding: names evaluated through $ref or a nested pattern/catch-all are lost *)
C08Known(e) == l = Len(Ev) /\ sens /\ Sensible(e.t) /\ LossyUneval(Case.doc) /\ Monotone(Case.doc)
               /\ LosesInstance(D2020, Case.doc, NextReading(rd, e.t), e.out, InstsFor(Case.doc))
C07Step(e) == \E f \in NextForms(forms, e.t, cur) : Sensible(e.t) /\ sens /\ ~HasForm(f, e.out)

(* a document generated under built-in settings *)
Dl == Case.dialect
RECURSIVE InsertPath(_, _, _)
InsertPath(obj, segs, x) == IF segs = <<>> THEN MergeObj(obj, x)
                            ELSE With(obj, segs[1], InsertPath(GetOr(obj, segs[1], EmptyObj), Tail(segs), x))
Untranslated == InsertPath(With(With(EnsureObj(Case.doc), "$schema", Str(MetaOf[Dl])), "title",
                                IF Has(Case.doc, "title") THEN Get(Case.doc, "title") ELSE Str("Raw")),
                           PointerSegs(PathOf[Dl])[2], Case.defs)
C07Doc(e) == \/ \E f \in FormsOf[Dl] : ~HasForm(f, e.out)
             \/ ~Has(e.out, "$schema") \/ Get(e.out, "$schema") # Str(MetaOf[Dl])
             \/ LET d == PointerLookup(e.out, PathOf[Dl]) IN ~d[1] \/ ~IsObj(d[2]) \/ ~(Keys(Case.defs) \subseteq Keys(d[2]))
C08Doc(e) == \/ e.out # ApplyAll(PipelineOf[Dl], Untranslated, 1)
             \/ ~LossyUneval(Untranslated)
                /\ ~MeaningKept(D2020, Untranslated, ReadingOf[Dl], e.out, "uneval" \in FormsOf[Dl] /\ HasUneval(Untranslated), InstsFor(Untranslated))

Problems(e) ==
    IF ~e.ok THEN (CASE Case.mode = "visit" -> {"C06"} [] Case.mode = "formats" -> {"C09"} [] OTHER -> {"C07", "C08"})
    ELSE CASE Case.mode = "visit" -> IF C06(e) THEN {"C06"} ELSE {}
           [] Case.mode = "formats" -> IF C09(e) THEN {"C09"} ELSE {}
           [] Case.mode = "pipeline" -> (IF C07Doc(e) THEN {"C07"} ELSE {}) \cup (IF C08Doc(e) THEN {"C08"} ELSE {})
           [] OTHER -> (IF C08(e) THEN {"C08"} ELSE {}) \cup (IF C07Step(e) THEN {"C07"} ELSE {})
                       \cup (IF ~C08(e) /\ C08Known(e) THEN {"K:C08:lossy-unevaluated"} ELSE {})

Consume ==
    /\ l <= Len(Ev)
    /\ LET e == Ev[l]  ps == Problems(e)  hard == {p \in ps : ~StartsWith(p, "K:")} IN
       /\ (ps # {} => /\ PrintT("REJECT " \o ToJson([case |-> c, event |-> l, props |-> ps]))
                      /\ PrintT("EXPECT " \o ToJson([case |-> c, event |-> l,
                            out |-> IF Case.mode = "pipeline" THEN ApplyAll(PipelineOf[Dl], Untranslated, 1) ELSE ApplyT(e.t, cur)])))
       /\ IF hard # {} THEN l' = Len(Ev) + 2 /\ UNCHANGED <<cur, rd, forms, approx, sens>>
          ELSE /\ l' = l + 1 /\ cur' = e.out
               /\ (IF Case.mode = "meaning"
                   THEN /\ rd' = NextReading(rd, e.t) /\ forms' = NextForms(forms, e.t, cur) /\ sens' = (sens /\ Sensible(e.t))
                        /\ approx' = (approx \/ (e.t.k = "uneval" /\ HasUneval(cur)))
                   ELSE UNCHANGED <<rd, forms, approx, sens>>)
               /\ (l = Len(Ev) => PrintT("DONE " \o ToString(c)))
    /\ UNCHANGED c
Spec == Init /\ [][Consume]_vars
=============================================================================
