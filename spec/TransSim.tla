------------------------------ MODULE TransSim ------------------------------
(* Cases for the real transforms: a document and a sequence of transforms,  *)
(* or a document generated under one of the built-in settings.              *)
EXTENDS SchemaGen
CONSTANTS Mode, Depth     \* "meaning", "visit", "formats", "pipeline"
VARIABLES doc, defs, ts, phase
vars == <<doc, defs, ts, phase>>

RandT(i) ==
    LET k == R({"bool", "ref", "example", "const", "prefix", "null", "uneval"}) IN
    CASE k = "bool" -> [k |-> "bool", skip |-> Pct(60)]
      [] k = "null" -> [k |-> "null", rm |-> Pct(70), addc |-> Pct(70)]
      [] OTHER -> [k |-> k]
SetStr(S) == SetToSeq(S)
RandTs(z) ==
    CASE Mode = "visit" -> <<[k |-> R({"visit", "visit1"})]>>
      [] Mode = "formats" -> <<[k |-> "formats", infer |-> Pct(75), allowed |-> SetStr(RandomSubset(R(0..2), SomeFormats))]>>
      [] Mode = "pipeline" -> <<>>
      [] OTHER -> IF Pct(30) THEN PipelineOf[R({"07", "2019", "oas"})] ELSE [i \in 1..R(1..3) |-> RandT(i)]
St0 == CASE Mode = "visit" -> "raw" [] Mode = "formats" -> "formats" [] OTHER -> "plain"
Dialect(z) == R({"07", "2019", "2020", "oas"})

Init == doc = EmptyObj /\ defs = <<"", EmptyObj>> /\ ts = <<>> /\ phase = "defs"
(* definitions: D refers to nothing, E may refer to D; the document may refer to both *)
DefPath(x) == IF x = "" THEN "/$defs" ELSE PathOf[x]
MkDefs == /\ phase = "defs"
          /\ \E x \in {IF Mode = "pipeline" THEN Dialect(phase) ELSE ""} :
             \E d \in {RS(1, {}, St0)} : \E e \in {RS(1, {"#" \o DefPath(x) \o "/D"}, St0)} :
                defs' = <<x, Obj(("D" :> d) @@ ("E" :> e))>>
          /\ phase' = "doc" /\ UNCHANGED <<doc, ts>>
MkDoc == /\ phase = "doc"
         /\ \E d \in {IF Mode = "formats" /\ Pct(70) THEN RFm(Depth) ELSE RS(Depth, {"#" \o DefPath(defs[1]) \o "/" \o n : n \in {"D", "E"}}, St0)} :
              doc' = IF IsBool(d) \/ Mode = "pipeline" THEN d ELSE With(d, "$defs", defs[2])
         /\ phase' = "ts" /\ UNCHANGED <<defs, ts>>
MkTs == /\ phase = "ts" /\ (\E x \in {RandTs(doc)} : ts' = x) /\ phase' = "emit" /\ UNCHANGED <<doc, defs>>
Emit == /\ phase = "emit" /\ phase' = "end"
        /\ (Mode \in {"visit", "formats"} \/ (InDomain(doc) /\ InDomain(defs[2]))) =>
             PrintT("CASE " \o ToJson([mode |-> Mode, doc |-> doc, defs |-> defs[2], dialect |-> defs[1], ts |-> ts]))
        /\ UNCHANGED <<doc, defs, ts>>
Next == MkDefs \/ MkDoc \/ MkTs \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
