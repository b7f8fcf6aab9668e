------------------------------- MODULE GenSim -------------------------------
(* Behaviours of the generator specification, as cases to replay on the     *)
(* real generator.  Phase "build" draws a type graph and settings, phase    *)
(* "run" makes calls; a finished history is printed as one JSON line.       *)
EXTENDS Generator, Randomization
CONSTANTS MaxTypes, MaxOps, MaxCalls

VARIABLES phase, hist, size, cnt, style
svars == <<gvars, phase, hist, size, cnt, style>>

R(S) == RandomElement(S)
CommonNames == {"A", "B", "A2", "A3", "A22"}
OddNames == {"A", "a b", "x/y~z", "50%", "#", "tab\there", "q\"uote", ChrOf(233) \o "t" \o ChrOf(233), "", "A+B", "m%41", "a<b>", "List<A>", "nl\nx", "^|`{}"}
Pct(n) == R(1..100) <= n
RandomType(i, n, st) ==
    LET kind == IF Pct(12) THEN "fwd" ELSE IF Pct(IF st = "plain" THEN 16 ELSE 6) THEN R({"true", "false"}) ELSE "obj"
        nops == IF kind = "fwd" THEN 1 ELSE IF kind = "obj" THEN R(0..MaxOps) ELSE 0
    IN [name |-> R(IF st = "odd" THEN OddNames ELSE IF st = "clash" THEN CommonNames ELSE {"N" \o ToString(i), "A", "B"}),
        id |-> "T" \o ToString(i),
        inline |-> Pct(25),
        kind |-> kind,
        ops |-> [k \in 1..nops |-> [op |-> IF Pct(12) THEN "dir" ELSE IF kind = "obj" /\ st = "plain" /\ Pct(12) THEN "doc" ELSE "sub", to |-> R(1..n)]],
        title |-> IF kind = "obj" /\ Pct(15) THEN "Title " \o ToString(i) ELSE ""]
RandomTf(i) == [k |-> R({"mark", "rmark", "count"}), n |-> IF Pct(50) THEN i ELSE i + 10]
RandomSettings(st) ==
    [path |-> IF Pct(45) THEN "/$defs" ELSE R({"/definitions", "#/$defs/", "/components/schemas", "/a~1b/~0c", "/~01/~10", "/components/~01", "", "/", "#", "#/x-defs"}),
     meta |-> IF Pct(50) THEN "https://json-schema.org/draft/2020-12/schema" ELSE R({"", "http://example.com/m"}),
     inline |-> Pct(35),
     contract |-> R({"de", "ser"}),
     tf |-> IF Pct(50) THEN <<>> ELSE [i \in 1..R(1..3) |-> LET t == RandomTf(i) IN IF t.k = "count" THEN [t EXCEPT !.n = 0] ELSE t]]
NoCount(G) == \A i \in 1..Len(G.set.tf) : G.set.tf[i].k # "count"

Init == /\ graph = <<>> /\ gens = <<>> /\ stack = <<>> /\ call = <<>> /\ ret = NoRet /\ enters = <<>> /\ subs = <<>>
        /\ phase = "size" /\ hist = <<>> /\ size = 0 /\ cnt = 0 /\ style = ""
PickSize == /\ phase = "size" /\ (\E k \in {R(1..MaxTypes)} : size' = k) /\ phase' = "build"
            /\ (\E st \in {R({"odd", "clash", "plain"})} : style' = st)
            /\ UNCHANGED <<gvars, hist, cnt>>
Build == /\ phase = "build"
         /\ IF Len(graph) < size
            THEN /\ \E t \in {RandomType(Len(graph) + 1, size, style)} : graph' = Append(graph, t)
                 /\ UNCHANGED <<phase, gens, hist>>
            ELSE IF ~WellFormed(graph)
            THEN graph' = <<>> /\ UNCHANGED <<phase, gens, hist>>
            ELSE /\ \E s \in {RandomSettings(style)} : gens' = <<NewGen(s)>> /\ hist' = <<s>>
                 /\ phase' = "run" /\ UNCHANGED graph
         /\ UNCHANGED <<stack, call, ret, enters, subs, size, cnt, style>>
Live == {g \in 1..Len(gens) : gens[g].live}
RandomCall ==
    LET g == R(Live)
        k == R(1..100)
        t == R(1..Len(graph))
    IN IF k <= 33 THEN [op |-> "sub", g |-> g, t |-> t]
       ELSE IF k <= 62 THEN [op |-> "root", g |-> g, t |-> t]
       ELSE IF k <= 72 THEN [op |-> "into_root", g |-> g, t |-> t]
       ELSE IF k <= 82 THEN (IF Len(gens) < 3 THEN [op |-> "clone", g |-> g] ELSE [op |-> "sub", g |-> g, t |-> t])
       ELSE IF k <= 90 THEN [op |-> "take", g |-> g, apply |-> NoCount(gens[g]) /\ Pct(60)]
       ELSE IF k <= 92 THEN (IF DOMAIN gens[g].defs = {} THEN [op |-> "root", g |-> g, t |-> t] ELSE [op |-> "drop", g |-> g, name |-> R(DOMAIN gens[g].defs)])
       ELSE IF k <= 94 THEN [op |-> "macro", g |-> g, t |-> t]
       ELSE IF k <= 97 THEN [op |-> "value", g |-> g]
       ELSE [op |-> "into_value", g |-> g]
Run == /\ phase = "run" /\ Idle
       /\ IF cnt < MaxCalls /\ Live # {}
          THEN \E c \in {RandomCall} : Call(c) /\ hist' = Append(hist, c) /\ cnt' = cnt + 1 /\ UNCHANGED <<phase, size, style>>
          ELSE /\ PrintT("CASE " \o ToJson([types |-> graph, settings |-> hist[1], calls |-> Tail(hist)]))
               /\ phase' = "done" /\ UNCHANGED <<gvars, hist, size, cnt, style>>
DoStep == phase = "run" /\ Step /\ UNCHANGED <<phase, hist, size, cnt, style>>
Next == PickSize \/ Build \/ Run \/ DoStep
Spec == Init /\ [][Next]_svars
=============================================================================
