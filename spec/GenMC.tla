------------------------------- MODULE GenMC -------------------------------
(* Exhaustive exploration of the generator over all small type graphs and   *)
(* all short call histories.                                                *)
EXTENDS Generator
CONSTANTS NTypes, MaxOps, MaxCalls, Names, Paths, Inlines, WithDir

VARIABLE ncalls
mvars == <<gvars, ncalls>>

OpSet(n) == {[op |-> o, to |-> t] : o \in (IF WithDir THEN {"sub", "dir"} ELSE {"sub"}), t \in 1..n}
OpSeqs(n) == UNION {[1..k -> OpSet(n)] : k \in 0..MaxOps}
TypeSet(i, n) ==
    {[name |-> nm, id |-> "T" \o ToString(i), inline |-> inl, kind |-> "obj", ops |-> os, title |-> ""]
        : nm \in Names, inl \in BOOLEAN, os \in OpSeqs(n)}
    \cup {[name |-> nm, id |-> "T" \o ToString(i), inline |-> inl, kind |-> "fwd", ops |-> <<o>>, title |-> ""]
        : nm \in Names, inl \in BOOLEAN, o \in OpSet(n)}
Graphs == {g \in [1..NTypes -> UNION {TypeSet(i, NTypes) : i \in 1..NTypes}] :
             (\A i \in 1..NTypes : g[i].id = "T" \o ToString(i)) /\ WellFormed(g)}
Settings == {[path |-> p, meta |-> "", inline |-> inl, contract |-> "de", tf |-> <<>>] : p \in Paths, inl \in Inlines}

Init == /\ graph \in Graphs
        /\ \E s \in Settings : gens = <<NewGen(s)>>
        /\ stack = <<>> /\ call = <<>> /\ ret = NoRet /\ enters = <<>> /\ subs = <<>> /\ ncalls = 0
Calls == {[op |-> o, g |-> g, t |-> t] : o \in {"sub", "root", "into_root"}, g \in 1..Len(gens), t \in 1..NTypes}
         \cup {[op |-> "clone", g |-> g] : g \in IF Len(gens) < 2 THEN 1..Len(gens) ELSE {}}
         \cup {[op |-> "take", g |-> g, apply |-> FALSE] : g \in 1..Len(gens)}
DoCall == /\ ncalls < MaxCalls
          /\ \E c \in Calls : Call(c)
          /\ ncalls' = ncalls + 1
DoStep == Step /\ UNCHANGED ncalls
Next == DoCall \/ DoStep
Spec == Init /\ [][Next]_mvars /\ WF_mvars(DoStep)

----------------------------------------------------------------------------
IsRootCall == call # <<>> /\ call.op \in {"root", "into_root"}
(* C01.  "staleroot" is the recorded finding: a definition built while a    *)
(* type was the borrowed root says "#" and is reused under another root.    *)
RefsResolve == (Idle /\ IsRootCall) =>
    \A p \in DocProblems(gens[call.g], ret, call.t) : p[1] = "staleroot"
RefsResolveFresh == (Idle /\ IsRootCall /\ ncalls = 1) => DocProblems(gens[call.g], ret, call.t) = {}
(* C05 *)
RootComplete == (Idle /\ IsRootCall) =>
    /\ IsObj(ret) /\ Has(ret, "title")
    /\ DOMAIN gens[call.g].defs \subseteq Keys(DefsIn(gens[call.g], ret))
(* C02 *)
NamesInjective == \A i \in 1..Len(gens) : LET G == gens[i] IN
    /\ \A a, b \in DOMAIN G.idn : G.idn[a] = G.idn[b] => a = b
    /\ G.used = {G.idn[a] : a \in DOMAIN G.idn}
    /\ DOMAIN G.defs \subseteq G.used
NamesStable == [][\A i \in 1..Len(gens) : \A u \in DOMAIN gens[i].idn : gens'[i].idn[u] = gens[i].idn[u]]_mvars
CloneKeepsNames == [][\A i \in 1..Len(gens') : i > Len(gens) => gens'[i].idn = gens[call'.g].idn]_mvars
(* C03 *)
NoPlaceholderWhenIdle == Idle => \A i \in 1..Len(gens) : \A n \in DOMAIN gens[i].defs : gens[i].defs[n] # PLACEHOLDER
CleanWhenIdle == Idle => \A i \in 1..Len(gens) : gens[i].pend = {} /\ gens[i].roots = <<>>
PlaceholderIsRunning == \A i \in 1..Len(gens) : \A n \in DOMAIN gens[i].defs :
    gens[i].defs[n] = PLACEHOLDER => \E k \in 1..Len(stack) : stack[k].cont.k = "def" /\ stack[k].cont.name = n /\ stack[k].g = i
Referenceable(t) == ~graph[t].inline
(* running as root counts once more; bodies run directly are not requests *)
StackBounded == Len(stack) <= 3 * NTypes + 2
Terminates == [](~Idle => <>Idle)
(* C04 *)
InlineDecision == \A k \in 1..Len(subs) :
    LET t == subs[k][1]  G == gens[call.g] IN
    /\ (subs[k][3] => ~graph[t].inline)
    /\ (~G.set.inline /\ ~graph[t].inline) => subs[k][3]
    /\ subs[k][3] => subs[k][2] # ""
    /\ (subs[k][3] /\ subs[k][2] = "#") => IsRootCall
=============================================================================
