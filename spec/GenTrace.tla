------------------------------ MODULE GenTrace ------------------------------
(* Checks recorded histories of the real generator against Generator.       *)
(* One initial state per recorded case; the specification's own actions are *)
(* stepped for every recorded call and the results compared at its return.  *)
EXTENDS Generator, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES c, l, busy
tvars == <<gvars, c, l, busy>>

Ev == Trace[c].events
Init == /\ c \in 1..Len(Trace) /\ l = 1 /\ busy = FALSE
        /\ graph = Trace[c].types
        /\ gens = <<NewGen(Trace[c].settings)>>
        /\ stack = <<>> /\ call = <<>> /\ ret = NoRet /\ enters = <<>> /\ subs = <<>>

Begin == /\ ~busy /\ l <= Len(Ev)
         /\ busy' = TRUE /\ UNCHANGED <<c, l>>
         /\ Call(Ev[l].call)
Silent == busy /\ Step /\ UNCHANGED <<c, l, busy>>

----------------------------------------------------------------------------
CountIn(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
NoFwd == \A i \in 1..Len(graph) : graph[i].kind # "fwd"
NoFalse == \A i \in 1..Len(graph) : graph[i].kind # "false"
IsDocOp(o) == o \in {"root", "into_root", "macro"}
CallGen(e) == IF e.call.op = "macro" THEN Len(gens) ELSE e.call.g

(* The definition a "#" sits in, by its reference, and the root it was built under. *)
BuiltUnder(G, ref) == LET S == {n \in DOMAIN G.defroot : Get(RefTo(G, n), "$ref")[2] = ref} IN
                      IF S = {} THEN "?" ELSE G.defroot[CHOOSE n \in S : TRUE]
RefProblems(e) ==
    LET G == gens[CallGen(e)] IN
    IF IsDocOp(e.call.op) THEN DocProblems(G, e.res, e.call.t)
    ELSE IF e.call.op = "sub"
    THEN DocWalk(G, AddDefinitions(G, EmptyObj, e.gens[e.call.g].defs[2]), {<<e.res, e.call.t, "">>}, {}, {})
    ELSE {}
StaleKnown(e, p) ==
    LET G == gens[CallGen(e)]
        now == IF IsDocOp(e.call.op) THEN Uid(G, e.call.t) ELSE ""
        b == BuiltUnder(G, p[2])
    IN p[1] = "staleroot" /\ b \notin {"?", "", now}

DefsProblems(e, P(_, _, _)) ==    \* P(generator index, observed defs, model generator)
    \E i \in 1..Len(gens) : gens[i].live /\ i <= Len(e.gens) /\ e.gens[i].live /\ P(i, e.gens[i].defs, gens[i])

SameNames(e) == ~DefsProblems(e, LAMBDA i, o, G : Keys(o) # DOMAIN G.defs)

(* After the user has removed definitions, references to them dangle: only  *)
(* problems the specification's own document does not have count then.      *)
Dropped == \E i \in 1..l : Ev[i].call.op = "drop"
ModelProblems(e) ==
    LET G == gens[CallGen(e)] IN
    IF ~Dropped THEN {}
    ELSE IF IsDocOp(e.call.op) THEN DocProblems(G, ret, e.call.t)
    ELSE IF e.call.op = "sub" THEN DocWalk(G, AddDefinitions(G, EmptyObj, G.defs), {<<ret, e.call.t, "">>}, {}, {})
    ELSE {}
C01(e, rp) ==
    \/ {p \in rp \ ModelProblems(e) : ~StaleKnown(e, p)} # {}
    \/ \E i \in 1..Len(subs) : i <= Len(e.subs) /\ e.subs[i][1] = subs[i][1] /\ e.subs[i][2] = "#" /\ subs[i][2] # "#"
C01Known(e, rp) == \E p \in rp : StaleKnown(e, p)
C02(e) ==
    \/ \E i \in 1..Len(subs) : /\ i <= Len(e.subs) /\ e.subs[i][1] = subs[i][1]
                               /\ e.subs[i][2] \notin {"", "#"} /\ subs[i][2] \notin {"", "#"} /\ e.subs[i][2] # subs[i][2]
    \/ NoFwd /\ DefsProblems(e, LAMBDA i, o, G :
         \E n \in Keys(o) : Has(Get(o, n), "x-id") /\ Get(Get(o, n), "x-id")[2] \in DOMAIN G.idn
                            /\ G.idn[Get(Get(o, n), "x-id")[2]] # n)
    \/ NoFwd /\ DefsProblems(e, LAMBDA i, o, G :      \* one type under two names
         \E m, n \in Keys(o) : m # n /\ Has(Get(o, n), "x-id") /\ Has(Get(o, m), "x-id")
                               /\ Get(Get(o, n), "x-id") = Get(Get(o, m), "x-id"))
C03(e) ==
    \/ ~e.ok
    \/ DefsProblems(e, LAMBDA i, o, G : \E n \in Keys(o) :
         /\ Get(o, n) = False
         /\ (NoFalse \/ (n \in DOMAIN G.defs /\ G.defs[n] # False)))
    \/ DefsProblems(e, LAMBDA i, o, G : \E n \in Keys(o) \cap DOMAIN G.defs :
         \/ Has(G.defs[n], "properties") /\ ~(Has(Get(o, n), "properties")
                /\ Keys(Get(Get(o, n), "properties")) = Keys(Get(G.defs[n], "properties"))))
    \/ DefsProblems(e, LAMBDA i, o, G : \E n \in DOMAIN G.defs : n \notin Keys(o))
    \/ (~gens[CallGen(e)].set.inline /\ \E t \in 1..Len(graph) : ~graph[t].inline /\ CountIn(e.enters, t) > CountIn(enters, t))
    \/ (\E t \in 1..Len(graph) : CountIn(e.enters, t) > 4 * CountIn(enters, t) + 4)
Refness(s) == [i \in 1..(IF Len(s) > 300 THEN 300 ELSE Len(s)) |->   \* recordings stop at 300
                   <<s[i][1], s[i][2] # "", s[i][2] = "#">>]
C04(e) == Refness(e.subs) # Refness(subs)
RootKw == {"$schema", "title", "x-log", "x-count", "examples", "type"}
Residual(e) ==
    \/ e.res # ret
    \/ Len(e.gens) # Len(gens)
    \/ \E i \in 1..Len(gens) :
        \/ e.gens[i].live # gens[i].live
        \/ gens[i].live /\ (e.gens[i].defs # Obj(gens[i].defs)
                            \/ e.gens[i].set # [path |-> gens[i].set.path, meta |-> gens[i].set.meta, inline |-> gens[i].set.inline,
                                                contract |-> gens[i].set.contract, ntf |-> Len(gens[i].set.tf)])
C05(e, others) ==
    \/ (IsDocOp(e.call.op) \/ e.call.op \in {"value", "into_value"}) /\
         \E k \in RootKw : Has(e.res, k) # Has(ret, k) \/ (Has(ret, k) /\ Get(e.res, k) # Get(ret, k))
    \/ (others = {} /\ Residual(e))

Problems(e) ==
    IF ~e.ok THEN {"C01", "C03", "C05"}
    ELSE LET rp == RefProblems(e)
             a == (IF C01(e, rp) THEN {"C01"} ELSE {}) \cup (IF C02(e) THEN {"C02"} ELSE {})
                  \cup (IF C03(e) THEN {"C03"} ELSE {}) \cup (IF C04(e) THEN {"C04"} ELSE {})
         IN a \cup (IF C05(e, a) THEN {"C05"} ELSE {})
            \cup (IF C01Known(e, rp) THEN {"K:C01:stale-root-ref"} ELSE {})

Report(e, ps) ==
    /\ PrintT("REJECT " \o ToJson([case |-> c, event |-> l, props |-> ps]))
    /\ PrintT("EXPECT " \o ToJson([case |-> c, event |-> l, res |-> ret, enters |-> enters, subs |-> subs]))
Return ==
    /\ busy /\ Idle
    /\ LET e == Ev[l]
           ps == Problems(e)
           hard == {p \in ps : ~StartsWith(p, "K:")}
       IN /\ (ps # {} => Report(e, ps))
          /\ l' = IF hard = {} THEN l + 1 ELSE Len(Ev) + 2
          /\ (l = Len(Ev) /\ hard = {} => PrintT("DONE " \o ToString(c)))
    /\ busy' = FALSE
    /\ UNCHANGED <<gvars, c>>
Next == Begin \/ Silent \/ Return
Spec == Init /\ [][Next]_tvars
=============================================================================
