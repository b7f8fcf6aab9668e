----------------------------- MODULE Generator -----------------------------
(* The schema generator: a state machine whose public calls may recurse     *)
(* through the types' own schema functions.  The recursion is explicit: a   *)
(* stack of frames, one per running type body, advanced by small steps, so  *)
(* that intermediate states (placeholders, pending types) are states here.  *)
(*                                                                          *)
(* A type:     [name, id, inline, kind, ops, title]                         *)
(*   kind "obj"  -> an object schema with one property per op               *)
(*        "fwd"  -> returns what its single op returns                      *)
(*        "true" / "false" -> a boolean schema                              *)
(*   op  [op |-> "sub"|"dir"|"doc", to]  reference a type / run its body    *)
(*        directly / embed a whole document of it (nested root_schema_for)  *)
(* A setting:  [path, meta, inline, contract, tf]                           *)
(*   tf: sequence of [k |-> "mark"|"rmark"|"count", n]                      *)
(* A generator: [set, defs, idn, used, pend, roots, live]                   *)
EXTENDS JsonVal, Uri, Traverse

VARIABLES graph,   \* sequence of types (fixed during a history)
          gens,    \* sequence of generators; clones are appended
          stack,   \* running bodies, innermost last
          call,    \* the public call in progress, or <<>>
          ret,     \* result of the last completed call
          enters,  \* types whose body was started during this call, in order
          subs     \* <<type, ref or "", made as a reference>> per completed reference request, in order
gvars == <<graph, gens, stack, call, ret, enters, subs>>

NoRet == <<"none">>
PLACEHOLDER == False

Uid(G, t) == graph[t].id \o "/" \o G.set.contract
NewGen(set) == [set |-> set, defs |-> EmptyFn, idn |-> [u \in {} |-> ""], used |-> {}, pend |-> {}, roots |-> <<>>,
                defroot |-> [n \in {} |-> ""], live |-> TRUE]

DefaultSettings == [path |-> "/$defs", meta |-> "https://json-schema.org/draft/2020-12/schema", inline |-> FALSE,
                    contract |-> "de", tf |-> <<>>]

(* ---- the definitions path ---- *)
StripPath(p) ==
    LET a == IF StartsWith(p, "#") THEN DropN(p, 1) ELSE p
    IN IF EndsWith(a, "/") THEN SubSeq(a, 1, Len(a) - 1) ELSE a
RefTo(G, name) == Obj1("$ref", Str("#" \o StripPath(G.set.path) \o "/" \o EncodeName(name)))
HashRef == Obj1("$ref", Str("#"))

RECURSIVE InsertAt(_, _, _)
InsertAt(obj, segs, members) ==      \* merge members into the object at segs, creating objects on the way
    IF segs = <<>> THEN MergeObj(obj, members)
    ELSE LET inner == GetOr(obj, segs[1], EmptyObj) IN With(obj, segs[1], InsertAt(inner, Tail(segs), members))
AddDefinitions(G, obj, defs) ==
    IF DOMAIN defs = {} THEN obj
    ELSE InsertAt(obj, PointerSegs(StripPath(G.set.path))[2], Obj(defs))

(* ---- names ---- *)
RECURSIVE Suffixed(_, _, _)
Suffixed(base, used, i) == IF (base \o ToString(i)) \in used THEN Suffixed(base, used, i + 1) ELSE base \o ToString(i)
FreshName(base, used) == IF base \in used THEN Suffixed(base, used, 2) ELSE base

(* ---- transforms used in settings: they only leave marks ---- *)
Ensure(s) == IF s[1] = "o" THEN s ELSE IF s[2] THEN EmptyObj ELSE Obj1("not", EmptyObj)
Mark(n, s) == LET o == Ensure(s) IN
              With(o, "x-log", Arr(Append(IF Has(o, "x-log") THEN Get(o, "x-log")[2] ELSE <<>>, Nu(n))))
RECURSIVE RMark(_, _)
RMark(n, s) == MapSubschemas(LAMBDA x : RMark(n, x), Mark(n, s))
ApplyTf(tf, s) == CASE tf.k = "mark" -> Mark(tf.n, s)
                    [] tf.k = "rmark" -> RMark(tf.n, s)
                    [] tf.k = "count" -> With(Ensure(s), "x-count", Nu(tf.n + 1))
AfterTf(tf) == IF tf.k = "count" THEN [tf EXCEPT !.n = @ + 1] ELSE tf
RECURSIVE ApplyTfs(_, _, _)
ApplyTfs(tfs, s, i) == IF i > Len(tfs) THEN s ELSE ApplyTfs(tfs, ApplyTf(tfs[i], s), i + 1)
AfterTfs(G) == [G EXCEPT !.set.tf = [i \in DOMAIN @ |-> AfterTf(@[i])]]

(* ---- assembling a root document ---- *)
Assemble(G, body, title, extra) ==
    LET o1 == Ensure(body)
        o2 == IF title = <<>> \/ Has(o1, "title") THEN o1 ELSE With(o1, "title", Str(title[1]))
        o3 == MergeObj(o2, extra)
        o4 == IF G.set.meta = "" THEN o3 ELSE With(o3, "$schema", Str(G.set.meta))
        o5 == AddDefinitions(G, o4, G.defs)
    IN ApplyTfs(G.set.tf, o5, 1)

(* ---- small steps; each yields [gens, stack, ret, enters, subs] ---- *)
St(gs, stk, r, en, sb) == [gens |-> gs, stack |-> stk, ret |-> r, enters |-> en, subs |-> sb]

PushFrame(st, g, t, track, cont) ==
    LET G == st.gens[g]  u == Uid(G, t)  add == track /\ u \notin G.pend IN
    [st EXCEPT !.gens[g].pend = IF track THEN @ \cup {u} ELSE @,
               !.stack = Append(@, [g |-> g, t |-> t, pc |-> 1, acc |-> <<>>, added |-> add, cont |-> cont]),
               !.enters = Append(@, t)]

RECURSIVE Deliver(_, _, _, _)
Deliver(st, g, schema, cont) ==
    CASE cont.k = "field" ->
            LET n == Len(st.stack) IN [st EXCEPT !.stack[n].acc = Append(@, schema), !.stack[n].pc = @ + 1]
      [] cont.k = "sub" ->     \* completes a reference request
            Deliver([st EXCEPT !.subs = Append(@, <<cont.t, IF Has(schema, "$ref") THEN Get(schema, "$ref")[2] ELSE "", cont.asref>>)],
                    g, schema, [k |-> cont.outer])
      [] cont.k = "top" -> [st EXCEPT !.ret = schema]
      [] cont.k = "def" ->
            Deliver([st EXCEPT !.gens[g].defs = [n \in DOMAIN @ \cup {cont.name} |-> IF n = cont.name THEN schema ELSE @[n]]],
                    g, cont.ref, [k |-> "sub", t |-> cont.t, asref |-> TRUE, outer |-> cont.outer])
      [] cont.k = "root" ->
            LET G == st.gens[g]
                doc == Assemble(G, schema, <<graph[cont.t].name>>, EmptyObj)
                G2 == [AfterTfs(G) EXCEPT !.roots = SubSeq(@, 1, Len(@) - 1), !.live = ~cont.consume]
                st2 == [st EXCEPT !.gens[g] = G2]
            IN IF cont.outer = "field" THEN Deliver(st2, g, Obj1("x-doc", doc), [k |-> "field"]) ELSE [st2 EXCEPT !.ret = doc]

SubBegin(st, g, t, outer) ==
    LET G == st.gens[g]
        u == Uid(G, t)
        wantRef == ~graph[t].inline /\ (~G.set.inline \/ u \in G.pend)
        isRoot == G.roots # <<>> /\ G.roots[Len(G.roots)] = u
        name == IF u \in DOMAIN G.idn THEN G.idn[u] ELSE FreshName(graph[t].name, G.used)
        G1 == [G EXCEPT !.idn = [x \in DOMAIN @ \cup {u} |-> IF x = u THEN name ELSE @[x]], !.used = @ \cup {name}]
    IN IF ~wantRef THEN PushFrame(st, g, t, TRUE, [k |-> "sub", t |-> t, asref |-> FALSE, outer |-> outer])
       ELSE IF isRoot THEN Deliver(st, g, HashRef, [k |-> "sub", t |-> t, asref |-> TRUE, outer |-> outer])
       ELSE IF name \in DOMAIN G.defs
            THEN Deliver([st EXCEPT !.gens[g] = G1], g, RefTo(G, name), [k |-> "sub", t |-> t, asref |-> TRUE, outer |-> outer])
       ELSE LET ctx == IF G.roots = <<>> THEN "" ELSE G.roots[Len(G.roots)]
                G2 == [G1 EXCEPT !.defs = [n \in DOMAIN @ \cup {name} |-> IF n = name THEN PLACEHOLDER ELSE @[n]],
                                 !.defroot = [n \in DOMAIN @ \cup {name} |-> IF n = name THEN ctx ELSE @[n]]]
            IN PushFrame([st EXCEPT !.gens[g] = G2], g, t, TRUE,
                         [k |-> "def", t |-> t, name |-> name, ref |-> RefTo(G, name), outer |-> outer])

PropName(i) == "p" \o ToString(i)
BodySchema(G, t, acc) ==
    LET T == graph[t] IN
    CASE T.kind = "fwd" -> acc[1]
      [] T.kind = "true" -> True
      [] T.kind = "false" -> False
      [] OTHER ->
         LET base == Obj(("x-id" :> Str(Uid(G, t)))
                         @@ ("properties" :> Obj([p \in {PropName(i) : i \in 1..Len(acc)} |->
                                acc[CHOOSE i \in 1..Len(acc) : PropName(i) = p]])))
         IN WithIf(base, T.title # "", "title", Str(T.title))

FrameStep(st) ==      \* advance the innermost body by one op, or finish it
    LET n == Len(st.stack)  f == st.stack[n]  T == graph[f.t]  G == st.gens[f.g] IN
    IF f.pc <= Len(T.ops)
    THEN LET o == T.ops[f.pc] IN
         IF o.op = "sub" THEN SubBegin(st, f.g, o.to, "field")
         ELSE IF o.op = "doc" THEN PushFrame([st EXCEPT !.gens[f.g].roots = Append(@, Uid(G, o.to))], f.g, o.to, TRUE,
                                             [k |-> "root", t |-> o.to, consume |-> FALSE, outer |-> "field"])
         ELSE PushFrame(st, f.g, o.to, FALSE, [k |-> "field"])
    ELSE LET s == BodySchema(G, f.t, f.acc)
             st1 == [st EXCEPT !.stack = SubSeq(@, 1, n - 1),
                               !.gens[f.g].pend = IF f.added THEN @ \ {Uid(G, f.t)} ELSE @]
         IN Deliver(st1, f.g, s, f.cont)

Current == St(gens, stack, ret, enters, subs)
Adopt(st) == gens' = st.gens /\ stack' = st.stack /\ ret' = st.ret /\ enters' = st.enters /\ subs' = st.subs

----------------------------------------------------------------------------
Idle == stack = <<>>
Fresh(gs) == St(gs, <<>>, NoRet, <<>>, <<>>)

(* c: [op |-> ..., g |-> generator index, t |-> type index, ...] *)
StartCall(c) ==
    LET G == gens[c.g] IN
    CASE c.op = "sub" -> SubBegin(Fresh(gens), c.g, c.t, "top")
      [] c.op \in {"root", "into_root"} ->
           PushFrame(Fresh([gens EXCEPT ![c.g].roots = Append(@, Uid(G, c.t))]), c.g, c.t, TRUE,
                     [k |-> "root", t |-> c.t, consume |-> c.op = "into_root", outer |-> "top"])
      [] c.op = "macro" ->     \* schema_for!: a new generator with the default settings, consumed
           LET n == Len(gens) + 1
               G1 == [NewGen(DefaultSettings) EXCEPT !.roots = <<Uid(NewGen(DefaultSettings), c.t)>>]
           IN PushFrame(Fresh(Append(gens, G1)), n, c.t, TRUE, [k |-> "root", t |-> c.t, consume |-> TRUE, outer |-> "top"])
      [] c.op = "clone" ->
           [Fresh(Append(gens, [G EXCEPT !.pend = {}, !.roots = <<>>])) EXCEPT !.ret = Null]
      [] c.op = "drop" ->      \* the user removes a definition through definitions_mut
           [Fresh([gens EXCEPT ![c.g].defs = [x \in DOMAIN @ \ {c.name} |-> @[x]]]) EXCEPT !.ret = Bool(c.name \in DOMAIN G.defs)]
      [] c.op = "take" ->
           [Fresh([gens EXCEPT ![c.g].defs = EmptyFn]) EXCEPT
              !.ret = Obj([n \in DOMAIN G.defs |-> IF c.apply THEN ApplyTfs(G.set.tf, G.defs[n], 1) ELSE G.defs[n]])]
      [] c.op \in {"value", "into_value"} ->
           [Fresh([gens EXCEPT ![c.g] = [AfterTfs(G) EXCEPT !.live = c.op = "value"]]) EXCEPT
              !.ret = Assemble(G, Obj1("type", Str("integer")), <<>>, Obj1("examples", Arr(<<Nu(7)>>)))]

Call(c) == /\ Idle /\ gens[c.g].live
           /\ call' = c /\ Adopt(StartCall(c)) /\ UNCHANGED graph
Step == /\ ~Idle
        /\ Adopt(FrameStep(Current)) /\ UNCHANGED <<graph, call>>

----------------------------------------------------------------------------
(* Well-formed type graphs: every cycle goes through a reference request to *)
(* a type that may be referenced, and forwarding chains are acyclic.        *)
DirectEdges(gr) ==   \* edges that re-run a body without being able to stop at a reference
    {<<a, b>> \in (1..Len(gr)) \X (1..Len(gr)) :
        \E i \in 1..Len(gr[a].ops) : gr[a].ops[i].to = b /\ (gr[a].ops[i].op # "sub" \/ gr[b].inline \/ gr[a].kind = "fwd")}
RECURSIVE ReachSet(_, _, _)
ReachSet(E, S, n) == IF n = 0 THEN S ELSE ReachSet(E, S \cup {e[2] : e \in {x \in E : x[1] \in S}}, n - 1)
WellFormed(gr) ==
    LET E == DirectEdges(gr) IN
    \A a \in 1..Len(gr) : a \notin ReachSet(E, {e[2] : e \in {x \in E : x[1] = a}}, Len(gr))

----------------------------------------------------------------------------
(* What a document must mean, independently of how it was produced.         *)
RECURSIVE Final(_)
Final(t) == IF graph[t].kind = "fwd" THEN Final(graph[t].ops[1].to) ELSE t

DefsIn(G, doc) == LET r == PointerLookup(doc, StripPath(G.set.path)) IN IF r[1] /\ IsObj(r[2]) THEN r[2] ELSE EmptyObj

(* todo: set of <<node, type, definition it sits in or "">>.  Result: set of problems. *)
NodeProblems(G, doc, node, t, where) ==
    LET f == Final(t)  T == graph[f] IN
    IF T.kind = "true" THEN (IF node = True \/ (IsObj(node) /\ ~Has(node, "not") /\ ~Has(node, "x-id")) THEN {} ELSE {<<"wrong", where, t>>})
    ELSE IF T.kind = "false" THEN (IF node = False \/ (Has(node, "not") /\ ~Has(node, "x-id")) THEN {} ELSE {<<"wrong", where, t>>})
    ELSE IF ~Has(node, "x-id") THEN {<<"wrong", where, t>>}
    ELSE IF Get(node, "x-id") # Str(Uid(G, f)) THEN {<<"wrong", where, t>>}
    ELSE IF Has(node, "properties") /\ Keys(Get(node, "properties")) = {PropName(i) : i \in 1..Len(T.ops)} THEN {}
    ELSE {<<"incomplete", where, t>>}

RECURSIVE Chase(_, _, _)
Chase(doc, node, n) ==      \* follow references to what they finally mean
    IF n = 0 \/ ~Has(node, "$ref") THEN node
    ELSE LET r == ResolveRef(doc, Get(node, "$ref")[2]) IN IF r[1] THEN Chase(doc, r[2], n - 1) ELSE node

RECURSIVE DocWalk(_, _, _, _, _)
DocWalk(G, doc, todo, seen, probs) ==
    IF todo = {} THEN probs
    ELSE LET x == CHOOSE x \in todo : TRUE
             rest == todo \ {x}
             node == x[1]  t == x[2]  where == x[3]
         IN IF Has(node, "$ref") THEN
              LET r == Get(node, "$ref")[2]  key == <<r, Final(t), IF r = "#" THEN where ELSE "">> IN
              IF key \in seen THEN DocWalk(G, doc, rest, seen, probs)
              ELSE LET res == ResolveRef(doc, r)
                       stale == r = "#" /\ where # "" IN
                   IF ~res[1] THEN DocWalk(G, doc, rest, seen \cup {key}, probs \cup {<<"dangling", where, t, r>>})
                   ELSE IF Cardinality(seen) > 400 THEN probs \cup {<<"loop", where, t, r>>}
                   ELSE IF stale /\ NodeProblems(G, doc, Chase(doc, res[2], 20), t, where) # {}
                   THEN DocWalk(G, doc, rest, seen \cup {key}, probs \cup {<<"staleroot", where, t>>})
                   ELSE DocWalk(G, doc, rest \cup {<<res[2], t, IF r = "#" THEN "" ELSE r>>}, seen \cup {key}, probs)
            ELSE LET p == NodeProblems(G, doc, node, t, where)
                     f == Final(t)
                     kids == IF p = {} /\ graph[f].kind = "obj"
                             THEN {<<Get(node, "properties")[2][PropName(i)], graph[f].ops[i].to, where>> :
                                        i \in {j \in 1..Len(graph[f].ops) : graph[f].ops[j].op # "doc"}}
                             ELSE {}
                 IN DocWalk(G, doc, rest \cup kids, seen, probs \cup p)
DocProblems(G, doc, t) == DocWalk(G, doc, {<<doc, t, "">>}, {}, {})
=============================================================================
