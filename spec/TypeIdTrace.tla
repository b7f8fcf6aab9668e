---------------------------- MODULE TypeIdTrace ----------------------------
(* Recorded types: identity, name, schema alone, and schemas of all of them *)
(* from one generator, asked for in either order.                           *)
EXTENDS TypeId, IOUtils, Json, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, done
Init == c \in 1..Len(Trace) /\ done = FALSE
E == Trace[c]
P == E.decls
X == E.exprs
N == Len(X)
Alone(i) == E.alone[i]
SameIJ(i, j) == Same(Alone(i).sub, Alone(i).defs, Alone(j).sub, Alone(j).defs, {})
(* who shares an identity is described alike *)
BadId == {<<"identity", i, j>> : i \in 1..N, j \in 1..N}
FaultId == {x \in BadId : x[2] < x[3] /\ Alone(x[2]).id = Alone(x[3]).id /\ ~(Alone(x[2]).name = Alone(x[3]).name /\ Alone(x[2]).inline = Alone(x[3]).inline /\ SameIJ(x[2], x[3]))}
(* in one document, everyone has what they have alone *)
FaultDoc == {<<"document", i, w>> : i \in {y \in 1..N : ~Same(Alone(y).sub, Alone(y).defs, E.all.subs[y], E.all.defs, {})}, w \in {1}}
       \cup {<<"document", i, w>> : i \in {y \in 1..N : ~Same(Alone(y).sub, Alone(y).defs, E.rev.subs[y], E.rev.defs, {})}, w \in {2}}
(* types that serialise alike share everything *)
FaultCanon == {x \in {<<"wrapper", i, j>> : i \in 1..N, j \in 1..N} : x[2] < x[3] /\ Canon(P, X[x[2]]) = Canon(P, X[x[3]])
                   /\ ~(Alone(x[2]).id = Alone(x[3]).id /\ Alone(x[2]).name = Alone(x[3]).name /\ Alone(x[2]).inline = Alone(x[3]).inline /\ SameIJ(x[2], x[3]))}
(* names *)
RECURSIVE Target(_)
Target(t) == IF t[1] = "d" /\ P[t[2]].kind = "transparent" THEN Target(FieldsOf(P, t)[1].ty) ELSE t
NamesOf(t) == [j \in 1..Len(t[3]) |-> IF \E i \in 1..N : X[i] = t[3][j] THEN Alone(CHOOSE i \in 1..N : X[i] = t[3][j]).name ELSE "?"]
FaultName == {<<"name", i>> : i \in {y \in 1..N : X[y][1] = "d" /\ P[X[y][2]].kind # "transparent" /\
                 LET D == P[X[y][2]]  a == NamesOf(X[y]) IN
                 (\A k \in 1..Len(D.ren) : D.ren[k][1] = "tp" => a[D.ren[k][2]] # "?") /\ Alone(y).name # NameOf(D, a, X[y][4])}}
(* a type has a definition of its own unless it is inlined, called as it is *)
FaultRef == {<<"reference", i>> : i \in {y \in 1..N : ~Alone(y).inline /\ LET r == RefName(Alone(y).sub) IN
                 ~(StartsWith(r, "#/$defs/") /\ LET d == FragDecode(DropN(r, Len("#/$defs/"))) IN d[1] /\ Unescape(d[2]) = Alone(y).name)}}
Faults == FaultId \cup FaultDoc \cup FaultCanon \cup FaultName \cup FaultRef

Next == /\ ~done /\ done' = TRUE /\ UNCHANGED c
        /\ LET b == TLCEval(Faults)
           IN IF b = {} THEN PrintT("DONE " \o ToString(c))
              ELSE PrintT("REJECT " \o ToJson([case |-> c, event |-> 1, props |-> IF E.pin = "" THEN {"C25"} ELSE {"K:C25:" \o E.pin}, f |-> CHOOSE x \in b : TRUE]))
Spec == Init /\ [][Next]_<<c, done>>
=============================================================================
