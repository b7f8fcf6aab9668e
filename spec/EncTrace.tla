------------------------------ MODULE EncTrace ------------------------------
EXTENDS Uri, SchemaObj, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, done
Init == c \in 1..Len(Trace) /\ done = FALSE
E == Trace[c]
N == Len(E.names)
StripPath(p) == LET a == IF StartsWith(p, "#") THEN DropN(p, 1) ELSE p
                IN IF EndsWith(a, "/") THEN SubSeq(a, 1, Len(a) - 1) ELSE a
Prefix == "#" \o StripPath(E.path) \o "/"
Tl(r) == DropN(r, Len(Prefix))
Distinct(k) == \A j \in 1..(k - 1) : E.names[j] # E.names[k]
IdOf(k) == Str("T" \o ToString(k))
C12 == \/ ~E.ok
       \/ \E k \in 1..N :
            LET r == E.refs[k] IN
            \/ ~StartsWith(r, Prefix) \/ ~ValidFragment(DropN(r, 1)) \/ HasChar(Tl(r), "/")
            \/ LET d == FragDecode(Tl(r)) IN
               \/ ~d[1]
               \/ (Distinct(k) /\ (\A j \in 1..N : j # k => ~StartsWith(E.names[k], E.names[j])) /\ Unescape(d[2]) # E.names[k])
               \/ ~Has(E.defs, Unescape(d[2])) \/ GetOr(Get(E.defs, Unescape(d[2])), "x-id", Null) # IdOf(k)
            \/ LET x == ResolveRef(E.doc, r) IN ~x[1] \/ GetOr(x[2], "x-id", Null) # IdOf(k)
            \/ E.found[k] # Some(IdOf(k)) \/ E.foundmut[k] # Some(IdOf(k))
            \/ \E j \in 1..N : j # k /\ E.refs[j] = r
            (* a map keyed by the type looks the reference up itself *)
            \/ E.mapkeys[k] # <<"k" \o ToString(k)>>
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED c
        /\ IF C12 THEN /\ PrintT("REJECT " \o ToJson([case |-> c, event |-> 1, props |-> {"C12"}]))
                       /\ PrintT("EXPECT " \o ToJson([case |-> c, event |-> 1, refs |-> [k \in 1..N |-> Prefix \o EncodeName(E.names[k])]]))
           ELSE PrintT("DONE " \o ToString(c))
Spec == Init /\ [][Next]_<<c, done>>
=============================================================================
