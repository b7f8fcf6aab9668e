---------------------------- MODULE SchemaObjMC ----------------------------
(* Every short history of operations over a few keys and values.            *)
EXTENDS SchemaObj
CONSTANTS MaxOps
D == INSTANCE JsonSchema
VARIABLES s, prev, op, res, n
vars == <<s, prev, op, res, n>>
Keys3 == {"a", "not", "a/b"}
Vals == {Nu(1), False, Obj1("a", Nu(2)), Arr(<<Nu(1), EmptyObj>>)}
Ptrs == {"", "#", "/a", "#/a", "/a/0", "/a/01", "/a/1", "/a~1b", "#/a~1b", "#/a%7E1b", "#/%61", "/%61", "a", "/a/a", "#/a%2Fa", "#/%FF", "/not"}
Inits == {[k |-> "bool", b |-> b] : b \in BOOLEAN} \cup {[k |-> "json", v |-> v] : v \in Vals} \cup {[k |-> "default"], [k |-> "ref", s |-> "#/a"]}
Ops == {[k |-> "insert", key |-> k, v |-> v] : k \in Keys3, v \in Vals} \cup {[k |-> "remove", key |-> k] : k \in Keys3}
       \cup {[k |-> "get", key |-> k] : k \in Keys3} \cup {[k |-> "getmut", key |-> k, v |-> v] : k \in {"a"}, v \in Vals}
       \cup {[k |-> "objmut", key |-> "a", v |-> Nu(1)], [k |-> "ensure"]}
       \cup {[k |-> "pointer", p |-> p] : p \in Ptrs} \cup {[k |-> "pointermut", p |-> p, v |-> v] : p \in Ptrs \ {"", "#"}, v \in Vals}
Init == /\ \E i \in Inits : Build(i) # None /\ s = Build(i)[1]
        /\ prev = s /\ op = <<>> /\ res = None /\ n = 0
Next == /\ n < MaxOps /\ n' = n + 1 /\ prev' = s
        /\ \E o \in Ops : op' = o /\ LET r == Do(o, s) IN s' = r[1] /\ res' = r[2]
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
BoolOrObject == IsSchemaLike(s)
Is(k) == op # <<>> /\ op.k = k
Frame(k) == \A x \in (Keys(s) \cup Keys(prev)) \ {k} : Member(s, x) = Member(prev, x)
InsertIsWrite == Is("insert") =>
    /\ Get(s, op.key) = op.v
    /\ IsObj(prev) => Frame(op.key) /\ res = Member(prev, op.key)
    /\ prev = True => Keys(s) = {op.key} /\ res = None
    /\ (prev = False /\ op.key # "not") => \A v \in {Nu(1), EmptyObj, Null} : ~D!Accepts(D!D2020, s, v)
RemoveIsErase == Is("remove") => /\ Member(s, op.key) = None /\ res = Member(prev, op.key)
                                 /\ IsObj(prev) => Frame(op.key)
                                 /\ IsBool(prev) => s = prev
ReadsOnly == (Is("get") \/ Is("pointer")) => s = prev
BoolFindsNothing == (IsBool(prev) /\ op # <<>> /\ op.k \in {"get", "getmut", "pointer", "pointermut", "remove", "objmut"}) => res = None /\ s = prev
WritesOnlyExisting == (Is("getmut") \/ Is("pointermut")) => (res = None => s = prev)
PointerWriteRead == (Is("pointermut") /\ res # None) => SchemaPointer(s, op.p) = Some(op.v)
(* enough of the grammar, stated by hand *)
PointerFacts ==
    LET d == Obj(("a" :> Arr(<<Nu(1), Nu(2)>>)) @@ ("a/b" :> Nu(3)) @@ ("m~n" :> Nu(4)) @@ ("%61" :> Nu(5)) @@ ("" :> Nu(6)) @@ ("~1" :> Nu(7))) IN
    /\ SchemaPointer(d, "/a/1") = Some(Nu(2)) /\ SchemaPointer(d, "/a/01") = None /\ SchemaPointer(d, "/a/2") = None /\ SchemaPointer(d, "/a/-") = None
    /\ SchemaPointer(d, "/a~1b") = Some(Nu(3)) /\ SchemaPointer(d, "/m~0n") = Some(Nu(4)) /\ SchemaPointer(d, "/a/b") = None
    /\ SchemaPointer(d, "/%61") = Some(Nu(5)) /\ SchemaPointer(d, "#/%61/0") = Some(Nu(1)) /\ SchemaPointer(d, "/") = Some(Nu(6))
    /\ SchemaPointer(d, "/~01") = Some(Nu(7)) /\ SchemaPointer(d, "#/%7E01") = Some(Nu(7)) /\ SchemaPointer(d, "#") = Some(d) /\ SchemaPointer(d, "a") = None
=============================================================================
