------------------------------- MODULE WrapMC -------------------------------
(* Design check of the two constructions over all small wrapped schemas.    *)
EXTENDS Wrappers
CONSTANTS Big
TyS == {Str("null"), Str("string"), Str("integer"), Arr(<<Str("string"), Str("null")>>), Arr(<<Str("integer"), Str("string")>>)}
Frags == {EmptyObj} \cup {Obj1("type", t) : t \in TyS}
         \cup {Obj1("const", x) : x \in {Null, Str("a"), Nu(1)}}
         \cup {Obj1("enum", Arr(l)) : l \in {<<Str("a")>>, <<Null>>, <<Nu(1), Null>>, <<Str("a"), Nu(1)>>}}
         \cup {Obj1("minimum", Nu(1)), Obj1("minLength", Nu(1)), Obj1("title", Str("T")), Obj1("required", StrArr(<<"a">>))}
S0 == {True, False} \cup {MergeObj(a, b) : a \in Frags, b \in Frags}
Few == {True, False, TypeNull, Obj1("type", Str("string")), Obj1("const", Null), Obj1("enum", Arr(<<Str("a"), Null>>)), Obj1("type", Arr(<<Str("string"), Str("null")>>))}
S1 == {Obj1(k, Arr(<<a, b>>)) : k \in {"anyOf", "allOf", "oneOf"}, a \in Few, b \in Few}
      \cup {Obj1("not", a) : a \in Few} \cup {Obj(("if" :> a) @@ ("then" :> b)) : a \in Few, b \in Few}
      \cup {Obj(("anyOf" :> Arr(<<a>>)) @@ ("type" :> Str("string"))) : a \in Few}
Vals == {Null, True, Str(""), Str("a"), Nu(0), Nu(1), EmptyObj, Obj1("a", Nu(1)), Arr(<<>>)}
KeySimple == {Obj1("type", Str("string")), Obj(("type" :> Str("string")) @@ ("pattern" :> Str("^a"))), Obj(("type" :> Str("string")) @@ ("enum" :> StrArr(<<"x", "7">>))),
              Obj1("type", Str("integer")), Obj(("type" :> Str("integer")) @@ ("minimum" :> Nu(0))), Obj(("type" :> Str("integer")) @@ ("minimum" :> Nu(0 - 128))),
              Obj1("type", Str("boolean")), Obj(("type" :> Str("string")) @@ ("const" :> Str("A"))), Obj(("type" :> Str("integer")) @@ ("minimum" :> Nu(1)))}
KeyS == KeySimple \cup {True} \cup {Obj1("anyOf", Arr(<<a, b>>)) : a \in KeySimple, b \in KeySimple}
        \cup (IF Big THEN {Obj1("anyOf", Arr(<<a, b, c>>)) : a \in KeySimple, b \in KeySimple, c \in KeySimple} ELSE {})
        \cup {Obj1("oneOf", Arr(<<a, b>>)) : a \in KeySimple, b \in KeySimple}
NamesToTry == {"", "a", "ab", "x", "7", "-7", "0", "true", "A", "1.5", "-"}
VARIABLES s, phase
Init == s = True /\ phase = "start"
Next == /\ phase = "start"
        /\ \/ phase' = "opt" /\ s' \in S0 \cup S1
           \/ phase' = "map" /\ s' \in KeyS
Spec == Init /\ [][Next]_<<s, phase>>
OptionOk == (phase = "opt" /\ ~KnownOpt(s, s)) => OptOk(AllowNull(s), s, Vals)
OptionIdem == (phase = "opt" /\ ~KnownOpt(s, s)) => \A v \in Vals : Accepts(D2020, AllowNull(AllowNull(s)), v) = Accepts(D2020, AllowNull(s), v)
MapsOk == phase = "map" => MapOk(MapSchema(s, Obj1("type", Str("string"))), s, Obj1("type", Str("string")), NamesToTry, {Str("v"), Nu(3)})
=============================================================================
