------------------------------ MODULE BuiltInMC ------------------------------
(* The schemas that schemars is specified to build admit what is written,   *)
(* and no more than they may, for all base types and compositions of a few. *)
EXTENDS BuiltInGen
CONSTANTS Deep
VARIABLES t, v, phase
Few == {L(n) : n \in {"u8", "NonZeroI8", "String", "char", "unit", "Weekday", "Decimal", "OsString", "TimeDelta"}}
Comp(x) == {<<"opt", x>>, <<"w", "RcWeak", x>>, <<"seq", "Vec", x>>, <<"set", "BTreeSet", x>>, <<"map", "BTreeMap", "i8", x>>, <<"map", "HashMap", "Weekday", x>>, <<"map", "BTreeMap", "Version", x>>,
            <<"arr", 2, x>>, <<"avec", 1, x>>, <<"tup", <<x, L("bool")>> >>, <<"res", x, L("u8")>>, <<"bound", x>>, <<"range", "Range", x>>, <<"either", L("String"), x>>}
Types2 == UNION {Comp(x) : x \in Few}
Types3 == UNION {Comp(x) : x \in {y \in Types2 : y[1] # "w" /\ (y[1] # "map" \/ y[3] = "i8")}}
Vals0 == {Null, True, Nu(0), Nu(1), Nu(256), Nu(0 - 1), Str("a"), Str("ab"), Str("Mon"), Str("1.5"), Obj1("Unix", Arr(<<Nu(1)>>))}
Vals1 == Vals0 \cup {Arr(<<>>), EmptyObj} \cup {Arr(<<x>>) : x \in Vals0} \cup {Arr(<<x, y>>) : x \in Vals0, y \in Vals0}
         \cup {Obj1(k, x) : k \in {"1", "-1", "Mon", "1.2.3", "Ok", "Err", "Included", "Left", "Right", "start"}, x \in Vals0}
         \cup {Obj(("start" :> x) @@ ("end" :> y)) : x \in Vals0, y \in Vals0} \cup {Str("Unbounded")}
Thin == {Null, Nu(1), Nu(256), Str("a"), Arr(<<>>), EmptyObj, Arr(<<Nu(1)>>), Arr(<<Nu(1), True>>), Arr(<<Nu(1), Nu(1)>>), Obj1("1", Nu(1)), Obj1("Mon", Nu(1)), Obj1("Ok", Nu(1)), Obj1("Left", Str("a")), Obj1("Included", Nu(1)), Str("Unbounded"),
         Obj(("start" :> Nu(1)) @@ ("end" :> Nu(2)))}
Vals2 == Thin \cup {Arr(<<x, y>>) : x \in Thin, y \in Thin} \cup {Obj1(k, x) : k \in {"1", "Mon", "Ok", "Err", "Included", "Right"}, x \in Thin} \cup {Obj(("start" :> x) @@ ("end" :> y)) : x \in Thin, y \in Thin}
Init == t = L("unit") /\ v = Null /\ phase = 0
Next == \/ phase = 0 /\ phase' = 1 /\ UNCHANGED v /\ t' \in BaseTypes
        \/ phase = 0 /\ phase' = 2 /\ UNCHANGED v /\ t' \in Types2
        \/ phase = 0 /\ Deep /\ phase' = 3 /\ UNCHANGED v /\ t' \in Types3
        \/ phase = 1 /\ phase' = 4 /\ UNCHANGED t /\ v' \in Pool
        \/ phase = 2 /\ phase' = 4 /\ UNCHANGED t /\ v' \in Vals1
        \/ phase = 3 /\ phase' = 4 /\ UNCHANGED t /\ v' \in Vals2
Spec == Init /\ [][Next]_<<t, v, phase>>
WireOk == phase = 4 => \A m \in {"ser", "de"} : Wire(m, t, v) => Accepts(D2020, SchemaOf(m, t), v)
UpperOk == phase = 4 => \A m \in {"ser", "de"} : Accepts(D2020, SchemaOf(m, t), v) => Upper_(m, t, v)
SerDe == phase = 4 => (Wire("ser", t, v) => Wire("de", t, v))
FormatsOk == (phase = 1 /\ t[1] = "leaf" /\ Has(SchemaOf("ser", t), "format")) => \A x \in LeafVals[t[2]] : FmtOk(Get(SchemaOf("ser", t), "format")[2], x)
=============================================================================
