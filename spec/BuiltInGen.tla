----------------------------- MODULE BuiltInGen -----------------------------
(* Types to try and documents to try them on. *)
EXTENDS BuiltIn, Randomization, SequencesExt, Json
R(S) == RandomElement(S)
Pct(n) == R(1..100) <= n
L(n) == <<"leaf", n>>
----------------------------------------------------------------------------
(* What the Rust types allow *)
CopyLeaves == DOMAIN Ints \cup {"bool", "char", "f32", "f64", "unit"}
OrdLeaves == DOMAIN Ints \cup (FreeStr \ {"RcStr"}) \cup {"RcStr", "bool", "char", "unit", "Phantom", "IpAddr", "Ipv4Addr", "Ipv6Addr", "SocketAddr", "NaiveDate", "NaiveTime", "NaiveDateTime", "DateTimeUtc",
              "Version", "Uuid", "Url", "Decimal", "Bytes", "CString", "OsString", "Duration", "JDate", "Timestamp"}
KeyLeaves == (OrdLeaves \ {"unit", "Phantom", "Bytes", "CString", "OsString", "Duration"}) \cup {"Weekday"}
RECURSIVE Ordable(_), Clones(_)
Ordable(t) == CASE t[1] = "leaf" -> t[2] \in OrdLeaves
                [] t[1] = "opt" -> Ordable(t[2])
                [] t[1] = "w" -> t[2] \in {"Box", "Rc", "Arc", "Reverse", "Cow"} /\ Ordable(t[3])
                [] t[1] = "seq" -> t[2] # "BinaryHeap" /\ Ordable(t[3])
                [] t[1] = "set" -> t[2] = "BTreeSet"
                [] t[1] \in {"arr", "avec"} -> Ordable(t[3])
                [] t[1] = "tup" -> Len(t[2]) <= 12 /\ \A i \in 1..Len(t[2]) : Ordable(t[2][i])
                [] t[1] \in {"res", "either"} -> Ordable(t[2]) /\ Ordable(t[3])
                [] OTHER -> FALSE
Clones(t) == CASE t[1] = "leaf" -> t[2] \notin DOMAIN AtomicInts \cup {"AtomicBool"}
               [] t[1] \in {"opt", "bound"} -> Clones(t[2])
               [] t[1] = "w" -> t[2] \in {"Rc", "Arc", "RcWeak", "ArcWeak", "Cell"} \/ (t[2] \notin {"Mutex", "RwLock"} /\ Clones(t[3]))
               [] t[1] \in {"seq", "set", "arr", "avec", "range"} -> t[2] = "RcSlice" \/ Clones(t[3])
               [] t[1] = "map" -> Clones(t[4])
               [] t[1] = "tup" -> Len(t[2]) <= 12 /\ \A i \in 1..Len(t[2]) : Clones(t[2][i])
               [] t[1] \in {"res", "either"} -> Clones(t[2]) /\ Clones(t[3])
WKinds == {"Box", "Rc", "Arc", "Cow", "Cell", "RefCell", "Mutex", "RwLock", "Reverse", "RcWeak", "ArcWeak"}
SeqKinds == {"Vec", "VecDeque", "LinkedList", "BinaryHeap", "BoxSlice", "SmallVec", "RcSlice"}
SetKinds == {"BTreeSet", "HashSet", "IndexSet"}
MapKinds == {"BTreeMap", "HashMap", "IndexMap"}

(* One of everything *)
Ladder == <<"u8", "String", "bool", "i16", "f64", "char", "unit", "Uuid", "NonZeroU8", "i64", "Weekday", "u16", "Version", "NonZeroI8", "Ipv4Addr", "i8">>
BaseTypes == {L(n) : n \in Leaves} \cup {<<"opt", L(n)>> : n \in Leaves}
    \cup {<<"arr", n, L("u8")>> : n \in 0..32} \cup {<<"avec", n, L("bool")>> : n \in {0, 1, 5, 40}}
    \cup {<<"tup", [i \in 1..n |-> L(Ladder[i])]>> : n \in 1..16}
    \cup {<<"w", k, L("i8")>> : k \in WKinds} \cup {<<"w", k, L("OsString")>> : k \in {"Box", "Rc", "Arc", "Cow", "RefCell", "Mutex", "RwLock", "Reverse", "RcWeak", "ArcWeak"}}
    \cup {<<"w", "Wrapping", L(n)>> : n \in {"u8", "i64"}}
    \cup {<<"seq", k, L("u16")>> : k \in SeqKinds} \cup {<<"set", k, L("i16")>> : k \in SetKinds}
    \cup {<<"map", "BTreeMap", n, L("u8")>> : n \in KeyLeaves \ {"Weekday"}} \cup {<<"map", k, "Weekday", L("u8")>> : k \in {"HashMap", "IndexMap"}}
    \cup {<<"map", k, n, L("bool")>> : k \in MapKinds, n \in {"String", "i8"}}
    \cup {<<"res", L("u8"), L("String")>>, <<"bound", L("u8")>>, <<"range", "Range", L("i8")>>, <<"range", "RangeInclusive", L("f64")>>, <<"either", L("u8"), L("bool")>>}

Sensible(t) ==
    CASE t[1] = "w" -> (CASE t[2] = "Cell" -> t[3][1] = "leaf" /\ t[3][2] \in CopyLeaves
                          [] t[2] = "Wrapping" -> t[3][1] = "leaf" /\ t[3][2] \in {"u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"}
                          [] t[2] = "Cow" -> Clones(t[3]) [] OTHER -> TRUE)
      [] t[1] = "seq" -> t[2] = "BinaryHeap" => Ordable(t[3])
      [] t[1] = "set" -> Ordable(t[3])
      [] t[1] = "map" -> t[3] \in KeyLeaves /\ (t[3] = "Weekday" => t[2] # "BTreeMap")
      [] OTHER -> TRUE
RECURSIVE RTy(_), RTyOnce(_)
RTyOnce(d) ==
    IF d = 0 THEN L(R({x \in Leaves : d = 0})) ELSE
    LET a == TLCEval(RTy(d - 1))  b == TLCEval(RTy(R(0..(d - 1))))  k == R(1..14) IN
    CASE k \in 1..2 -> <<"opt", a>>
      [] k = 3 -> <<"w", R(WKinds), a>>
      [] k \in 4..5 -> <<"seq", R(SeqKinds), a>>
      [] k = 6 -> <<"set", R(SetKinds), a>>
      [] k \in 7..8 -> <<"map", R(MapKinds), R(KeyLeaves), a>>
      [] k = 9 -> <<"arr", R(1..4), a>>
      [] k = 10 -> IF Pct(50) THEN <<"avec", R(1..3), a>> ELSE <<"range", R({"Range", "RangeInclusive"}), a>>
      [] k = 11 -> <<"tup", <<a, b>> >>
      [] k = 12 -> IF Pct(50) THEN <<"tup", <<a, b, a>> >> ELSE <<"bound", a>>
      [] k = 13 -> <<"res", a, b>>
      [] k = 14 -> <<"either", b, a>>
RTy(d) == LET t == TLCEval(RTyOnce(d)) IN IF Sensible(t) THEN t ELSE RTy(d)

----------------------------------------------------------------------------
(* Documents *)
Nums == {Num(x) : x \in {"-129", "-128", "-1", "0", "1", "2", "127", "128", "255", "256", "-32769", "-32768", "32767", "32768", "65535", "65536", "-2147483649", "-2147483648",
         "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "-9223372036854775808", "18446744073709551615", "999999999", "1000000000"}}
        \cup {Dec(FALSE, "1", "5"), Dec(TRUE, "0", "5")}
Small == {Null, True, False, Str(""), Str("a"), Str("ab"), Arr(<<>>), Arr(<<Nu(1)>>), Arr(<<Str("a"), Null>>), EmptyObj, Obj1("a", Nu(1)), Obj1("Ok", Nu(1)), Obj(("Ok" :> Nu(1)) @@ ("Err" :> Nu(2)))}
Strs == {Str(x) : x \in UNION {StrVals[n] : n \in DOMAIN StrVals} \cup {"mon", "Monday", "1.2", "1.2.3.4", "01.2.3", "+1", "1E-20", "--1", "2024-02-30"}}
Arrs == {Arr(<<Nu(1), Nu(2)>>), Arr(<<Nu(0)>>), Arr(<<Nu(256)>>), Arr(<<Nu(65536)>>), Arr(<<Nu(255), Nu(255)>>), Arr(<<Nu(0 - 5), Num("999999999")>>), Arr(<<Nu(1), Num("1000000000")>>), Arr(<<Nu(1), Nu(0 - 1)>>), Arr(<<Nu(1), Nu(2), Nu(3)>>)}
Pairs(n) == {Obj((Secs(n)[1] :> a) @@ (Secs(n)[2] :> b)) : a \in {Nu(0), Nu(5), Nu(0 - 1), Num("18446744073709551615"), Str("1")}, b \in {Nu(0), Num("999999999"), Num("1000000000"), Num("4294967296")}}
            \cup {Obj1(Secs(n)[1], Nu(1)), Obj1(Secs(n)[2], Nu(1))}
OsDocs == {Obj1(k, a) : k \in {"Unix", "Windows"}, a \in {Arr(<<>>), Arr(<<Nu(65), Nu(0)>>), Arr(<<Nu(256)>>), Str("a")}}
Pool == Nums \cup Small \cup Strs \cup Arrs \cup Pairs("Duration") \cup Pairs("SystemTime") \cup OsDocs
LeafVals == [n \in Leaves |-> {v \in Pool : LeafWire("de", n, v)}]
KeyVals(n) == CASE n \in IntNames -> {x \in {"0", "1", "-1", "127", "-128", "255", "256"} : KeyWire(n, x)} [] n = "bool" -> {"true", "false"} [] OTHER -> StrVals[n]
OddKeys == {"", "a", "-1", "01", "1.5", "Mon", "monday", "1.2.3", "true", "-", "1e3", "999"}
MaxLen(t) == IF t[2] > 3 THEN t[2] ELSE 3
RECURSIVE GenDoc(_, _)
GenList(t, lo, hi) == LET n == TLCEval(R(lo..hi)) IN Arr(TLCEval([i \in 1..n |-> TLCEval(IF i = 0 THEN Null ELSE GenDoc(t, i))]))
GenDoc(t, z) ==
    CASE t[1] = "leaf" -> R({v \in LeafVals[t[2]] : z >= 0})
      [] t[1] = "opt" -> IF Pct(25) THEN Null ELSE GenDoc(t[2], z)
      [] t[1] = "w" -> IF t[2] \in {"RcWeak", "ArcWeak"} /\ Pct(20) THEN Null ELSE GenDoc(t[3], z)
      [] t[1] = "seq" -> GenList(t[3], 0, 3)
      [] t[1] = "set" -> LET l == TLCEval(GenList(t[3], 0, 3)) IN Arr(SetToSeq(SeqSet(l[2])))
      [] t[1] = "map" -> LET ks == TLCEval(RandomSubset(R({0, 1, IF Cardinality(KeyVals(t[3])) > 1 THEN 2 ELSE 1}), KeyVals(t[3]))) IN
                         Obj(TLCEval([k \in ks |-> TLCEval(IF k = "?" THEN Null ELSE GenDoc(t[4], z))]))
      [] t[1] = "arr" -> GenList(t[3], t[2], t[2])
      [] t[1] = "avec" -> GenList(t[3], 0, IF t[2] > 4 THEN 4 ELSE t[2])
      [] t[1] = "tup" -> Arr(TLCEval([i \in 1..Len(t[2]) |-> TLCEval(GenDoc(t[2][i], z))]))
      [] t[1] = "res" -> IF Pct(50) THEN Obj1("Ok", GenDoc(t[2], z)) ELSE Obj1("Err", GenDoc(t[3], z))
      [] t[1] = "bound" -> IF Pct(20) THEN Str("Unbounded") ELSE Obj1(R({"Included", "Excluded"}), GenDoc(t[2], z))
      [] t[1] = "range" -> LET a == TLCEval(GenDoc(t[3], z)) IN LET b == TLCEval(GenDoc(t[3], z)) IN Obj(("start" :> a) @@ ("end" :> b))
      [] t[1] = "either" -> IF Pct(50) THEN Obj1("Left", GenDoc(t[2], z)) ELSE Obj1("Right", GenDoc(t[3], z))
Dull == Nums \cup Small \cup Arrs
RECURSIVE Mut(_, _)
Mut(v, d) ==
    IF d > 0 /\ IsArr(v) /\ Len(v[2]) > 0 /\ Pct(75) THEN
        LET n == Len(v[2])  i == TLCEval(R(1..n))  k == R(1..10) IN
        CASE k <= 5 -> Arr(TLCEval([v[2] EXCEPT ![i] = Mut(v[2][i], d - 1)]))
          [] k = 6 -> Arr(Append(v[2], R({v[2][1], Null, Nu(1), Str("x")})))
          [] k = 7 -> Arr(SubSeq(v[2], 1, n - 1))
          [] k = 8 -> Arr(Append(v[2], v[2][i]))
          [] k = 9 -> Arr(Tail(v[2]))
          [] k = 10 -> Arr(Reverse(v[2]))
    ELSE IF d > 0 /\ IsObj(v) /\ Keys(v) # {} /\ Pct(75) THEN
        LET k == TLCEval(R(Keys(v)))  c == R(1..10) IN
        CASE c <= 5 -> With(v, k, Mut(Get(v, k), d - 1))
          [] c = 6 -> Without(v, k)
          [] c = 7 -> With(v, R(OddKeys), Get(v, k))
          [] c = 8 -> With(Without(v, k), R(OddKeys), Get(v, k))
          [] c = 9 -> With(v, R(OddKeys), R({x \in Dull : c = 9}))
          [] c = 10 -> With(Without(v, k), LET o == {"Left", "Right", "Ok", "Err", "start", "end", "Included", "Excluded"} IN R(o), Get(v, k))
    ELSE R({x \in IF IsStr(v) THEN Strs \cup Small ELSE Dull : d >= 0})
(* documents at the edges of a type *)
Plus(v, x) == Arr(Append(v[2], x))
Edges(t) ==
    LET g == TLCEval(GenDoc(t, 1)) IN
    CASE t[1] \in {"seq", "set"} -> LET x == TLCEval(GenDoc(t[3], 1)) IN {Arr(<<x, x>>), Obj1("0", x), x}
      [] t[1] = "arr" -> {TLCEval(GenList(t[3], t[2] + 1, t[2] + 1))} \cup (IF t[2] > 0 THEN {TLCEval(GenList(t[3], t[2] - 1, t[2] - 1))} ELSE {})
      [] t[1] = "avec" -> {TLCEval(GenList(t[3], t[2], t[2])), TLCEval(GenList(t[3], t[2] + 1, t[2] + 1))}
      [] t[1] = "tup" -> {Plus(g, Null), Plus(g, g[2][1]), Arr(SubSeq(g[2], 1, Len(g[2]) - 1)), Arr(Tail(g[2])), Arr(Reverse(g[2]))}
      [] t[1] = "map" -> LET x == TLCEval(GenDoc(t[4], 1)) IN {Obj1(k, x) : k \in OddKeys \cup KeyVals(t[3])} \cup {Obj1(k, Arr(<<Null>>)) : k \in KeyVals(t[3])}
      [] t[1] \in {"res", "either"} -> LET k == IF t[1] = "res" THEN <<"Ok", "Err">> ELSE <<"Left", "Right">>
                                           a == TLCEval(GenDoc(t[2], 1))  b == TLCEval(GenDoc(t[3], 1))
                                       IN {Obj1(k[1], a), Obj1(k[2], b), Obj1(k[1], b), Obj1(k[2], a), Obj((k[1] :> a) @@ (k[2] :> b)), Obj((k[1] :> a) @@ ("x" :> b)), a, EmptyObj}
      [] t[1] = "bound" -> LET a == TLCEval(GenDoc(t[2], 1)) IN {Obj1("Included", a), Obj1("Excluded", a), Str("Unbounded"), Obj1("Unbounded", Null), Str("Included"), Obj(("Included" :> a) @@ ("Excluded" :> a)), a, EmptyObj}
      [] t[1] = "range" -> {Without(g, "start"), Without(g, "end"), Arr(<<Get(g, "start"), Get(g, "end")>>), With(g, "x", Null)}
      [] OTHER -> {Null}
=============================================================================
