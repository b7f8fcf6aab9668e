---------------------------- MODULE SchemaObjSim ----------------------------
(* Random histories of operations, to replay on a real Schema.              *)
EXTENDS SchemaObj, Randomization
CONSTANTS MaxOps
VARIABLES s, hist, n, phase
vars == <<s, hist, n, phase>>
R(S) == RandomElement(S)
Pct(k) == R(1..100) <= k
Ks == {"a", "b", "", "not", "type", "a/b", "m~n", "~1", ChrOf(233), "$ref", "%25", "a b", "0", "01", "#", ChrOf(128640), "~0", "50%"}
Leaf == {Null, True, False, Nu(0), Nu(7), Dec(TRUE, "1", "5"), Str(""), Str("x"), Arr(<<>>), EmptyObj}
RECURSIVE RV(_)
RV(d) == IF d = 0 \/ Pct(45) THEN R(Leaf)
         ELSE IF Pct(40) THEN Arr([i \in 1..R(1..3) |-> RV(d - 1)])
         ELSE Obj([k \in RandomSubset(R(1..3), Ks) |-> RV(d - 1)])
ObjV(d) == Obj([k \in RandomSubset(R(0..4), Ks) |-> RV(d - 1)])
(* a pointer: a path that exists, possibly damaged, in plain or fragment form *)
RECURSIVE Walk(_, _)
Walk(v, d) == IF d = 0 \/ (~IsObj(v) /\ ~IsArr(v)) \/ Pct(25) THEN <<>>
              ELSE IF IsObj(v) THEN (IF Keys(v) = {} THEN <<>> ELSE LET k == R(Keys(v)) IN <<k>> \o Walk(v[2][k], d - 1))
              ELSE IF v[2] = <<>> THEN <<>> ELSE LET i == R(1..Len(v[2])) IN <<ToString(i - 1)>> \o Walk(v[2][i], d - 1)
Esc(k) == EscapeSegFrom(k, 1)
(* one character of a fragment, sometimes escaped although it need not be *)
Lit(c) == IF Pct(30) /\ c \in DOMAIN ChTab.cp THEN PctCp(ChTab.cp[c]) ELSE c
RECURSIVE OverEsc(_, _)
OverEsc(t, i) == IF i > Len(t) THEN "" ELSE Lit(Ch(t, i)) \o OverEsc(t, i + 1)
Seg(form, k) == CASE form = "plain" -> Esc(k) [] form = "frag" -> EncodeName(k)
                  [] form = "over" -> LET e == EncodeName(k) IN IF HasChar(e, "%") THEN e ELSE OverEsc(e, 1)
                  [] OTHER -> k
Junk == {"/", "~", "/0", "%", "%2", "%zz", "%+1", "%C3", "%ff", "/-", "/00", "~2", "%2F", "x", "%C3%A9", "%c3%a9", "%F0%9F%9A%80", "%ED%A0%80", "%C0%AF", "%41", "%0", "%E0%80%AF", "%F4%90%80%80", "%7e1"}
RandPtr(v) == LET form == R({"plain", "frag", "over", "raw"})
                  w == Walk(v, 4)
                  body == IF w = <<>> THEN "" ELSE "/" \o Join([i \in 1..Len(w) |-> Seg(form, w[i])], "/")
                  hash == IF form = "plain" THEN Pct(15) ELSE IF form = "raw" THEN Pct(50) ELSE Pct(90)
              IN (IF hash THEN "#" ELSE "") \o body \o (IF Pct(25) THEN R(Junk) ELSE "")
RandInit(z) == LET k == R(1..10) IN
    CASE k <= 2 -> [k |-> "bool", b |-> Pct(50)]
      [] k <= 5 -> [k |-> "map", v |-> ObjV(3)]
      [] k <= 8 -> [k |-> "json", v |-> IF Pct(50) THEN RV(3) ELSE ObjV(3)]
      [] k = 9 -> [k |-> "default"]
      [] OTHER -> [k |-> "ref", s |-> R(Ks)]
RandOp(v) == LET k == R({"insert", "insert", "remove", "get", "getmut", "ensure", "objmut", "pointer", "pointer2", "pointer3", "pointermut", "pointermut2"})
                 key == IF IsObj(v) /\ Keys(v) # {} /\ Pct(60) THEN R(Keys(v)) ELSE R(Ks)
                 p == RandPtr(v) IN
    CASE k \in {"insert", "getmut", "objmut"} -> [k |-> k, key |-> key, v |-> RV(2)]
      [] k \in {"remove", "get"} -> [k |-> k, key |-> key]
      [] k = "ensure" -> IF Pct(50) THEN [k |-> "ensure"] ELSE [k |-> "get", key |-> key]
      [] k \in {"pointer", "pointer2", "pointer3"} -> [k |-> "pointer", p |-> p]
      [] OTHER -> IF IsRootPointer(p) THEN [k |-> "pointermut", p |-> p, v |-> ObjV(2)] ELSE [k |-> "pointermut", p |-> p, v |-> RV(2)]
Init == s = <<>> /\ hist = <<>> /\ n = 0 /\ phase = "init"
Start == /\ phase = "init" /\ n' = 0 /\ phase' = "run"
         /\ \E i \in {RandInit(n)} : hist' = <<i>> /\ s' = Build(i)
Step == /\ phase = "run" /\ UNCHANGED phase
        /\ n < MaxOps /\ s # None /\ n' = n + 1
        /\ \E o \in {RandOp(s[1])} : hist' = Append(hist, o) /\ s' = <<Do(o, s[1])[1]>>
Emit == /\ phase = "run" /\ (n = MaxOps \/ s = None) /\ phase' = "done" /\ UNCHANGED <<s, hist, n>>
        /\ PrintT("CASE " \o ToJson([init |-> hist[1], ops |-> Tail(hist)]))
Next == Start \/ Step \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
