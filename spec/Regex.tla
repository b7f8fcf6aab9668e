------------------------------- MODULE Regex -------------------------------
(* Regular expressions of the kind JSON Schemas use (ECMA-262 without       *)
(* look-around, back references and Unicode properties).  A pattern matches *)
(* anywhere in a string unless anchored.                                    *)
(*   node: <<"eps">> <<"cls", neg, chars, ranges>> <<"bol">> <<"eol">>      *)
(*         <<"cat", a, b>> <<"alt", a, b>> <<"rep", a, lo, hi>> (hi -1 none)*)
EXTENDS Strings, Integers, TLC

ASCII == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
OrdTab == [c \in {Ch(ASCII, i) : i \in 1..Len(ASCII)} |-> CHOOSE i \in 1..Len(ASCII) : Ch(ASCII, i) = c]
InRange(c, lo, hi) == c \in DOMAIN OrdTab /\ lo \in DOMAIN OrdTab /\ hi \in DOMAIN OrdTab /\ OrdTab[lo] <= OrdTab[c] /\ OrdTab[c] <= OrdTab[hi]
WordChars == LowerChars \cup UpperChars \cup DigitChars \cup {"_"}
SpaceChars == {" ", "\t", "\n", "\r", "\f"}
Cls(neg, cs) == <<"cls", neg, cs, {}>>

Bad(p, i) == <<<<"bad">>, Len(p) + 2>>
(* what follows a backslash: a class, or the character itself *)
Escape(c) == CASE c = "d" -> Cls(FALSE, DigitChars) [] c = "D" -> Cls(TRUE, DigitChars)
               [] c = "w" -> Cls(FALSE, WordChars) [] c = "W" -> Cls(TRUE, WordChars)
               [] c = "s" -> Cls(FALSE, SpaceChars) [] c = "S" -> Cls(TRUE, SpaceChars)
               [] c = "n" -> Cls(FALSE, {"\n"}) [] c = "r" -> Cls(FALSE, {"\r"}) [] c = "t" -> Cls(FALSE, {"\t"}) [] c = "f" -> Cls(FALSE, {"\f"})
               [] c = "A" -> <<"bol">> [] c = "z" -> <<"eol">>
               [] c \in LowerChars \cup UpperChars \cup DigitChars -> <<"bad">>
               [] OTHER -> Cls(FALSE, {c})
(* the members of a bracket expression from i on: <<ok, chars, ranges, next>> *)
RECURSIVE Bracket(_, _, _, _, _)
Bracket(p, i, cs, rs, first) ==
    IF i > Len(p) THEN <<FALSE, cs, rs, i>>
    ELSE IF Ch(p, i) = "]" /\ ~first THEN <<TRUE, cs, rs, i + 1>>
    ELSE IF Ch(p, i) = "[" THEN <<FALSE, cs, rs, i>>
    ELSE LET esc == Ch(p, i) = "\\" /\ i < Len(p)
             e == IF esc THEN Escape(Ch(p, i + 1)) ELSE Cls(FALSE, {Ch(p, i)})
             n == IF esc THEN i + 2 ELSE i + 1
             one == e[1] = "cls" /\ ~e[2] /\ Cardinality(e[3]) = 1
             range == one /\ n < Len(p) /\ Ch(p, n) = "-" /\ Ch(p, n + 1) # "]"
             hiEsc == range /\ Ch(p, n + 1) = "\\"
         IN IF e[1] # "cls" \/ e[2] \/ (hiEsc /\ n + 2 > Len(p)) THEN <<FALSE, cs, rs, i>>
            ELSE IF range THEN Bracket(p, n + (IF hiEsc THEN 3 ELSE 2), cs, rs \cup {<<CHOOSE c \in e[3] : TRUE, Ch(p, n + (IF hiEsc THEN 2 ELSE 1))>>}, FALSE)
            ELSE Bracket(p, n, cs \cup e[3], rs, FALSE)
RECURSIVE DigitsEnd(_, _)
DigitsEnd(p, i) == IF i <= Len(p) /\ Ch(p, i) \in DigitChars THEN DigitsEnd(p, i + 1) ELSE i
(* a quantifier at i: <<lo, hi, next>>, <<1, 1, i>> if there is none *)
Quant(p, i) ==
    LET c == IF i <= Len(p) THEN Ch(p, i) ELSE ""
        a == DigitsEnd(p, i + 1)
        comma == a <= Len(p) /\ Ch(p, a) = ","
        b == IF comma THEN DigitsEnd(p, a + 1) ELSE a
    IN CASE c = "?" -> <<0, 1, i + 1>> [] c = "*" -> <<0, 0 - 1, i + 1>> [] c = "+" -> <<1, 0 - 1, i + 1>>
         [] c = "{" /\ a > i + 1 /\ b <= Len(p) /\ Ch(p, b) = "}" ->
              LET lo == ToNat(SubSeq(p, i + 1, a - 1)) IN
              <<lo, IF ~comma THEN lo ELSE IF b = a + 1 THEN 0 - 1 ELSE ToNat(SubSeq(p, a + 1, b - 1)), b + 1>>
         [] OTHER -> <<1, 1, i>>
RECURSIVE PAlt(_, _), PSeq(_, _), PAtom(_, _)
PAlt(p, i) ==
    LET l == PSeq(p, i) IN
    IF l[2] <= Len(p) /\ Ch(p, l[2]) = "|" THEN LET r == PAlt(p, l[2] + 1) IN <<<<"alt", l[1], r[1]>>, r[2]>> ELSE l
PSeq(p, i) ==
    IF i > Len(p) \/ Ch(p, i) \in {"|", ")"} THEN <<<<"eps">>, i>>
    ELSE LET a == PAtom(p, i)  q == Quant(p, a[2])
             n == IF q[3] > a[2] /\ q[3] <= Len(p) /\ Ch(p, q[3]) = "?" THEN q[3] + 1 ELSE q[3]
             x == IF q[3] = a[2] THEN a[1] ELSE <<"rep", a[1], q[1], q[2]>>
             r == PSeq(p, n)
         IN <<IF r[1] = <<"eps">> THEN x ELSE <<"cat", x, r[1]>>, r[2]>>
PAtom(p, i) ==
    LET c == Ch(p, i) IN
    CASE c = "(" -> LET nc == i + 2 <= Len(p) /\ SubSeq(p, i + 1, i + 2) = "?:"
                        look == ~nc /\ i < Len(p) /\ Ch(p, i + 1) = "?"
                        b == PAlt(p, IF nc THEN i + 3 ELSE i + 1)
                    IN IF look \/ b[2] > Len(p) \/ Ch(p, b[2]) # ")" THEN Bad(p, i) ELSE <<b[1], b[2] + 1>>
      [] c = "[" -> LET neg == i < Len(p) /\ Ch(p, i + 1) = "^"
                        b == Bracket(p, IF neg THEN i + 2 ELSE i + 1, {}, {}, FALSE)
                    IN IF b[1] THEN <<<<"cls", neg, b[2], b[3]>>, b[4]>> ELSE Bad(p, i)
      [] c = "." -> <<Cls(TRUE, {"\n", "\r"}), i + 1>>
      [] c = "^" -> <<<<"bol">>, i + 1>> [] c = "$" -> <<<<"eol">>, i + 1>>
      [] c = "\\" -> IF i = Len(p) THEN Bad(p, i) ELSE <<Escape(Ch(p, i + 1)), i + 2>>
      [] c \in {"*", "+", "?"} -> Bad(p, i)
      [] OTHER -> <<Cls(FALSE, {c}), i + 1>>
RECURSIVE Sound(_)
Sound(n) == CASE n[1] = "bad" -> FALSE [] n[1] \in {"cat", "alt"} -> Sound(n[2]) /\ Sound(n[3]) [] n[1] = "rep" -> Sound(n[2]) [] OTHER -> TRUE
(* <<ok, node>> *)
ParseRegex(p) == LET r == PAlt(p, 1) IN <<r[2] = Len(p) + 1 /\ Sound(r[1]), r[1]>>

InCls(n, c) == LET x == c \in n[3] \/ \E r \in n[4] : InRange(c, r[1], r[2]) IN IF n[2] THEN ~x ELSE x
(* The positions after a match of n in s that starts at one of the positions S *)
RECURSIVE Ends(_, _, _), Reps(_, _, _, _, _)
Ends(n, s, S) ==
    CASE n[1] = "eps" -> S
      [] n[1] = "cls" -> {i + 1 : i \in {i \in S : i <= Len(s) /\ InCls(n, Ch(s, i))}}
      [] n[1] = "bol" -> S \cap {1}
      [] n[1] = "eol" -> S \cap {Len(s) + 1}
      [] n[1] = "cat" -> LET T == Ends(n[2], s, S) IN IF T = {} THEN {} ELSE Ends(n[3], s, T)
      [] n[1] = "alt" -> Ends(n[2], s, S) \cup Ends(n[3], s, S)
      [] n[1] = "rep" -> Reps(n, s, S, {}, 0)
(* acc: ends after at least lo repetitions; S: ends after exactly k *)
Reps(n, s, S, acc, k) ==
    LET got == IF k >= n[3] THEN acc \cup S ELSE acc
        next == Ends(n[2], s, S)
    IN IF S = {} \/ (n[4] >= 0 /\ k >= n[4]) \/ (k >= n[3] /\ next \subseteq got) THEN got ELSE Reps(n, s, next, got, k + 1)
Finds(n, s) == Ends(n, s, 1..(Len(s) + 1)) # {}
Wellformed(p) == ParseRegex(p)[1]
MatchesRegex(p, s) == LET r == ParseRegex(p) IN IF r[1] THEN Finds(r[2], s) ELSE Assert(FALSE, <<"unsupported pattern", p>>)
=============================================================================
