------------------------------ MODULE Strings ------------------------------
(* Character-level helpers.  TLC evaluates Len, SubSeq and \o on strings.   *)
EXTENDS Naturals, Sequences, FiniteSets

Ch(s, i) == SubSeq(s, i, i)
StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
DropN(s, n) == SubSeq(s, n + 1, Len(s))
Chars(s) == [i \in 1..Len(s) |-> Ch(s, i)]
HasChar(s, c) == \E i \in 1..Len(s) : Ch(s, i) = c

RECURSIVE ConcatStr(_)
ConcatStr(ss) == IF ss = <<>> THEN "" ELSE Head(ss) \o ConcatStr(Tail(ss))

RECURSIVE JoinFrom(_, _, _)
JoinFrom(ss, sep, i) ==
    IF i > Len(ss) THEN ""
    ELSE IF i = Len(ss) THEN ss[i]
    ELSE ss[i] \o sep \o JoinFrom(ss, sep, i + 1)
Join(ss, sep) == JoinFrom(ss, sep, 1)

(* Split on a single-character separator; "" splits into <<"">>. *)
RECURSIVE SplitFrom(_, _, _, _)
SplitFrom(s, c, from, i) ==
    IF i > Len(s) THEN << SubSeq(s, from, Len(s)) >>
    ELSE IF Ch(s, i) = c THEN << SubSeq(s, from, i - 1) >> \o SplitFrom(s, c, i + 1, i + 1)
    ELSE SplitFrom(s, c, from, i + 1)
Split(s, c) == SplitFrom(s, c, 1, 1)

DIGITS == "0123456789"
DigitChars == {Ch(DIGITS, i) : i \in 1..10}
LOWER == "abcdefghijklmnopqrstuvwxyz"
UPPER == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LowerChars == {Ch(LOWER, i) : i \in 1..26}
UpperChars == {Ch(UPPER, i) : i \in 1..26}
ToUpperFn == [c \in LowerChars |-> LET i == CHOOSE i \in 1..26 : Ch(LOWER, i) = c IN Ch(UPPER, i)]
ToLowerFn == [c \in UpperChars |-> LET i == CHOOSE i \in 1..26 : Ch(UPPER, i) = c IN Ch(LOWER, i)]
UpCh(c) == IF c \in LowerChars THEN ToUpperFn[c] ELSE c
LoCh(c) == IF c \in UpperChars THEN ToLowerFn[c] ELSE c
RECURSIVE MapStr(_, _, _)
MapStr(F(_), s, i) == IF i > Len(s) THEN "" ELSE F(Ch(s, i)) \o MapStr(F, s, i + 1)
Upper(s) == MapStr(UpCh, s, 1)
Lower(s) == MapStr(LoCh, s, 1)

DigitVal == [c \in DigitChars |-> (CHOOSE i \in 1..10 : Ch(DIGITS, i) = c) - 1]
AllDigits(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : Ch(s, i) \in DigitChars
RECURSIVE ToNatFrom(_, _, _)
ToNatFrom(s, i, acc) == IF i > Len(s) THEN acc ELSE ToNatFrom(s, i + 1, acc * 10 + DigitVal[Ch(s, i)])
ToNat(s) == ToNatFrom(s, 1, 0)   \* only for short digit strings

(* Compare two digit strings of equal length lexicographically: -1, 0, 1. *)
RECURSIVE CmpDigits(_, _, _)
CmpDigits(a, b, i) ==
    IF i > Len(a) /\ i > Len(b) THEN 0
    ELSE LET x == IF i > Len(a) THEN 0 ELSE DigitVal[Ch(a, i)]
             y == IF i > Len(b) THEN 0 ELSE DigitVal[Ch(b, i)]
         IN IF x < y THEN 0 - 1 ELSE IF x > y THEN 1 ELSE CmpDigits(a, b, i + 1)
=============================================================================
