------------------------------- MODULE EncSim -------------------------------
(* Random type names: references are generated for them by the real         *)
(* generator and followed again.                                            *)
EXTENDS Uri, Randomization
CONSTANTS Lo, Hi
VARIABLES i
R(S) == RandomElement(S)
Pct(k) == R(1..100) <= k
Odd == {"%", "~", "/", "#", "\"", "\\", "{", "}", "|", "^", "`", "<", ">", "[", "]", " ", "0", "1", "~0", "~1", "%2", "%41", "%", "+", "F", "f", "?", "&", ".", ":", "@", ","}
Piece(z) == LET k == R(1..100) IN
    IF k <= 45 THEN R(Odd) ELSE IF k <= 60 THEN R(LowerChars \cup UpperChars \cup DigitChars)
    ELSE IF k <= 75 THEN ChrOf(R(0..127)) ELSE IF k <= 92 THEN ChrOf(R(128..2047)) ELSE ChrOf(R({8364, 26085, 128640, 128512, 65533}))
RECURSIVE Nm(_)
Nm(n) == IF n = 0 THEN "" ELSE Piece(n) \o Nm(n - 1)
Path(z) == IF Pct(50) THEN "/$defs" ELSE R({"/definitions", "#/$defs/", "/components/schemas", "/a~1b/~0c", "", "/", "#"})
Init == i = Lo
Next == /\ i < Hi /\ i' = i + 1
        /\ \E names \in {[k \in 1..R(1..4) |-> Nm(R(0..6))]} : \E p \in {Path(i)} :
             PrintT("CASE " \o ToJson([names |-> IF Pct(5) THEN <<ChrOf(i % 2048)>> ELSE names, path |-> p]))
Spec == Init /\ [][Next]_i
=============================================================================
