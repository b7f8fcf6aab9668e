------------------------------ MODULE RegexMC ------------------------------
(* The regular expression matcher against direct definitions of the         *)
(* languages that the patterns used by schemars stand for, on every string  *)
(* up to a length.                                                          *)
EXTENDS JsonSchema
CONSTANTS MaxLen
Alphabet == {"0", "1", "7", "-", ".", "e", "+", "a", "B"}
VARIABLES s
Init == s = ""
Next == Len(s) < MaxLen /\ \E c \in Alphabet : s' = s \o c
Spec == Init /\ [][Next]_s
Agree(p, def) == MatchesRegex(p, s) = def
Inv == /\ Agree("^\\d+$", AllDigits(s))
       /\ Agree("^-?\\d+$", IntStr(s))
       /\ Agree("^-?\\d+(\\.\\d+)?$", DecimalStr(s))
       /\ Agree("^-?\\d+(\\.\\d+)?([eE]\\d+)?$", DecimalExpStr(s))
       /\ Agree(SemverPat, SemverStr(s))
       /\ Agree("^a", StartsWith(s, "a")) /\ Agree("e$", EndsWith(s, "e")) /\ Agree(".", Len(s) > 0)
       /\ Agree("^[a-z]+$", AllIn(s, LowerChars)) /\ Agree("^[A-Z]", Len(s) > 0 /\ Ch(s, 1) \in UpperChars)
       /\ Agree("1.7", \E i \in 1..(Len(s) - 2) : Ch(s, i) = "1" /\ Ch(s, i + 2) = "7")
       /\ Agree("\\-\\.|\\+", Contains(s, "-.") \/ Contains(s, "+"))
       /\ Agree("^(?:a|e0){2,3}$", s \in {"aa", "ae0", "e0a", "e0e0", "aaa", "aae0", "ae0a", "e0aa", "ae0e0", "e0ae0", "e0e0a", "e0e0e0"})
       /\ Agree("^[^0-9a]*?\\.?$", LET b == IF EndsWith(s, ".") THEN SubSeq(s, 1, Len(s) - 1) ELSE s IN \A i \in 1..Len(b) : Ch(b, i) \notin DigitChars \cup {"a"})
       /\ Agree("(a*)*B", Contains(s, "B")) /\ Agree("", TRUE) /\ Agree("^$", s = "")
       /\ Agree("[.-]e|[+\\-]B", \E c \in {".", "-"} : Contains(s, c \o "e") \/ Contains(s, (IF c = "." THEN "+" ELSE c) \o "B"))
(* what is not understood is not taken for something else *)
ASSUME \A p \in {"(", ")", "[a", "a**", "*", "(?=a)", "\\b", "\\1", "a{2}{3}b+*", "\\"} : ~Wellformed(p)
=============================================================================
