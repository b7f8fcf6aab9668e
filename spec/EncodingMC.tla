----------------------------- MODULE EncodingMC -----------------------------
(* Encoding of definition names into references, for every short name over  *)
(* an alphabet with every character class.                                  *)
EXTENDS Uri, SequencesExt
CONSTANTS MaxLen
Alphabet == {"%", "~", "/", "0", "1", "2", "F", "g", " ", ChrOf(233), "?", "\t"}
(* The state holds positions in the alphabet: TLC's disk queue keeps only the low byte of a character. *)
AlphaSeq == SetToSeq(Alphabet)
VARIABLE ix
RECURSIVE Spell(_)
Spell(q) == IF q = <<>> THEN "" ELSE AlphaSeq[Head(q)] \o Spell(Tail(q))
name == Spell(ix)
Init == ix = <<>>
Next == Len(ix) < MaxLen /\ \E i \in 1..Len(AlphaSeq) : ix' = Append(ix, i)
Spec == Init /\ [][Next]_ix
Decoded(r) == LET d == FragDecode(r) IN IF d[1] THEN <<TRUE, Unescape(d[2])>> ELSE <<FALSE, "">>
RoundTrip == Decoded(EncodeName(name)) = <<TRUE, name>>      \* hence no two names share a reference
Fragment == ValidFragment(EncodeName(name)) /\ ~HasChar(EncodeName(name), "/")
Finds == ResolveRef(Obj(("$defs" :> Obj(name :> Nu(1)))), "#/$defs/" \o EncodeName(name)) = <<TRUE, Nu(1)>>
(* anything that is not "%" and two hex digits stands for itself *)
LiteralPercent == (\A i \in 1..Len(name) : Ch(name, i) = "%" => ~IsHexPair(name, i + 1)) => FragDecode(name) = <<TRUE, name>>
=============================================================================
