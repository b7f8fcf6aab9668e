-------------------------------- MODULE Uri --------------------------------
(* JSON pointers in URI-fragment representation (RFC 3986 s3.5, RFC 6901).  *)
EXTENDS JsonVal, Json

ChTab == JsonDeserialize("chars.json")
CodePoints == {ToString(i) : i \in 0..2047}
ChrOf(cp) == ChTab.ch[ToString(cp)]
HasChr(cp) == ToString(cp) \in DOMAIN ChTab.ch
HEX == "0123456789ABCDEF"
HexLower == "0123456789abcdef"
HexChars == {Ch(HEX, i) : i \in 1..16} \cup {Ch(HexLower, i) : i \in 1..16}
HexVal == [c \in HexChars |-> (CHOOSE i \in 1..16 : Ch(HEX, i) = c \/ Ch(HexLower, i) = c) - 1]
IsHexPair(s, i) == i + 1 <= Len(s) /\ Ch(s, i) \in HexChars /\ Ch(s, i + 1) \in HexChars
HexByte(s, i) == 16 * HexVal[Ch(s, i)] + HexVal[Ch(s, i + 1)]

(* fragment = *( pchar / "/" / "?" ) *)
FragmentPlain == LowerChars \cup UpperChars \cup DigitChars
                 \cup {"-", ".", "_", "~", "!", "$", "&", "'", "(", ")", "*", "+", ",", ";", "=", ":", "@", "/", "?"}
RECURSIVE ValidFragmentFrom(_, _)
ValidFragmentFrom(s, i) ==
    IF i > Len(s) THEN TRUE
    ELSE IF Ch(s, i) = "%" THEN IsHexPair(s, i + 1) /\ ValidFragmentFrom(s, i + 3)
    ELSE Ch(s, i) \in FragmentPlain /\ ValidFragmentFrom(s, i + 1)
ValidFragment(s) == ValidFragmentFrom(s, 1)

(* UTF-8: bytes needed after a lead byte, or -1. *)
Utf8Extra(b) == IF b < 128 THEN 0 ELSE IF b \in 194..223 THEN 1 ELSE IF b \in 224..239 THEN 2
                ELSE IF b \in 240..244 THEN 3 ELSE 0 - 1
Utf8Min(n) == CASE n = 0 -> 0 [] n = 1 -> 128 [] n = 2 -> 2048 [] n = 3 -> 65536      \* overlong forms are invalid
LeadBits(b) == IF b < 128 THEN b ELSE IF b < 224 THEN b - 192 ELSE IF b < 240 THEN b - 224 ELSE b - 240

(* Decode percent escapes; result <<ok, string>>.  Literal characters pass through. *)
RECURSIVE TakeCont(_, _, _, _)
TakeCont(s, i, n, acc) ==
    IF n = 0 THEN <<TRUE, acc, i>>
    ELSE IF i <= Len(s) /\ Ch(s, i) = "%" /\ IsHexPair(s, i + 1) /\ HexByte(s, i + 1) \in 128..191
         THEN TakeCont(s, i + 3, n - 1, acc * 64 + (HexByte(s, i + 1) - 128))
         ELSE <<FALSE, acc, i>>
RECURSIVE FragDecodeFrom(_, _, _)
FragDecodeFrom(s, i, acc) ==
    IF i > Len(s) THEN <<TRUE, acc>>
    ELSE IF Ch(s, i) = "%" /\ IsHexPair(s, i + 1) THEN
        LET b == HexByte(s, i + 1)  n == Utf8Extra(b) IN
        IF n = 0 - 1 THEN <<FALSE, acc>>
        ELSE LET r == TakeCont(s, i + 3, n, LeadBits(b)) IN
             IF r[1] /\ r[2] >= Utf8Min(n) /\ HasChr(r[2]) THEN FragDecodeFrom(s, r[3], acc \o ChrOf(r[2])) ELSE <<FALSE, acc>>
    ELSE FragDecodeFrom(s, i + 1, acc \o Ch(s, i))
FragDecode(s) == IF HasChar(s, "%") THEN FragDecodeFrom(s, 1, "") ELSE <<TRUE, s>>

(* UTF-8 bytes of a code point, percent-encoded in upper-case hex. *)
Hex2(b) == "%" \o Ch(HEX, (b \div 16) + 1) \o Ch(HEX, (b % 16) + 1)
PctCp(cp) ==
    IF cp < 128 THEN Hex2(cp)
    ELSE IF cp < 2048 THEN Hex2(192 + (cp \div 64)) \o Hex2(128 + (cp % 64))
    ELSE IF cp < 65536 THEN Hex2(224 + (cp \div 4096)) \o Hex2(128 + ((cp \div 64) % 64)) \o Hex2(128 + (cp % 64))
    ELSE Hex2(240 + (cp \div 262144)) \o Hex2(128 + ((cp \div 4096) % 64))
         \o Hex2(128 + ((cp \div 64) % 64)) \o Hex2(128 + (cp % 64))
(* Encode a definition name as one pointer segment of a fragment. *)
PlainInRef == FragmentPlain \ {"~", "/"}
RECURSIVE EncodeNameFrom(_, _)
EncodeNameFrom(s, i) ==     \* TLC strings are UTF-16: characters beyond the BMP take two places
    IF i > Len(s) THEN ""
    ELSE LET c == Ch(s, i) IN
         IF c = "~" THEN "~0" \o EncodeNameFrom(s, i + 1)
         ELSE IF c = "/" THEN "~1" \o EncodeNameFrom(s, i + 1)
         ELSE IF c \in PlainInRef THEN c \o EncodeNameFrom(s, i + 1)
         ELSE IF c \in DOMAIN ChTab.cp THEN PctCp(ChTab.cp[c]) \o EncodeNameFrom(s, i + 1)
         ELSE PctCp(ChTab.cp[SubSeq(s, i, i + 1)]) \o EncodeNameFrom(s, i + 2)
EncodeName(s) == EncodeNameFrom(s, 1)

(* Resolve a "$ref" against a document: <<TRUE, node>> or <<FALSE>>. *)
ResolveRef(doc, ref) ==
    IF ~StartsWith(ref, "#") THEN <<FALSE>>
    ELSE LET f == DropN(ref, 1)  d == FragDecode(f) IN
         IF ~ValidFragment(f) \/ ~d[1] THEN <<FALSE>> ELSE PointerLookup(doc, d[2])
=============================================================================
