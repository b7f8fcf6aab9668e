------------------------------ MODULE JsonVal ------------------------------
(* JSON values as tagged tuples, so that TLC can compare any two of them:   *)
(*   <<"z">>  <<"b",bool>>  <<"s",str>>  <<"n",neg,int,frac>>               *)
(*   <<"a",seq>>  <<"o",[key -> value]>>                                    *)
(* Numbers are canonical decimals (digit strings, no leading/trailing zero),*)
(* because TLC integers are 32 bit and have no fractions.                   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Strings

Null == <<"z">>
Bool(b) == <<"b", b>>
True == <<"b", TRUE>>
False == <<"b", FALSE>>
Str(s) == <<"s", s>>
Dec(neg, int, frac) == <<"n", neg, int, frac>>
Nu(n) == <<"n", n < 0, ToString(IF n < 0 THEN 0 - n ELSE n), "">>
Arr(s) == <<"a", s>>
Obj(f) == <<"o", f>>
EmptyFn == [x \in {} |-> Null]
EmptyObj == Obj(EmptyFn)
Obj1(k, v) == Obj(k :> v)

IsNull(v) == v[1] = "z"
IsBool(v) == v[1] = "b"
IsStr(v) == v[1] = "s"
IsNum(v) == v[1] = "n"
IsArr(v) == v[1] = "a"
IsObj(v) == v[1] = "o"
IsSchemaVal(v) == v[1] \in {"b", "o"}

Keys(v) == DOMAIN v[2]
Has(v, k) == v[1] = "o" /\ k \in DOMAIN v[2]
Get(v, k) == v[2][k]
GetOr(v, k, d) == IF Has(v, k) THEN v[2][k] ELSE d
With(v, k, x) == Obj([y \in DOMAIN v[2] \cup {k} |-> IF y = k THEN x ELSE v[2][y]])
Without(v, k) == Obj([y \in DOMAIN v[2] \ {k} |-> v[2][y]])
WithoutAll(v, ks) == Obj([y \in DOMAIN v[2] \ ks |-> v[2][y]])
(* Right-biased merge of the members of two objects. *)
MergeObj(a, b) == Obj([y \in DOMAIN a[2] \cup DOMAIN b[2] |-> IF y \in DOMAIN b[2] THEN b[2][y] ELSE a[2][y]])
WithIf(v, c, k, x) == IF c THEN With(v, k, x) ELSE v
StrArr(ss) == Arr([i \in 1..Len(ss) |-> Str(ss[i])])
SeqSet(s) == {s[i] : i \in 1..Len(s)}
Items(v) == v[2]
Elems(v) == IF IsArr(v) THEN SeqSet(v[2]) ELSE {}

(* Compare two numbers: -1, 0, 1. *)
CmpMag(a, b) ==
    IF Len(a[3]) < Len(b[3]) THEN 0 - 1
    ELSE IF Len(a[3]) > Len(b[3]) THEN 1
    ELSE LET c == CmpDigits(a[3], b[3], 1) IN IF c # 0 THEN c ELSE CmpDigits(a[4], b[4], 1)
CmpNum(a, b) ==
    IF a[2] /\ ~b[2] THEN 0 - 1
    ELSE IF ~a[2] /\ b[2] THEN 1
    ELSE IF a[2] THEN CmpMag(b, a) ELSE CmpMag(a, b)
NumLe(a, b) == CmpNum(a, b) <= 0
NumLt(a, b) == CmpNum(a, b) < 0
IsInteger(v) == IsNum(v) /\ v[4] = ""

(* JSON pointer lookup.  Segments are already split and unescaped. *)
RECURSIVE LookupPath(_, _, _)
LookupPath(v, segs, i) ==
    IF i > Len(segs) THEN <<TRUE, v>>
    ELSE IF IsObj(v) THEN
            IF segs[i] \in DOMAIN v[2] THEN LookupPath(v[2][segs[i]], segs, i + 1) ELSE <<FALSE>>
    ELSE IF IsArr(v) THEN
            IF AllDigits(segs[i]) /\ (segs[i] = "0" \/ Ch(segs[i], 1) # "0") /\ Len(segs[i]) < 7
               /\ ToNat(segs[i]) < Len(v[2])
            THEN LookupPath(v[2][ToNat(segs[i]) + 1], segs, i + 1) ELSE <<FALSE>>
    ELSE <<FALSE>>

(* "~1" -> "/", "~0" -> "~" (RFC 6901), single left-to-right pass. *)
RECURSIVE UnescapeSeg(_, _)
UnescapeSeg(s, i) ==
    IF i > Len(s) THEN ""
    ELSE IF Ch(s, i) = "~" /\ i < Len(s) /\ Ch(s, i + 1) = "1" THEN "/" \o UnescapeSeg(s, i + 2)
    ELSE IF Ch(s, i) = "~" /\ i < Len(s) /\ Ch(s, i + 1) = "0" THEN "~" \o UnescapeSeg(s, i + 2)
    ELSE Ch(s, i) \o UnescapeSeg(s, i + 1)
Unescape(s) == IF HasChar(s, "~") THEN UnescapeSeg(s, 1) ELSE s
RECURSIVE EscapeSegFrom(_, _)
EscapeSegFrom(s, i) ==
    IF i > Len(s) THEN ""
    ELSE (IF Ch(s, i) = "~" THEN "~0" ELSE IF Ch(s, i) = "/" THEN "~1" ELSE Ch(s, i)) \o EscapeSegFrom(s, i + 1)

(* Segments of a JSON pointer ("" or "/a/b"); <<FALSE>> if it is not one. *)
PointerSegs(p) ==
    IF p = "" THEN <<TRUE, <<>> >>
    ELSE IF ~StartsWith(p, "/") THEN <<FALSE>>
    ELSE LET parts == Tail(Split(p, "/")) IN <<TRUE, [i \in 1..Len(parts) |-> Unescape(parts[i])]>>
PointerLookup(v, p) ==
    LET s == PointerSegs(p) IN IF s[1] THEN LookupPath(v, s[2], 1) ELSE <<FALSE>>
=============================================================================
