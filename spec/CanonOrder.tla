----------------------------- MODULE CanonOrder -----------------------------
(* How a schema is written out.  Values here keep member order:             *)
(* <<"p", <<key, value>>, ...>> for objects instead of <<"o", function>>.   *)
EXTENDS JsonVal, Uri

First == <<"$id", "$schema", "title", "description", "type", "format", "properties">>
Last == <<"$defs", "definitions">>
SchemaKw == {"not", "if", "then", "else", "contains", "additionalProperties", "propertyNames", "additionalItems",
             "unevaluatedProperties", "unevaluatedItems", "contentSchema", "items", "allOf", "anyOf", "oneOf", "prefixItems"}
MapKw == {"properties", "patternProperties", "dependentSchemas", "$defs", "definitions"}
DataKw == {"const", "enum", "default", "examples", "example"}
RoleOf(k) == IF k \in SchemaKw THEN "schema" ELSE IF k \in MapKw THEN "map"
             ELSE IF k \in DataKw \/ StartsWith(k, "x-") THEN "data" ELSE "free"

IsPairs(v) == v[1] = "p"
PKeys(v) == [i \in 1..Len(v[2]) |-> v[2][i][1]]
PGet(v, k) == v[2][CHOOSE i \in 1..Len(v[2]) : v[2][i][1] = k][2]
Select(ks, P(_)) == SelectSeq(ks, P)
CanonKeys(ks) ==
    LET S == {ks[i] : i \in 1..Len(ks)} IN
    SelectSeq(First, LAMBDA k : k \in S)
    \o SelectSeq(ks, LAMBDA k : k \notin SeqSet(First) /\ k \notin SeqSet(Last))
    \o SelectSeq(Last, LAMBDA k : k \in S)

(* The canonical writing of a value (used for the model; "free" values keep their order). *)
RECURSIVE Canon(_, _)
Canon(v, role) ==
    CASE v[1] = "a" -> <<"a", [i \in 1..Len(v[2]) |-> Canon(v[2][i], IF role = "map" THEN "free" ELSE role)]>>
      [] IsPairs(v) ->
           IF role = "data" THEN v
           ELSE LET ks == IF role = "schema" THEN CanonKeys(PKeys(v)) ELSE PKeys(v) IN
                <<"p", [i \in 1..Len(ks) |-> <<ks[i], Canon(PGet(v, ks[i]),
                        CASE role = "schema" -> RoleOf(ks[i]) [] role = "map" -> "schema" [] OTHER -> "free")>>]>>
      [] OTHER -> v

(* What is required of a written value: nothing lost, changed, invented or  *)
(* repeated, and the order of each kind of object.                          *)
RECURSIVE Written(_, _, _)
Written(inp, out, role) ==
    IF inp[1] # out[1] THEN FALSE
    ELSE CASE inp[1] = "a" -> /\ Len(inp[2]) = Len(out[2])
                              /\ \A i \in 1..Len(inp[2]) : Written(inp[2][i], out[2][i], IF role = "map" THEN "free" ELSE role)
           [] IsPairs(inp) ->
                LET ki == PKeys(inp)  ko == PKeys(out) IN
                /\ Len(ki) = Len(ko) /\ SeqSet(ki) = SeqSet(ko)
                /\ Cardinality(SeqSet(ko)) = Len(ko)
                /\ (role \in {"data", "map"} => ko = ki)
                /\ (role = "schema" => ko = CanonKeys(ki))
                /\ \A i \in 1..Len(ko) : Written(PGet(inp, ko[i]), out[2][i][2],
                        CASE role = "schema" -> RoleOf(ko[i]) [] role = "map" -> "schema" [] role = "data" -> "data" [] OTHER -> "free")
           [] OTHER -> inp = out

(* code point order of keys, as the default map keeps them *)
CpAt(s, i) == IF Ch(s, i) \in DOMAIN ChTab.cp THEN <<ChTab.cp[Ch(s, i)], 1>> ELSE <<ChTab.cp[SubSeq(s, i, i + 1)], 2>>
RECURSIVE StrLt(_, _, _, _)
StrLt(a, i, b, j) == IF j > Len(b) THEN FALSE ELSE IF i > Len(a) THEN TRUE
                     ELSE LET x == CpAt(a, i)  y == CpAt(b, j) IN
                          IF x[1] # y[1] THEN x[1] < y[1] ELSE StrLt(a, i + x[2], b, j + y[2])
RECURSIVE SortedEverywhere(_)
SortedEverywhere(v) ==
    CASE v[1] = "a" -> \A i \in 1..Len(v[2]) : SortedEverywhere(v[2][i])
      [] IsPairs(v) -> /\ \A i \in 1..(Len(v[2]) - 1) : StrLt(v[2][i][1], 1, v[2][i + 1][1], 1)
                       /\ \A i \in 1..Len(v[2]) : SortedEverywhere(v[2][i][2])
      [] OTHER -> TRUE
RECURSIVE Unordered(_)
Unordered(v) == CASE v[1] = "a" -> Arr([i \in 1..Len(v[2]) |-> Unordered(v[2][i])])
                  [] IsPairs(v) -> Obj([k \in SeqSet(PKeys(v)) |-> Unordered(PGet(v, k))])
                  [] OTHER -> v
=============================================================================
