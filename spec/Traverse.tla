------------------------------ MODULE Traverse ------------------------------
(* Where the subschemas of a schema are (all supported drafts).             *)
EXTENDS JsonVal

SchemaKw == {"not", "if", "then", "else", "contains", "additionalProperties", "propertyNames", "additionalItems",
             "unevaluatedProperties", "unevaluatedItems", "contentSchema"}
ListKw == {"allOf", "anyOf", "oneOf", "prefixItems"}
MapKw == {"properties", "patternProperties", "$defs", "definitions", "dependentSchemas"}
(* "items" holds a schema or (older drafts) a list of schemas *)

(* where the OpenAPI settings put definitions *)
HasComponents(s) == Has(s, "components") /\ IsObj(Get(s, "components")) /\ Has(Get(s, "components"), "schemas")
                    /\ IsObj(Get(Get(s, "components"), "schemas"))
Components(s) == Get(Get(s, "components"), "schemas")

SubPaths(s) ==      \* the immediate subschema positions of s, as paths
    IF ~IsObj(s) THEN {}
    ELSE {<<k>> : k \in {k \in Keys(s) : k \in SchemaKw \cup {"items"} /\ IsSchemaVal(Get(s, k))}}
         \cup UNION {{<<k, i>> : i \in {i \in 1..Len(Get(s, k)[2]) : IsSchemaVal(Get(s, k)[2][i])}}
                     : k \in {k \in Keys(s) : k \in ListKw \cup {"items"} /\ IsArr(Get(s, k))}}
         \cup UNION {{<<k, m>> : m \in {m \in Keys(Get(s, k)) : IsSchemaVal(Get(s, k)[2][m])}}
                     : k \in {k \in Keys(s) : k \in MapKw /\ IsObj(Get(s, k))}}
         \cup (IF HasComponents(s)
               THEN {<<"components", "schemas", m>> : m \in {m \in Keys(Components(s)) : IsSchemaVal(Components(s)[2][m])}} ELSE {})

MapArr(F(_), v) == Arr([i \in 1..Len(v[2]) |-> IF IsSchemaVal(v[2][i]) THEN F(v[2][i]) ELSE v[2][i]])
MapMembers(F(_), v) == Obj([m \in Keys(v) |-> IF IsSchemaVal(v[2][m]) THEN F(v[2][m]) ELSE v[2][m]])

(* Replace every immediate subschema x by F(x); everything else unchanged. *)
MapSubschemasExcept(F(_), s, skip) ==
    IF ~IsObj(s) THEN s
    ELSE Obj([k \in Keys(s) |->
        LET v == Get(s, k) IN
        IF k \in skip THEN v
        ELSE IF k \in SchemaKw THEN (IF IsSchemaVal(v) THEN F(v) ELSE v)
        ELSE IF k \in ListKw THEN (IF IsArr(v) THEN MapArr(F, v) ELSE v)
        ELSE IF k = "items" THEN (IF IsArr(v) THEN MapArr(F, v) ELSE IF IsSchemaVal(v) THEN F(v) ELSE v)
        ELSE IF k = "components" THEN (IF HasComponents(s) THEN With(v, "schemas", MapMembers(F, Components(s))) ELSE v)
        ELSE IF k \in MapKw THEN (IF IsObj(v) THEN MapMembers(F, v) ELSE v)
        ELSE v])
MapSubschemas(F(_), s) == MapSubschemasExcept(F, s, {})

=============================================================================
