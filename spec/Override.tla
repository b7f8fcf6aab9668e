------------------------------ MODULE Override ------------------------------
(* How #[schemars(...)] items override #[serde(...)] items of one place     *)
(* (container, variant or field).  An item is <<keyword, text>>; a schemars *)
(* item <<"!", keyword>> cancels the keyword.  Attributes are flattened to  *)
(* the sequence of their items in source order.                             *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC

(* Keywords whose setting decides the schema.  bound is honoured only in schemars attributes and changes no schema. *)
Keywords == {"rename", "rename_all", "rename_all_fields", "deny_unknown_fields", "tag", "content", "untagged", "default", "skip",
             "skip_serializing", "skip_serializing_if", "skip_deserializing", "flatten", "remote", "transparent", "into", "from", "try_from"}

Kw(x) == x[1]
Named(items) == {Kw(items[i]) : i \in DOMAIN items} \ {"!"}
Cancelled(items) == {items[i][2] : i \in {x \in DOMAIN items : Kw(items[x]) = "!"}}
(* skip stands for both of its halves *)
Covers(ks) == ks \cup (IF "skip" \in ks THEN {"skip_serializing", "skip_deserializing"} ELSE {})
Survives(x, schemars) == Kw(x) \in Keywords /\ Kw(x) \notin Covers(Named(schemars)) /\ Kw(x) \notin Cancelled(schemars)
(* The settings that decide the schema, as a set of items *)
Effective(serde, schemars) ==
    {schemars[i] : i \in {x \in DOMAIN schemars : Kw(schemars[x]) \in Keywords}}
    \cup {serde[i] : i \in {x \in DOMAIN serde : Survives(serde[x], schemars)}}

WellFormed(serde, schemars) ==
    /\ Cancelled(schemars) \cap Named(schemars) = {}
    /\ Cancelled(schemars) \subseteq Named(serde)
=============================================================================
