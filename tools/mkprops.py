#!/usr/bin/env python3
"""Authoring helper: writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

GEN = "schemars/src/generate.rs"; TR = "schemars/src/transform.rs"; SC = "schemars/src/schema.rs"
SER = "schemars/src/ser.rs"; ENC = "schemars/src/encoding.rs"; PRIV = "schemars/src/_private/mod.rs"
DX = "schemars_derive/src/schema_exprs.rs"; IMPL = "schemars/src/json_schema_impls"
GSTATE = [("definitions", "definition name -> schema", GEN + " SchemaGenerator"),
          ("schema_id_to_name", "(type id, contract) -> assigned name", GEN + " SchemaGenerator"),
          ("used_schema_names", "names handed out", GEN + " SchemaGenerator"),
          ("pending_schema_ids", "types whose schema is being built", GEN + " SchemaGenerator"),
          ("root_schema_id_stack", "types being generated as roots", GEN + " SchemaGenerator")]

prop("C01", "Every generated $ref resolves to the schema of the type it stands for",
 "In every document a generator produces, each `$ref` it created resolves inside that document (as a JSON pointer in a URI fragment) to the complete schema of exactly the type that was referenced, for the contract it was referenced under. This holds for any graph of types, any definitions path, any history of calls on the generator (including reuse and cloning), and any legal type names.",
 ["programs", "histories", "configurations"],
 "all finite type graphs (shared, recursive, mutually recursive, same-named, inlined, forwarding), all generator settings and all sequences of public generator calls",
 "Tests generate a few dozen fixed types with a fresh generator each; they never combine reuse, cloning, name clashes, unusual names and custom definition paths.",
 [GEN, ENC], [("find_ref / subschema_for", GEN), ("add_definitions / json_pointer_mut", GEN), ("encode_ref_name", ENC)], GSTATE,
 ["SchemaGenerator::subschema_for return value", "SchemaGenerator::definitions", "root_schema_for / into_root_schema_for result"])

prop("C02", "Distinct types get distinct, stable, deterministic definition names",
 "A generator gives two different (type identity, contract) pairs different definition names and gives the same pair the same name for the rest of its life, including in clones made later. The first user of a name gets it unchanged and later ones get it suffixed with the smallest unused integer from 2 upwards. The same sequence of calls always yields the same names.",
 ["programs", "histories", "configurations"],
 "all sets of types with clashing names (including names that equal another's suffixed name), all call orders, both contracts, clones",
 "Tests contain a couple of two-way clashes; nothing covers three-way clashes, names that pre-empt a suffix, contract switches or clones.",
 [GEN], [("name assignment in find_ref", GEN), ("SchemaUid", GEN), ("Clone for SchemaGenerator", GEN)], GSTATE,
 ["definitions() keys", "$ref strings"])

prop("C03", "Generation terminates and fills in every definition exactly once",
 "Generating a schema for any type terminates even when types refer to themselves or to one another, and asks each referenceable type for its schema at most once per contract and definitions set. When an outermost call returns, every definition holds the finished schema of its type, never an unfinished placeholder.",
 ["programs", "histories", "configurations"],
 "all finite type graphs including self and mutual recursion through references, inlining and forwarding types; all call sequences",
 "Tests use a handful of recursive types; an unfinished or repeated definition only shows for particular nesting orders and reuse histories.",
 [GEN], [("insert_new_subschema_for (insert before generating)", GEN), ("pending_schema_ids", GEN), ("json_schema_internal", GEN)], GSTATE,
 ["definitions()", "JsonSchema::json_schema invocations"])

prop("C04", "Inlining: references appear only where they are unavoidable",
 "With subschema inlining enabled, a reference is produced only for a type that is already being generated further up (so recursion is unavoidable); all others are embedded in full. With it disabled, a subschema is embedded exactly when its type asks to be always inlined and is a reference otherwise, and a type being generated as the document root is referred to as the whole document.",
 ["programs", "configurations", "histories"],
 "all type graphs x {inline on/off} x call histories",
 "The inlining setting is tested on one or two structs; the decision depends on the stack of types in progress.",
 [GEN], [("return_ref decision in find_ref", GEN)], GSTATE, ["schema returned by subschema_for"])

prop("C05", "Root schemas are assembled completely and consistently",
 "A root schema is the type's own schema plus: the configured meta-schema URI if any, a title (the type's name unless it has one), all accumulated definitions at the configured path, with every configured transform applied once, in order, to the whole document. Producing a root schema leaves the generator's stored definitions and settings untransformed; the consuming and borrowing variants, and the macros, agree; taking definitions returns them all (transformed only if asked) and leaves none.",
 ["programs", "histories", "configurations"],
 "all type graphs, all settings (meta-schema, definition paths, transform lists), all generator call sequences",
 "Tests check final documents for fixed types under four fixed settings, not custom paths, transform order, generator reuse or agreement between entry points.",
 [GEN, "schemars/src/macros.rs"], [("root_schema_for / into_root_schema_for", GEN), ("root_schema_for_value / into_root_schema_for_value", GEN), ("take_definitions", GEN), ("apply_transforms", GEN)], GSTATE,
 ["root schema result", "definitions() before and after"])

prop("C06", "Recursive transforms visit every subschema once and nothing else",
 "Recursing over subschemas applies a transform exactly once to each immediate subschema - every keyword of the supported drafts that holds a subschema, array of subschemas or map of subschemas - and never to anything that is data rather than a schema. A recursive transform therefore visits every nested subschema exactly once, parents before children.",
 ["inputs"],
 "all JSON schema documents, including ones where instance data or unknown keywords look like schemas",
 "Tests run a few transforms on generated schemas that use only some keywords; nothing enumerates keyword positions or look-alike data.",
 [TR], [("transform_subschemas", TR), ("RecursiveTransform", TR)], None, ["sequence of schemas a recording Transform is called with"])

prop("C07", "Output conforms to the selected JSON Schema dialect",
 "A schema generated under the draft 7, 2019-09 or OpenAPI 3.0 settings contains, at every subschema position, no keyword or construct that the dialect lacks or ignores and that the built-in settings promise to translate: tuple keywords, unevaluated properties, reference siblings, boolean schemas, null types, constants and example lists, as applicable to the dialect.",
 ["inputs", "configurations"],
 "all schemas expressible in 2020-12 with the keywords the library emits, at all nesting positions, under every built-in settings profile",
 "Tests validate only a fixed set of types against meta-schemas that tolerate unknown keywords, so an untranslated nested keyword passes.",
 [TR, GEN], [("SchemaSettings::draft07 / draft2019_09 / openapi3 transform lists", GEN), ("Transform implementations", TR)], None, ["transformed schema"])

prop("C08", "Built-in transforms preserve meaning and leave everything else alone",
 "Applying a built-in dialect transform never changes which JSON instances a schema accepts, reading the result in the dialect it targets (replacing `unevaluatedProperties` may only make it accept more), and never alters keywords, members or instance data (examples, defaults, enum values, extensions) that the transform is not about. Applying it twice gives the same result as once.",
 ["inputs"],
 "all schemas over the keywords involved, nested in any subschema position, and all JSON instances",
 "Tests compare a few snapshots; acceptance equivalence quantifies over all schemas and instances.",
 [TR], [("ReplaceBoolSchemas, RemoveRefSiblings, SetSingleExample, ReplaceConstValue, ReplacePrefixItems, AddNullable, ReplaceUnevaluatedProperties", TR)], None, ["transformed schema"])

prop("C09", "Format restriction removes exactly the disallowed formats",
 "Restricting formats removes a subschema's `format` exactly when that format is neither explicitly allowed nor defined by the meta-schema in force at that subschema (the nearest enclosing declaration, when inference is on); subschemas under an unrecognised meta-schema are left untouched. Nothing else in the document changes.",
 ["inputs", "configurations"],
 "all schema documents with nested meta-schema declarations, all allow-lists, inference on and off",
 "One unit test with one document shape and one allow-list.",
 [TR], [("RestrictFormats / RestrictFormatsImpl", TR)], None, ["transformed schema"])

prop("C10", "A schema value is always a boolean or an object, and acts as a map",
 "Through any sequence of public operations a schema remains a boolean or an object, conversion from JSON succeeds exactly for booleans and objects and round-trips, and reads return exactly what was last written. Looking anything up in a boolean schema finds nothing; inserting into `true` yields an object with just that entry and into `false` one that still rejects everything; JSON-pointer lookups follow the pointer grammar, accepting the `#` URI-fragment form.",
 ["inputs", "histories"],
 "all sequences of schema operations over all keys, values and pointers",
 "Doc examples touch each method once; no test runs sequences, boolean schemas or escaped pointers.",
 [SC], [("Schema API", SC), ("ensure_object", SC), ("pointer / pointer_mut", SC), ("TryFrom<Value>", SC)], None, ["return values and as_value() after each call"])

prop("C11", "Serialising a schema is lossless and canonically ordered",
 "Serialising any schema writes each member exactly once, drops, changes or invents nothing at any depth, and re-parses to an equal schema. Known keywords come in the documented canonical order around the remaining members at every subschema, while instance data keeps the order it had.",
 ["inputs", "configurations"],
 "all schema documents, key sets and nesting depths; both map orderings",
 "Snapshot tests exercise the order on generated schemas only; dropped or duplicated rarely-used keywords would not appear there.",
 [SC], [("Serialize for Schema / OrderedKeywordWrapper", SC)], None, ["serialised text member order"])

prop("C12", "Reference names survive encoding and decoding for every string",
 "For every type name, the reference written for it is a valid URI fragment whose decoding (percent-decoding, then JSON-pointer unescaping) gives back exactly that name, so that no two names share a reference and looking up a reference finds its definition. Percent sequences that are not two hex digits are left as they are, and pointer lookups agree with that decoding.",
 ["inputs"],
 "all Unicode strings used as schema names, all pointer strings",
 "Unit tests have about ten strings and cannot cover all byte values and escape combinations.",
 [ENC, SC, GEN], [("encode_ref_name", ENC), ("percent_decode", ENC), ("Schema::pointer", SC)], None, ["$ref strings", "Schema::pointer results"])

prop("C13", "A schema inferred from a value accepts that value",
 "The schema inferred from any serialisable value accepts the JSON of that value and records it as the example, under every built-in settings profile. It lists every member of a struct (or of a map written member by member) under its real name and nothing else, describes each part by the JSON type it actually serialises to (saying nothing about the type of absent optionals and enum variants), and is titled with the name of a named struct.",
 ["inputs"],
 "all values of the serde data model: every primitive, nesting, heterogeneous sequences and maps, all key types and strings, every enum variant kind",
 "Tests infer schemas from a few hand-written values with plain identifiers as keys.",
 [SER, GEN, "schemars/src/macros.rs"], [("ser::Serializer", SER), ("root_schema_for_value", GEN)], None, ["schema_for_value! result"])

prop("C14", "Serialised values of a derived type satisfy its serialise schema",
 "For every type deriving both serde and schema traits, every value's serialised JSON is accepted by the schema generated for serialisation, under every built-in settings profile and with or without inlining.",
 ["programs", "inputs", "configurations"],
 "all structs and enums over the supported attributes (renames, tagging, flatten, skips, defaults, transparent, with) and all their values",
 "Tests check one to three values for each of about 100 hand-written types; attribute combinations are not enumerated.",
 [DX, PRIV, IMPL], [("derive(JsonSchema) expansion", DX), ("_private helpers", PRIV)], None, ["schema_for with serialise contract", "serde_json::to_value"])

prop("C15", "JSON that serde accepts satisfies the deserialise schema",
 "For every type deriving both traits, any JSON document that serde deserialises into the type in the documented object, array or tagged form is accepted by the schema generated for deserialisation, under every built-in settings profile and with or without inlining.",
 ["programs", "inputs", "configurations"],
 "all supported attribute combinations and all JSON documents near the accepted language (missing, extra, null, mistyped members), excluding encodings the schema deliberately does not advertise (aliases, structs from arrays)",
 "Tests try a dozen generic JSON values per fixed type.",
 [DX, PRIV, IMPL], [("derive(JsonSchema) expansion", DX), ("_private helpers", PRIV)], None, ["schema_for with deserialise contract", "serde_json::from_value verdict"])

prop("C16", "Required, default, readOnly and writeOnly follow each contract",
 "For deserialising, a member is required exactly when serde demands it; for serialising, exactly when serde always writes it. A member with a default carries that default value (unless it would not be written or cannot be serialised); members only written are marked read-only, members only read are marked write-only, and members neither read nor written do not appear.",
 ["programs", "configurations"],
 "all combinations of default (field, struct, function), Option, skip, skip_serializing, skip_deserializing, skip_serializing_if, with/serialize_with, flatten and contract",
 "Tests cover a few combinations; required-ness is a function of about ten interacting attributes.",
 [DX, PRIV, "schemars_derive/src/ast/mod.rs"], [("expr_for_field / insert_object_property", DX + " and " + PRIV), ("Default handling", DX)], None, ["required, properties.*.default/readOnly/writeOnly"])

prop("C17", "Property and variant names equal the names serde uses",
 "Member names, variant names, tag names and content names in a derived schema are exactly those serde uses under the same contract, after all rename, rename_all and rename_all_fields rules, including separate serialise and deserialise names.",
 ["programs", "configurations"],
 "all identifiers and rename attribute combinations at container, variant and field level, both contracts",
 "Tests have a few renamed types; the precedence and the case conversion apply to every identifier.",
 [DX, "schemars_derive/src/name.rs", "schemars_derive/src/attr/schemars_to_serde.rs", "schemars_derive/src/ast/from_serde.rs"], [("Name / SerdeName expressions", "schemars_derive/src/name.rs"), ("process_serde_attrs", "schemars_derive/src/attr/schemars_to_serde.rs")], None, ["properties, enum, const members of derived schemas"])

prop("C18", "Each enum representation is described faithfully, variant by variant",
 "A derived enum's schema offers one alternative for each variant that exists under the contract and none for others, in the external, internal, adjacent or untagged form serde uses for it (including individually untagged variants), and alternatives are declared mutually exclusive only when they are. Plain unit variants without extra annotations are combined into one string enumeration.",
 ["programs", "configurations"],
 "all enums: representation x variant kinds x skips x per-variant untagged x annotations x contract",
 "Tests have one enum per representation with a fixed variant mix.",
 [DX, PRIV], [("expr_for_enum family", DX), ("new_externally_tagged_enum_variant / apply_internal_enum_variant_tag", PRIV)], None, ["oneOf/anyOf/enum/const of derived schemas"])

prop("C19", "Flattening merges exactly the members serde merges",
 "A flattened field contributes its members, their requiredness, and its alternatives to the containing object exactly as serde does, for structs, maps, options and enums, nested to any depth and in any order. Extra members stay allowed or forbidden as serde allows or forbids them, and nothing declared by the container or by another flattened field is lost.",
 ["programs", "configurations"],
 "all containers with several flattened fields of every kind, with and without unknown-field denial",
 "Tests have a fixed set of about ten flatten shapes; loss of information shows only for specific pairs merged in a specific order.",
 [PRIV, DX], [("flatten", PRIV), ("expr_for_struct", DX)], None, ["derived schema of container"])

prop("C20", "Optional values admit null and change nothing else",
 "The schema of an optional value accepts null and every value the inner schema accepts, and nothing more, whatever the inner type's schema looks like (typed, referenced, enumerated, constant, boolean, composed), without changing the inner type's own definition.",
 ["programs", "inputs"],
 "all inner schemas and nestings of optionals",
 "Tests wrap a few primitives and one struct.",
 [PRIV, IMPL + "/core.rs"], [("allow_null", PRIV), ("JsonSchema for Option", IMPL + "/core.rs")], None, ["schema of Option<T>"])

prop("C21", "schemars attributes override serde attributes, item by item",
 "When the same setting is given in both a serde attribute and a schemars attribute the schemars one decides the schema, a schemars `!setting` cancels the serde one, and settings given in only one place are honoured, independently for each setting and regardless of order or spelling across several attributes.",
 ["programs"],
 "all subsets of overlapping attributes on containers, variants and fields, in any order and grouping",
 "One integration test with a couple of overrides.",
 ["schemars_derive/src/attr/schemars_to_serde.rs", "schemars_derive/src/attr/mod.rs"], [("process_serde_attrs", "schemars_derive/src/attr/schemars_to_serde.rs")], None, ["derived schema equality with an equivalently annotated type"])

prop("C22", "Validation attributes become exactly the corresponding constraints",
 "Each validation attribute (length, range, pattern, contains, inner constraints, email/url formats, required) adds exactly the constraint of that kind and value to the schema of the value it applies to - strings, arrays, numbers, or the elements of arrays - whichever of the accepted attribute namespaces it is written in, and nothing where the schema's type is not one it constrains (a format is stated whatever the type). Where several namespaces state the same constraint, schemars' own wins over validate's, and validate's over garde's.",
 ["programs", "inputs"],
 "all attribute combinations and bounds x field types (strings, sequences, numbers, options, references, nested inner)",
 "Tests have one struct with fixed bounds per namespace.",
 ["schemars_derive/src/attr/validation.rs", PRIV], [("ValidationAttrs::add_mutators", "schemars_derive/src/attr/validation.rs"), ("insert_validation_property and friends", PRIV)], None, ["derived property schemas", "instances at and around each bound"])

prop("C23", "Documentation and metadata attributes appear verbatim and do not leak",
 "Doc comments become the description (and a leading heading the title) with text preserved apart from documented whitespace handling; explicit title, description, examples, deprecation and extension attributes take precedence and appear with exactly the given values on the item they annotate. Annotating one use of a type never alters that type's shared definition or other uses of it, and what describes a flattened field or type is not taken for its container's.",
 ["programs", "inputs"],
 "all doc comment texts and attribute combinations on containers, variants and fields of referenced and inlined types",
 "Tests have fixed comments; whitespace, headings and reference-sharing interactions are unbounded.",
 ["schemars/src/_private/rustdoc.rs", "schemars_derive/src/attr/doc.rs", "schemars_derive/src/attr/mod.rs", PRIV], [("rustdoc title/description extraction", "schemars/src/_private/rustdoc.rs"), ("add_mutators", "schemars_derive/src/attr/mod.rs")], None, ["title, description, examples, deprecated, extensions"])

prop("C24", "Map schemas accept exactly the keys and values serde reads and writes",
 "A map type's schema accepts an object whose member names are string forms of the key type exactly when every value is valid for the value type, whatever the key type (integers, booleans, characters, strings, enumerations, referenced types with any name, or several kinds at once). It rejects every other member name when all kinds of keys are integers (by sign), string enumerations or patterned strings. Ordered and hashed maps agree.",
 ["programs", "inputs", "configurations"],
 "all key types with usable string forms (including referenced enums with any name) x value types x settings",
 "Tests cover integer and enum keys with ordinary names.",
 [IMPL + "/maps.rs"], [("JsonSchema for map types", IMPL + "/maps.rs")], None, ["schema of map types", "accepted member names"])

prop("C25", "Type identity: same identity only for interchangeable types",
 "Two types share a schema identity only if their names and schemas are the same, whatever their names, modules and generic arguments (so that in one document each has the schema it has alone); wrapper types that serialise as their content share its identity, name and schema. Derived names honour renaming, including placeholders for generic arguments. Types renamed to a sibling's name, and same-named types in different function bodies of one module, are known findings.",
 ["programs"],
 "all pairs of types: same-named in different modules, renamed to the same name, generic instances over types, lifetimes and constants, containers of any of these",
 "Tests compare identities for a handful of generic types only.",
 [DX, "schemars_derive/src/lib.rs", "schemars_derive/src/attr/mod.rs", IMPL], [("schema_id / schema_name expansion", "schemars_derive/src/lib.rs"), ("forward_impl!", "schemars/src/macros.rs")], None, ["schema_id, schema_name", "definitions of documents using both"])

prop("C26", "Schemas of built-in types match their serde encoding",
 "For every supported standard and third-party type, each value's JSON is accepted by the type's schema for both contracts, JSON of the wrong kind is rejected, and where the schema states them, numeric bounds, lengths, tuple sizes, uniqueness and formats are exact: any integer in the type's range is accepted and the nearest values outside are rejected. Every dialect admits the same documents.",
 ["inputs", "programs"],
 "all supported leaf and container types and all their values, especially boundary values",
 "Tests check a few ordinary values per type.",
 [IMPL], [("JsonSchema implementations", IMPL)], None, ["schema of the type", "serde JSON of its values"])

prop("C27", "Derived schemas reject what serde rejects for structural reasons",
 "The deserialise schema of a derived type rejects documents lacking a required member, naming an unknown variant, tagged wrongly, containing unknown members where these are denied, having the wrong number of tuple elements, or having a member of the wrong JSON kind, whenever serde rejects them for that reason.",
 ["programs", "inputs"],
 "all supported attribute combinations and all single-point mutations of valid documents",
 "Tests check rejection on generic JSON values only, so a schema that became too permissive in one position passes.",
 [DX, PRIV, IMPL], [("required / additionalProperties / enum / const / tuple bounds", DX), ("_private helpers", PRIV)], None, ["schema verdict versus serde verdict"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
