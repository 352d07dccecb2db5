prop("P01", "Typed to generic value and back is the identity",
     "Turning any value of a reflected type into a generic value and converting that back to the type succeeds and gives a value equal to the original in every reflected field, bit for bit. Fields excluded from reflection come back as their defaults. The same holds after any number of round trips.",
     ["inputs", "programs"], "every value of every reflected type (derived structs, tuple structs, enums, recursive and generic types, tuples, lists, arrays, maps, options, boxes, ranges, non-zero numbers, math types)",
     "Tests convert a handful of literal values of a few types; a slip in one field, variant or scalar kind of the derive or of a foreign impl only shows for values and shapes they do not use.",
     [D + "struct_named.rs", D + "tuple_struct.rs", D + "enum_.rs", C + "lib.rs", C + "value.rs", C + "foreign_impls/"],
     [("to_value / from_reflect of derived types", D), ("scalar impls", C + "lib.rs impl_for_core_types"), ("containers", C + "foreign_impls/")])
prop("P02", "Conversion from generic values succeeds exactly when the shape fits",
     "Converting a generic value to a reflected type never panics, and gives a typed value exactly when the generic value has every reflected field the type needs, each of the right kind and scalar type (extra fields and field order don't matter), with the corresponding content. In all other cases it reports failure; in particular no number is converted to another width, sign or non-zero type it does not exactly fit.",
     ["inputs", "programs"], "every generic value that matches the type up to a bounded number of deviations, and every scalar of every kind against every scalar type",
     "Tests convert fitting values; the space of values that nearly fit (one field missing, reordered, of a neighbouring scalar type, another variant or kind) is not sampled.",
     [D + "struct_named.rs", D + "tuple_struct.rs", D + "enum_.rs", C + "lib.rs", C + "foreign_impls/"],
     [("from_reflect of derived types", D), ("scalar from_reflect", C + "lib.rs"), ("non-zero numbers and durations", C + "foreign_impls/via_scalar.rs")])
prop("P03", "Patching with a complete value takes over its content",
     "After patching a value with another value of the same type, given typed or as a generic value, every field, element at an existing position and entry under an existing key has the content of the patch, and an enum has its variant; lists keep their length and maps their keys. Patching a generic value gives the same content as patching the typed value it came from, patching twice is the same as patching once, and patching a value with its own content changes nothing.",
     ["inputs", "programs"], "every pair of values of every reflected type",
     "It quantifies over pairs of values; tests patch a few literals of simple types.",
     [D + "struct_named.rs", D + "tuple_struct.rs", D + "enum_.rs", C + "struct_.rs", C + "tuple.rs", C + "tuple_struct.rs", C + "enum_.rs", C + "value.rs", C + "foreign_impls/"],
     [("patch of derived types", D), ("patch of generic values", C + "value.rs"), ("patch of containers", C + "foreign_impls/")])
prop("P04", "Patching changes only what the patch has a compatible value for",
     "Patching with an arbitrary generic value never panics and changes exactly those fields, elements and entries for which the patch holds a value of a compatible kind, leaving everything else as it was, including fields excluded from reflection (unless a complete value replaces the whole enum they are in). An enum changes variant only for a complete value of the other variant.",
     ["inputs", "programs"], "every value of every reflected type against every patch that matches the type up to a bounded number of deviations",
     "Tests patch with one or two partial values; that nothing else changes has to hold for every other field, value and mismatch.",
     [D + "struct_named.rs", D + "tuple_struct.rs", D + "enum_.rs", C + "foreign_impls/", C + "lib.rs"],
     [("patch of derived types", D), ("patch of scalars and containers", C + "lib.rs, " + C + "foreign_impls/")])
prop("P05", "Copies are equal and independent, and all views of a value agree",
     "A copy of a reflected value made through the reflection interface (cloned behind a reference, converted to a generic value, converted to its own type) has the content of the original and stays as it is when the original is changed, and the other way around. Every view of a value (shared, mutable or owned, by kind or as a plain reflected value, typed or generic) shows the same kind and the same content, and none shows another kind. A value behind a reflected reference can be taken as the type it is, with its content, and as no other.",
     ["inputs", "programs"], "every value of every reflected type, and the generic value made from it",
     "Tests look at a few values through a few views; the guarantee is about every type, kind and view.",
     [C + "lib.rs", C + "value.rs", D, C + "foreign_impls/"],
     [("clone_reflect / to_value", D), ("reflect_ref / reflect_mut / reflect_owned", C + "lib.rs"), ("downcasts", C + "lib.rs")])
prop("P06", "Reflected equality is equality of content",
     "Comparing two reflected values, each typed or generic, says they are equal exactly when they are of the same kind with equal content: the same variant, the same fields by name or position, the same elements in order, the same entries, scalars of the same scalar type with equal values. The comparison is symmetric, gives the same answer for a value and a copy of it, and never panics.",
     ["inputs", "programs"], "every pair of values of one type, values of different types, and values against generic values that fit up to a bounded number of deviations",
     "It quantifies over pairs of values; tests compare few literals, mostly equal ones.",
     [C + "reflect_eq.rs", C + "lib.rs"],
     [("reflect_eq", C + "reflect_eq.rs"), ("impl PartialEq for dyn Reflect", C + "lib.rs")])
prop("P07", "Generic values have a lawful equality, order and hash",
     "Equality of generic values is reflexive, symmetric and equality of content (a not-a-number float equals itself, both zeros are equal). Their order is total: antisymmetric, transitive and consistent with equality. Equal values hash alike, and a clone equals its original.",
     ["inputs"], "every pair and triple of generic values of bounded size",
     "Laws over all pairs and triples; floats, mixed kinds and nested values make the counterexamples rare points no literal test holds.",
     [C + "value.rs", C + "struct_.rs", C + "tuple.rs", C + "tuple_struct.rs", C + "enum_.rs"],
     [("Ord / Eq / Hash of Value", C + "value.rs"), ("of the values of each kind", C + "struct_.rs")])
prop("P08", "A path leads to exactly the content its steps name",
     "Following a path into a value, typed or generic, gives exactly the content that its steps name one after the other: the field of that name or position, the element at that index, the entry under that key, the value itself if it is of the named variant. It gives nothing when a step names nothing in the value, and never panics or wraps a number. What is found can be taken as its own type and no other.",
     ["inputs", "programs"], "every value of every reflected type and every path of a bounded number of steps, fitting or not",
     "Tests follow literal paths into literal values; misses and near misses at every step for every kind are not sampled.",
     [C + "key_path.rs"],
     [("GetPath::at", C + "key_path.rs"), ("value_to_usize", C + "key_path.rs"), ("field access of derived types", D)])
prop("P09", "Changing through a path changes exactly what the path leads to",
     "A path leads to something mutable exactly when it leads to something to read, and to the same content. Changing what it leads to changes the value at that place and nowhere else.",
     ["inputs", "programs"], "every value of every reflected type, typed and generic, and every path of a bounded number of steps, fitting or not",
     "Tests change one literal place; that every other place stays the same and that reading and changing agree has to hold everywhere.",
     [C + "key_path.rs", D, C + "foreign_impls/"],
     [("GetPath::at_mut", C + "key_path.rs"), ("mutable field access of derived types", D)])
prop("P10", "Paths through a type agree with paths through its values",
     "Following a path through the description of a type leads to the type (or variant) of what the same path leads to in a value of the type, whenever the value has it, with its name and kind. It leads nowhere for a path that no value of the type has a place for.",
     ["inputs", "programs"], "every value of every reflected type and every path of a bounded number of steps that names the variants it goes through",
     "Two hand-written traversals (of values and of types) have to agree for every type and path; tests try a few paths of one or two types.",
     [C + "key_path.rs", C + "type_info/mod.rs", C + "type_info/graph.rs", D],
     [("GetTypePath::type_at", C + "type_info/mod.rs"), ("GetPath::at", C + "key_path.rs"), ("type graph", C + "type_info/graph.rs")])

prop("P11", "Every way to read a part of a value gives the same, complete content",
     "A value lists each of its reflected parts exactly once, in declaration order (maps: in key order), with its name, and says how many there are. A part reached by name, by position or through an iterator is the same, and has the content it has in the value; names, positions and keys that the value doesn't have give nothing. This holds for typed values and for the generic values made from them.",
     ["inputs", "programs"], "every value of every reflected type, typed and generic, any position and any name up to one letter away from an existing one",
     "Tests look at a few fields by literal names and positions; swapped, missing or repeated parts show only for other types, positions and names.",
     [D, C + "iter.rs", C + "struct_.rs", C + "tuple.rs", C + "tuple_struct.rs", C + "enum_.rs", C + "foreign_impls/"],
     [("field / field_at / iter_fields", D), ("iterators", C + "iter.rs, " + C + "struct_.rs"), ("list, array and map access", C + "foreign_impls/")])
prop("P12", "Every way to reach a part for changing it reaches that part and no other",
     "A part that can be read by name, by position or through an iterator can be reached for changing it in the same way, and nothing else can. Changing what is reached changes that part of the value and leaves all the others as they were; iterating for changes reaches each part once, in order.",
     ["inputs", "programs"], "every value of every reflected type, typed and generic, any position and any name up to one letter away from an existing one",
     "That every other part stays as it was has to hold for every type, part and value; tests change one part of a few types.",
     [D, C + "iter.rs", C + "struct_.rs", C + "tuple.rs", C + "tuple_struct.rs", C + "enum_.rs", C + "foreign_impls/"],
     [("field_mut / field_at_mut / iter_fields_mut", D), ("mutable iterators", C + "iter.rs"), ("of generic values", C + "struct_.rs")])
prop("P13", "A reflected list behaves like a sequence",
     "Whatever is pushed to, popped from, removed from or changed in a reflected list, typed or generic, in any order, the list holds exactly the elements a sequence would hold after the same operations, in the same order, and gives back the elements it removes. A typed list takes only elements that convert to its element type and ignores others; positions outside of the list give nothing and change nothing.",
     ["inputs", "histories"], "every list of bounded length and every history of a bounded number of operations, with any element and any position",
     "The behaviour is over histories of operations; tests run one literal history.",
     [C + "list.rs", C + "array.rs", C + "foreign_impls/vec.rs", C + "value.rs"],
     [("impl List for Vec", C + "foreign_impls/vec.rs"), ("generic lists", C + "value.rs")])
prop("P14", "A reflected map behaves like an ordered dictionary",
     "Whatever is inserted into, removed from, looked up or changed in a reflected map, typed or generic, the map holds exactly the entries a dictionary would hold after the same operations, in key order, and gives back the values it replaces or removes. A typed map takes only keys and values that convert to its types, finds an entry under any value that converts to its key, and ignores everything else.",
     ["inputs", "histories"], "every map of bounded size and every operation with any key and value, fitting or nearly fitting",
     "Tests use one literal map; lookups with keys of other types, replaced entries and the order of keys are not sampled.",
     [C + "map.rs", C + "foreign_impls/btree_map.rs", C + "value.rs"],
     [("impl Map for BTreeMap", C + "foreign_impls/btree_map.rs"), ("generic maps", C + "value.rs")])
prop("P15", "The default value of a type is a value of it with every part at its default",
     "A type says it has a default value exactly when it can give one. What it gives converts to the type and has every scalar zero or empty, every list and map empty and every enum in its first variant, throughout; the same holds for each variant of an enum. Patching any value with it resets exactly the parts that a patch can change.",
     ["programs", "inputs"], "every reflected type and every variant, and every value patched with the default",
     "The default is computed from the type description alone, so it has to fit what the derive generates for every shape of type; tests try a few types.",
     [C + "type_info/mod.rs", C + "type_info/graph.rs"],
     [("default_value / has_default_value", C + "type_info/mod.rs")])
prop("P16", "The description of a type matches its definition and its values",
     "The description of a type names the type, its kind, and exactly its reflected fields or variants, in declaration order, each with the description of its own type, all the way down and also for recursive types. A value's fields and variant are those its type describes, under the same names and positions; names and positions that the type doesn't have give nothing.",
     ["programs", "inputs"], "every reflected type, every value, any position and any name up to one letter away from an existing one",
     "Two independent expansions of the derive (description and access) have to agree for every shape of type and every value; tests compare a few.",
     [C + "type_info/mod.rs", C + "type_info/graph.rs", D, C + "foreign_impls/"],
     [("TypeDescriptor / Type", C + "type_info/mod.rs"), ("TypeGraph", C + "type_info/graph.rs"), ("DescribeType of derived types", D)])

prop("P17", "Visiting reaches every scalar once, in order, and stops at the first error",
     "Visiting a value along its type calls the visitor once for every scalar in it, however deeply it is nested, in the order of the parts, through the method for its kind and with its value. The first error the visitor returns ends the visit and is what the visit returns. This holds for typed values and for the generic values made from them.",
     ["inputs", "programs"], "every value of every reflected type, typed and generic, and every scalar at which the visitor may stop",
     "A traversal over values and types in step; tests visit two literal values with a visitor that never fails.",
     [C + "try_visit.rs"],
     [("try_visit", C + "try_visit.rs")])
prop("P18", "The typed field helpers give a part only under its name and as its own type",
     "Asking a struct, tuple, enum, list, array, map or generic value for a part by name, position or key together with a type gives that part exactly when it is there and is of that type, for reading and for changing. Changing what is given changes that part and nothing else.",
     ["inputs"], "every value, position, name and key up to one letter away from an existing one, and types that fit the part or not",
     "The helpers are one conversion per kind of key and kind of value; tests use three of the combinations.",
     [C + "get_field.rs", C + "value.rs"],
     [("GetField / GetFieldMut", C + "get_field.rs")])
prop("P19", "A path is the sequence of its steps, however it is built",
     "A path built by adding steps, joining paths, from one part or by the macros holds exactly those steps in order, can be taken apart into them again, and equals and hashes as the sequence of its steps. Following a path is following its parts one after the other. Its text shows every step in order.",
     ["inputs", "histories"], "every path of a bounded number of steps of any kind, every way to build it and every place to cut it",
     "Laws over all paths and ways to build them; tests print and follow a handful.",
     [C + "key_path.rs"],
     [("KeyPath", C + "key_path.rs")])
prop("P20", "Generic values, paths and type descriptions survive binary serialization",
     "Writing a generic value, a path or a type description in the binary format and reading it back gives an equal one. A value read back still converts to its type, and a description read back still describes it.",
     ["inputs", "programs"], "every generic value and path of bounded size, and the descriptions of the reflected types",
     "The order of what is written and read, and every kind of scalar and part, has to agree for every value; no test serializes anything.",
     [C + "value.rs", C + "struct_.rs", C + "enum_.rs", C + "key_path.rs", C + "type_info/graph.rs"],
     [("speedy derives and impls", C + "value.rs, " + C + "type_info/graph.rs")])
prop("P21", "Generic values, paths and type descriptions survive structured serialization",
     "Writing a generic value, a path or a type description to a structured format, one that names fields and variants or one that numbers them, and reading it back gives an equal one. A value read back still converts to its type, and a description read back still describes it.",
     ["inputs", "programs"], "every generic value and path of bounded size, and the descriptions of the reflected types",
     "Renamed, skipped or defaulted parts show only for the values that have them; no test serializes anything.",
     [C + "value.rs", C + "struct_.rs", C + "enum_.rs", C + "key_path.rs", C + "type_info/graph.rs"],
     [("serde derives", C + "value.rs, " + C + "type_info/graph.rs")])
prop("P22", "Generic values hold exactly what was put in, in order",
     "A generic value built step by step, collected from an iterator or taken from a reflected value has exactly the parts that were put in, under their names and in the order they were first put in; putting in a named part again replaces it in place. A generic value is of the kind it was built as, and converts back to that kind and no other.",
     ["inputs", "histories"], "every history of a bounded number of building steps with names that repeat or not",
     "Repeated names and orders of steps are what tests with three literal fields don't have.",
     [C + "struct_.rs", C + "tuple.rs", C + "tuple_struct.rs", C + "enum_.rs", C + "value.rs"],
     [("StructValue / TupleValue / TupleStructValue", C + "struct_.rs"), ("EnumValue builders", C + "enum_.rs"), ("From impls of Value", C + "value.rs")])
prop("P23", "Metadata and documentation are found where they were written",
     "Every metadata entry and documentation line written on a type, field or variant is found on exactly that type, field or variant under its name, in order and with its value, also through an owned description and through a path. A name that was not written gives nothing.",
     ["programs", "inputs"], "every type, field and variant with or without metadata and documentation, any metadata value, and any name up to one letter away from one written",
     "Skipped fields, generic types and variants shift positions in the generated descriptions; tests look at one literal type.",
     [C + "type_info/mod.rs", C + "type_info/graph.rs", D],
     [("GetMeta / docs", C + "type_info/mod.rs"), ("attribute parsing", D + "attrs.rs")])
prop("P24", "Values and types print as what they are",
     "A reflected value prints, plain or in long form, exactly as it prints itself; a type that has no printing of its own prints its name and its reflected parts. A type description prints the definition of the type, with every name simplified to the name without its path, and every type can be printed.",
     ["inputs", "programs"], "every value of bounded size and every form, and every reflected type",
     "The text has to be right for every kind of value, wherever it is nested and through every view; tests print a few literal values.",
     [C + "lib.rs", C + "type_info/pretty_print.rs", C + "type_info/simple_type_name.rs", D],
     [("reflect_debug", C + "lib.rs"), ("fn debug of derived types", D), ("PrettyPrintRoot", C + "type_info/pretty_print.rs"), ("SimpleTypeName", C + "type_info/simple_type_name.rs")])
prop("P25", "A field with a conversion of its own is read by it and by nothing else",
     "Converting a value to a type whose fields have conversions of their own reads exactly those fields with them and all other fields as always; when one of them refuses, the whole conversion gives nothing. Copying a value is no conversion: the copy has the content of the original.",
     ["inputs", "programs"], "structs, tuple structs and enums with such fields between skipped and ordinary ones, typed and generic values that fit or not",
     "Which field a conversion belongs to depends on the skipped fields before it and the kind of type; tests use types of one field.",
     [D],
     [("from_reflect_with", D + "struct_named.rs, " + D + "tuple_struct.rs, " + D + "enum_.rs")])
prop("P26", "Describing types from several threads at once gives what one thread gets",
     "However many threads ask for the descriptions of however many types at the same time, each gets the description of the type it asked for, the same one every time, and none of them waits forever, not even when making one description asks for another.",
     ["schedules", "inputs"], "every interleaving, within a bounded number of preemptions, of the synchronising steps of several threads that ask for the descriptions of known and unknown types",
     "Whether the lookup, the creation and the insertion can be interleaved with those of other threads depends on the schedule; tests ask from one thread.",
     [C + "type_info/mod.rs"],
     [("DescribeType::type_descriptor", C + "type_info/mod.rs"), ("TypeGraph::get_or_build_node_with", C + "type_info/graph.rs")])
