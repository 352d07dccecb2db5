"""Per-property bounds of the checks (see DESIGN.md)."""
ASSUMPTIONS = [
    "rustc/LLVM (opt-level 1, panic=abort, fat LTO) preserve the semantics of the source; the IR executed symbolically is what they emit for /repo's current tree",
    "the engine's semantics of the LLVM IR subset it executes (every run replays sampled paths natively and compares the event traces)",
    "z3 4.8.12; thorough runs repeat the queries with cvc5",
    "allocation never fails; addresses are opaque (a different concrete address never changes the result)",
]
SIZES = ("strings of up to 2 ASCII characters, lists and maps of up to 2 elements, recursive types to depth 2 "
         "(1 each in the widest types, see bounds_params), every value of every scalar, every variant")
SMALL = {0: 1, 1: 1, 2: 1}


def PATHS(p):
    q = {f"{p}_{e}": {5: 3} for e in ("triple", "expr", "option", "boxed", "tuple3", "mat3", "map_neg", "gen")}
    for e in ("vec", "vec2", "listed", "tree", "g_tree"):
        q[f"{p}_{e}"] = {1: 1, 2: 1, 5: 3} if e in ("vec2", "tree", "g_tree") else {1: 1, 2: 1}
    for e in ("arrays", "array", "map_map", "g_deep_b", "deep_b"):
        q[f"{p}_{e}"] = {2: 1, 5: 2}
    return {"quick": q, "thorough": {}}


HEAVY = ["arrays", "array", "g_map_str", "g_deep_a", "listed", "bare_tuple", "vec", "vec2", "expr", "deep_a", "deep_b", "g_deep_b", "map"]
PROPS = {
    "P01": {
        "bounds": SIZES,
        "params": {"quick": {}, "thorough": {0: 3, 1: 3, 2: 3, 3: 2}},
        "entry_params": {"quick": {"p01_outer": SMALL}, "thorough": {"p01_outer": {0: 1, 1: 2, 2: 2}}},
    },
    "P02": {
        "bounds": SIZES + "; generic values that fit the type except in at most one place (missing, extra, reordered, wrong kind or wrong scalar)",
        "params": {"quick": {}, "thorough": {4: 2}},
        "entry_params": {"quick": {"p02_deep": SMALL}, "thorough": {}},
    },
    "P03": {
        "bounds": SIZES,
        "params": {"quick": {}, "thorough": {}},
        "entry_params": {"quick": {"p03_map_small": {2: 1}, "p03_deep_b": {1: 1, 2: 1}, "p03_map_str": SMALL}, "thorough": {}},
    },
    "P04": {
        "bounds": SIZES + "; patches that fit the type except in at most one place (two in thorough runs)",
        "params": {"quick": {}, "thorough": {4: 2}},
        "entry_params": {"quick": {"p04_deep_b": SMALL, "p04_map": {2: 1}, "p04_bare_tuple": {0: 1}, "p04_scalars": {0: 1}}, "thorough": {}},
    },
    "P05": {"bounds": SIZES, "params": {"quick": {}, "thorough": {0: 3, 1: 3, 2: 3}}},
    "P06": {"bounds": SIZES + "; pairs of values of one type, of two types, and of a value and a generic value that fits its type except in at most one place",
            "params": {"quick": {}, "thorough": {}},
            "entry_params": {"quick": {"p06_map_str": {0: 1}}, "thorough": {"p06_map_str": {0: 1}}}},
    "P07": {"bounds": "pairs and triples of generic values: every scalar of every kind, strings of up to 2 characters, lists, tuples, structs, enums and maps of up to 2 entries, nested twice",
            "params": {"quick": {}, "thorough": {0: 3}}},
    "P08": {"bounds": SIZES + "; paths of up to 2 steps (3 for some types), each step any field, variant, index, key or a step that doesn't fit",
            "params": {"quick": {5: 2}, "thorough": {5: 3}}, "entry_params": PATHS("p08"), "heavy": HEAVY},
    "P09": {"bounds": SIZES + "; paths of up to 2 steps (3 for some types), each step any field, variant, index, key or a step that doesn't fit",
            "params": {"quick": {5: 2}, "thorough": {5: 3}}, "entry_params": PATHS("p09"), "heavy": HEAVY},
    "P10": {"bounds": SIZES + "; paths of up to 2 steps (3 for some types), each step any field, variant, index, key or a step that doesn't fit",
            "params": {"quick": {5: 2}, "thorough": {5: 3}}, "entry_params": PATHS("p10"), "heavy": HEAVY},
    "P11": {"bounds": SIZES + "; any index, any number of elements skipped by an iterator, and any name up to one letter away from a name of the type", "params": {"quick": {}, "thorough": {0: 3, 1: 3, 2: 3}},
            "entry_params": {"quick": {}, "thorough": {"p11_tree": {1: 2}}}},
    "P12": {"bounds": SIZES + "; any index, any number of elements skipped by an iterator, and any name up to one letter away from a name of the type", "params": {"quick": {}, "thorough": {0: 3, 1: 3, 2: 3}},
            "entry_params": {"quick": {}, "thorough": {"p12_tree": {1: 2}}}},
    "P13": {"bounds": "lists of up to 2 elements and histories of up to 2 operations (push, pop, remove at any index, change in place), each with any fitting or nearly fitting element; lists of up to 6 elements and one removal (any index)",
            "params": {"quick": {6: 2, 7: 7}, "thorough": {6: 3, 7: 10}}, "heavy": ["small", "option", "list"],
            "entry_params": {"quick": {"p13_small": {6: 1}, "p13_named": {6: 1}, "p13_list": {6: 1}, "p13_nz": {1: 1}},
                             "thorough": {"p13_small": {6: 2}, "p13_named": {6: 2, 0: 1, 1: 1}, "p13_list": {6: 2}, "p13_nz": {6: 2}, "p13_pair": {6: 2}, "p13_option": {6: 2}, "p13_string": {6: 2}, "p13_g_small": {6: 2}, "p13_g_string": {6: 2}}}},
    "P14": {"bounds": "maps of up to 2 entries and one operation (insert, remove, look up, change in place; 2 in thorough runs), with any fitting or nearly fitting key and value, in key order",
            "params": {"quick": {6: 1}, "thorough": {6: 1}}, "heavy": ["g_i64", "g_string", "string"],
            "entry_params": {"quick": {"p14_bool": {2: 1}, "p14_list": {2: 1}, "p14_g_i64": {2: 1}, "p14_g_string": {2: 1}, "p14_k_array": {2: 1}, "p14_k_option": {2: 1},
                                       "p14_k_tuple": {2: 1}, "p14_k_list": {1: 1, 2: 1}},
                             "thorough": {"p14_u8": {6: 2, 2: 1}, "p14_g_u8": {6: 2}, "p14_i16": {6: 2, 2: 1}}}},
    "P15": {"bounds": "the default of every type and variant of the zoo; patched into values with " + SIZES, "params": {"quick": {}, "thorough": {0: 3, 1: 3, 2: 3}},
            "entry_params": {"quick": {}, "thorough": {"p15_tree": {1: 2}}}},
    "P16": {"bounds": "the descriptions of every type of the zoo; values with " + SIZES + "; any index, any number of elements skipped by an iterator, and any name up to one letter away from a name of the type", "params": {"quick": {}, "thorough": {0: 3, 1: 3, 2: 3}},
            "entry_params": {"quick": {}, "thorough": {"p16_tree": {1: 2}, "p16_deep": {1: 2, 2: 2}, "p16_listed": {1: 2, 2: 2}}}},
    "P17": {"bounds": SIZES + "; typed and generic values, a visitor that stops at any one of the scalars or none",
            "params": {"quick": {}, "thorough": {0: 3, 1: 3, 2: 2}},
            "entry_params": {"quick": {"p17_deep": {2: 1}}, "thorough": {"p17_tree": {1: 2}, "p17_deep": {1: 2, 2: 2}, "p17_listed": {1: 2, 2: 2}}}},
    "P18": {"bounds": SIZES + "; any position, any name or key up to one letter away from an existing one", "params": {"quick": {}, "thorough": {0: 3, 1: 3, 2: 3}}},
    "P19": {"bounds": "paths of up to 2 steps of any kind (names and text keys of up to 2 characters, any position, number, truth value or character), paths printed: 1 step (2 in thorough runs), followed into values with " + SIZES,
            "params": {"quick": {5: 2}, "thorough": {5: 3}}, "heavy": ["parts_vec", "parts_deep", "shown"],
            "entry_params": {"quick": {"p19_shown": {5: 1}, "p19_parts_vec": {5: 2, 1: 1}}, "thorough": {"p19_shown": {5: 2}, "p19_parts_vec": {5: 2}, "p19_equal_paths": {5: 2}}}},
    "P20": {"bounds": SIZES + "; paths of up to 3 steps", "params": {"quick": {}, "thorough": {0: 3, 1: 3, 2: 3}},
            "entry_params": {"quick": {}, "thorough": {"p20_tree": {1: 2}}}},
    "P21": {"bounds": SIZES + "; paths of up to 3 steps; formats that name fields and variants and formats that number them", "params": {"quick": {}, "thorough": {0: 3, 1: 3, 2: 3}},
            "entry_params": {"quick": {}, "thorough": {"p21_tree": {1: 2}}}},
    "P22": {"bounds": "up to 3 building steps (2 for structs collected from iterators), with names and positions that repeat or not and any content; values with " + SIZES,
            "params": {"quick": {6: 2}, "thorough": {6: 3}}, "heavy": ["struct_collect", "struct_ops"]},
    "P23": {"bounds": "types, fields and variants with 0 to 3 metadata entries and docs, any metadata value, any key up to one letter away from an existing one", "params": {"quick": {}, "thorough": {0: 3}}},
    "P24": {"bounds": "values of up to 1 element per list and map (2 in thorough runs), any figure for each number, any letter for each text, chosen other numbers; plain and long form; the names of every type of the zoo and of types whose names contain any letter",
            "params": {"quick": {1: 1, 2: 1}, "thorough": {1: 1, 2: 1}}, "heavy": ["out", "g_own"],
            "entry_params": {"quick": {}, "thorough": {"p24_own_tuple": {1: 2}, "p24_own_list": {1: 2}, "p24_own_map": {2: 2, 1: 0}, "p24_own_box_list": {1: 2}}}},
    "P25": {"bounds": "every content of the fields; generic values with up to two fields of another kind and up to one missing", "params": {"quick": {}, "thorough": {}}},
    "P26": {"bounds": "2 or 3 threads that ask up to 3 times each for the descriptions of 2 types, none, one or both of them known before; every interleaving of their atomic accesses, futex calls and spin hints with up to 3 preemptions (2 for nested descriptions, 1 for three threads; thorough: 4, 4 and 2); atomic accesses read the last value written, the other accesses have to be ordered by synchronisation (no data race)",
            "params": {"quick": {8: 3}, "thorough": {8: 4}}, "threads": True, "heavy": ["three", "known", "crossed"],
            "entry_params": {"quick": {"p26_three": {8: 1}, "p26_nested_twice": {8: 2}}, "thorough": {"p26_three": {8: 2}, "p26_crossed": {8: 3}, "p26_known": {8: 3}}},
            "assumptions": ["sequentially consistent values of atomic accesses; futex waits wake only when woken, in the order of waiting"],
            "outside": "weak memory orders that are no data race; more threads, calls or preemptions"},
}

LARGER = "; besides, with symbolic content in a fixed layout: lists of 9, 17, 33, 65 and 257 elements, maps of 7, 13 and 40 entries, texts of 9, 65 and 260 characters (one of two bytes), a chain nested up to 20 deep"
for _p in ("P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P17", "P20", "P21"):
    PROPS[_p]["bounds"] += LARGER
for _p, _t in (("P13", "; one operation on lists of 16, 32, 64, 256 and 257 elements"), ("P14", "; one operation on maps of up to 40 entries"),
               ("P18", "; lists of 17, 33 and 257 elements"), ("P19", "; paths of 9, 17 and 33 steps of a fixed pattern"),
               ("P22", "; 13, 20 and 40 building steps of a fixed pattern")):
    PROPS[_p]["bounds"] += _t

# descriptions are cached with `std` and made anew each time without
for _p in PROPS:
    if _p not in ("P20", "P21", "P24", "P26"):
        PROPS[_p]["configs"] = {"thorough": ["default", "core"], "quick": ["default", "core"] if _p in ("P15", "P16", "P23") else ["default"]}
        PROPS[_p]["bounds"] += "; crate features: the default ones with glam and macaw" + (
            "; and without `std`, `speedy` and `serde`" if _p in ("P15", "P16", "P23") else " (thorough runs: also without `std`, `speedy` and `serde`)")
