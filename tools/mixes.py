"""Which families of programs each check runs, how many, and which models of the specification
belong to the property."""
import gen

# family -> (needs behaviours enumerated by TLC?, generator(r, size, env))
FAMILIES = {
    "random":    lambda r, n, e: gen.fam_random(r, n),
    "long":      lambda r, n, e: gen.fam_long(r, n),
    "longlists": lambda r, n, e: gen.fam_long(r, n, nest="list"),
    "fixed":     lambda r, n, e: gen.fam_fixed(r, n),
    "blocks":    lambda r, n, e: gen.fam_blocks(r, n),
    "stripes":   lambda r, n, e: gen.fam_stripes(r, n),
    "longstripes": lambda r, n, e: gen.fam_longstripes(r, n),
    "strides":   lambda r, n, e: gen.fam_strides(r, n),
    "pairs":     lambda r, n, e: gen.fam_pairs(r, n),
    "schemas":   lambda r, n, e: gen.fam_schemas(r, n),
    "kinds":     lambda r, n, e: gen.fam_kinds(r),
    "nan":       lambda r, n, e: gen.fam_nan(r, n),
    "sweep":     lambda r, n, e: (g for _ in range(n) for g in gen.fam_sweep(r)),
    "empty":     lambda r, n, e: gen.fam_empty(r),
    "big":       lambda r, n, e: gen.fam_big(r, n),
    "huge":      lambda r, n, e: gen.fam_huge(r, n),
    "large":     lambda r, n, e: gen.fam_large(r, n),
    "calls":     lambda r, n, e: gen.fam_calls(r, n, e.calls()),
    "intpaths":  lambda r, n, e: gen.fam_intpaths(r, n, e.paths("int")),
    "deltas":    lambda r, n, e: gen.fam_deltas(r, n),
    "bytepaths": lambda r, n, e: gen.fam_bytepaths(r, n, e.paths("byte")),
    "present":   lambda r, n, e: gen.fam_bytepaths(r, n, e.paths("byte"), kinds=("present",)),
    "tags":      lambda r, n, e: gen.fam_tags(r),
    "lengths":   lambda r, n, e: gen.fam_lengths(r),
    "offby":     lambda r, n, e: gen.fam_offby(r),
    "wrong":     lambda r, n, e: gen.fam_wrong(r, n, gen.fam_random(r, max(20, n // 3), rows=9)),
    "wrongcalls": lambda r, n, e: gen.fam_wrong(r, n, gen.fam_calls(r, max(4, n // 40), e.calls())),
    "sinks":     lambda r, n, e: gen.fam_sinks(r, n),
    "bigsinks":  lambda r, n, e: gen.fam_bigsinks(r),
    "interrupt": lambda r, n, e: gen.fam_interrupt(r, e.length, n),
    "faults":    lambda r, n, e: gen.fam_faults(r, e, n),
    "faultcalls": lambda r, n, e: gen.fam_faultcalls(r, e, n),
    "bigfaults": lambda r, n, e: gen.fam_faults(r, e, n, step=7, big=True),
    "ways":      lambda r, n, e: gen.fam_ways(r, n, e.closes),
    "bigways":   lambda r, n, e: gen.fam_bigways(r, n),
    "entry":     lambda r, n, e: gen.fam_entry(r, n),
    "extremes":  lambda r, n, e: gen.fam_extremes(r),
    "xsinks":    lambda r, n, e: gen.fam_xsinks(r),
    "xfaults":   lambda r, n, e: gen.fam_xfaults(r, e, n),
    "xways":     lambda r, n, e: gen.fam_xways(r, e.closes),
    "xentry":    lambda r, n, e: gen.fam_xentry(r),
    "wrongbig":  lambda r, n, e: gen.fam_wrong(r, n, list(gen.fam_extremes(r))),
    "confs":     lambda r, n, e: gen.fam_confs(r, n, e.confs()),
    "levels":    lambda r, n, e: gen.fam_levels(r),
    "bounds":    lambda r, n, e: gen.fam_bounds(r),
    "variants":  lambda r, n, e: gen.fam_variants(r),
    "entrysweep": lambda r, n, e: gen.fam_entry_sweep(r),
}

# property -> list of (family, size in the quick tier, growth in the thorough tier per round)
# size None = every behaviour; families without size get 1
MIX = {
    "C01": [("extremes", 1), ("nan", 40), ("calls", 20), ("intpaths", 400), ("deltas", 500), ("bytepaths", 150), ("sweep", 2), ("pairs", 150), ("long", 60),
            ("random", 300), ("fixed", 100), ("blocks", 100), ("stripes", 100), ("empty", 1), ("big", ("text", "block", "default", "list")), ("huge", None)],
    "C02": [("extremes", 1), ("deltas", 100), ("calls", 150), ("random", 800), ("stripes", 100), ("strides", 60), ("longlists", 40), ("empty", 1),
            ("big", ("list",)), ("huge", ("rows", "group", "list", "footer"))],
    "C03": [("extremes", 1), ("nan", 40), ("blocks", 600), ("fixed", 300), ("random", 300), ("intpaths", 60), ("big", ("text", "block")), ("huge", ("string", "block", "blockz", "plain", "binaries", "footer", "names", "manyblocks", "megabyte"))],
    "C04": [("extremes", 1), ("stripes", 400), ("empty", 1), ("random", 400), ("calls", 30), ("blocks", 100), ("schemas", 60),
            ("huge", None)],
    "C05": [("extremes", 1), ("kinds", 1), ("schemas", 500), ("random", 300), ("calls", 20), ("empty", 1), ("big", ("wider",)), ("huge", ("footer", "names", "group"))],
    "C06": [("extremes", 1), ("nan", 40), ("pairs", 900), ("sweep", 2), ("calls", 60), ("random", 300), ("stripes", 100), ("long", 40), ("empty", 1),
            ("big", ("text", "block", "default", "list")), ("huge", None)],
    "C07": [("extremes", 1), ("huge", tuple("groups:" + k for k in ("long", "string", "decimal", "double"))), ("nan", 40), ("pairs", 300), ("strides", 400), ("sweep", 2), ("random", 400), ("calls", 40), ("stripes", 60), ("long", 20), ("huge", None)],
    "C08": [("extremes", 1), ("nan", 40), ("intpaths", 500), ("deltas", 300), ("bytepaths", 400), ("fixed", 300), ("strides", 200), ("blocks", 200), ("random", 300),
            ("present", 100), ("big", ("default", "rows", "text", "list")), ("huge", None), ("huge", ("manyblocks",))],
    "C09": [("extremes", 1), ("huge", tuple("groups:" + k for k in gen.SCALARS + ["list", "struct"])), ("strides", 600), ("random", 400), ("calls", 60), ("empty", 1), ("big", ("default", "rows")), ("huge", ("rows", "group", "list", "binaries", "footer"))],
    "C10": [("extremes", 1), ("longstripes", 66), ("stripes", 900), ("random", 300), ("calls", 40), ("empty", 1), ("huge", None)],
    "C11": [("extremes", 1), ("offby", 1), ("wrongbig", 150), ("wrongcalls", 1500), ("wrong", 500), ("tags", 1), ("lengths", 1), ("calls", 60), ("random", 200), ("empty", 1)],
    "C12": [("xsinks", 1), ("bigsinks", 1), ("sinks", 150), ("interrupt", 10)],
    "C13": [("xfaults", 40), ("faultcalls", 30), ("faults", 10), ("bigfaults", 3)],
    "C14": [("xways", 1), ("bigways", 17), ("ways", 250)],
    "C15": [("extremes", 1), ("calls", 80), ("random", 500), ("present", 250), ("pairs", 300), ("stripes", 100), ("empty", 1), ("long", 30), ("huge", ("rows", "group", "list", "footer"))],
    "C16": [("xentry", 1), ("entry", 250), ("entrysweep", 1)],
    "C17": [("levels", 1), ("bounds", 1), ("variants", 1), ("confs", 900), ("empty", 1)],
}

# runs recorded by number of cells, judged by Large.tla
LARGE = {"C04": 1, "C06": 1, "C10": -1}

# models: (module, config, constants replaced in the quick tier, thorough tier, canary or None)
# a canary is a variant of the model that is wrong and that TLC has to reject
MODELS = {
    "encoders": dict(tla="MC_Encoders", thorough={"N": "8"}),
    "blocks": dict(tla="CompStream", thorough={"B": "4", "N": "13", "MaxWrite": "11"}, canary={"Grows": "TRUE"}),
    "column": dict(tla="MC_Column", thorough={"N": "6"}, canary={"Early": "TRUE"}),
    "counts": dict(tla="MC_Counts", quick={"MaxCells": "1"}, thorough={}, canary={"LooseTag": "TRUE"}),
    "sink": dict(tla="MC_Sink", thorough={"MaxFaults": "3"}, canary={"Plain": "TRUE"}),
    "poison": dict(tla="MC_Sink", thorough={"MaxFaults": "3"}, canary={"Poison": "FALSE"}),
    "format": dict(tla="MC_Format", thorough={}, canary={"Wrong": "TRUE"}),
    "unsigned": dict(tla="MC_Format", quick={"Signed": "FALSE"}, thorough={"Signed": "FALSE"}),
    "layout": dict(tla="Layout", thorough={"Lens": "{0, 1, 2}"},
                   canary=[{"Wrong": '"%s"' % x} for x in ("content", "order", "offset", "skip")]),
    "handover": dict(tla="HandOver", thorough={"MaxRows": "7", "MaxBatches": "5", "Size": "3"},
                     canary=[{"Rule": '"%s"' % x} for x in ("late", "equal", "column", "empty")]),
    "config": dict(tla="MC_Config", thorough={"MaxCalls": "4"}, canary={"Wrong": "TRUE"}),
    "ways": dict(tla="Ways", thorough={"Rows": "6"},
                 canary=[{"Share": '"%s"' % x, "NCols": n} for x, n in (("flush", "1"), ("process", "1"), ("order", "2"), ("entry", "1"))]),
}

PROP_MODELS = {
    "C01": ["encoders", "format", "unsigned"], "C02": ["counts", "format"], "C03": ["blocks"], "C04": ["sink", "layout"],
    "C05": ["layout"], "C06": ["column"], "C07": ["column"], "C08": ["encoders", "blocks", "column"], "C09": ["column"],
    "C10": ["column", "handover", "encoders"], "C11": ["counts"], "C12": ["sink"], "C13": ["poison"], "C14": ["ways"],
    "C15": ["column"], "C16": ["ways"], "C17": ["config"],
}
