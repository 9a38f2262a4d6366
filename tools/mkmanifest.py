"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
NOTE = {
 "C01": "The reader is checked against the published examples of the ORC, Snappy and protobuf specifications and over all small streams (MC_Format). Every recorded file is decoded by a TLA+ reader written from the ORC v0 specification and compared with the cells TLC's state machine holds. Bounded: encoder model exhaustive to 7 values over a scaled alphabet; real runs are TLC-enumerated encoder paths (real limits), enumerated call sequences, boundary sweeps and random data.",
 "C02": "As C01 for containers: TLC enumerates all small nested row sets of 12 schemas as programs; random schemas to depth 3; the reader reassembles each child by its parents' counts.",
 "C03": "Chunking by TLA+ reader (Snappy decompressed by the specification; Zstandard payloads by the zstd crate). Block model exhaustive; every fill level against every next write size.",
 "C04": "All offsets, lengths and totals recomputed by the specification from the bytes and the state machine; files beyond 4 GiB by Large.tla; model of how the numbers arise (Layout).",
 "C05": "The type tree, encodings, stream kinds, per-column entries and fixed fields compared with the declared schema by the specification.",
 "C06": "Statistics recomputed from the cells by the specification (exact integers of any size, decimal text, doubles when the sum is exact). Float bounds are not judged in presence of NaN.",
 "C07": "As C06 per row index entry.",
 "C08": "A TLA+ reader seeks to each recorded position and decodes the group; encoder and block models show positions restore the state for every boundary within bounds.",
 "C09": "Group partition decided by counts, statistics and positions of the index against the cells. One known finding (D10).",
 "C10": "Model of the rule and of what can be told of it afterwards (HandOver: the judge never complains about the right rule, and does about each wrong one). The hand-over rule is an action guard of the state machine; the size of the data held is recomputed from the stripe that results.",
 "C11": "Acceptance is exactly the guard of Batch and Finish in the specification; accepted runs are judged for content as well; wrong counts by one, by powers of two and by amounts that wrap around 64 bits.",
 "C12": "Scripted sinks; files compared with the reference run by the specification; sink model checked for all scripts within bounds including liveness.",
 "C13": "A failure at every byte and every call of each base file, in five forms, followed by further calls; no call may be explained as a success afterwards.",
 "C14": "Model of two writers that choose independently (Ways). Reordered, rebatched and interleaved runs compared with their reference by the specification.",
 "C15": "Presence of streams, positions and null flags compared with the cells of stripe and group.",
 "C17": "Every history of up to three configuration calls with legal and illegal values is enumerated by TLC, which checks that the last call of each sort counts, and run against the crate; every level, block sizes and numbers of variants around the limits. Each accepted configuration has to show in chunks, row groups and stripes.",
 "C16": "Model of two writers that choose independently (Ways). Runs through alternative entry points compared with their reference and with the content the state machine holds.",
}
json.dump({
 "version": 1,
 "setup_cmd": "python3 check.py --build",
 "checks": [{
   "property": p["id"],
   "quick_cmd": "python3 check.py " + p["id"],
   "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
   "technique": "TLA+ specification checked with TLC; trace validation of recorded runs against it" + ("; programs enumerated by TLC" if p["id"] not in ("C12","C13","C14","C16") else ""),
   "level": "fault_enumeration" if p["id"] == "C13" else "model_checking",
   "level_note": NOTE[p["id"]] + " Trusted: TLC, the driver's recording, the zstd crate.",
 } for p in props],
 "not_applicable": [],
 "notes": "No hooks: the public API suffices. Known findings and repairs: known_findings.txt.",
}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
