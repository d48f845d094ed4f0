#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
T = {
 "C01": ("round-trip property-based testing", "Every generated mesh list is saved and loaded through all entry points and compared array by array."),
 "C02": ("round-trip property-based testing against an error bound", "The bound is recomputed from the shortest edge by the harness; one known finding (edge lengths) is matched by its exact signature."),
 "C03": ("round-trip property-based testing against an error bound", "Angles are measured in f64; one known finding (poles) is accepted only if what is loaded is the direction of the format nearest to the original. Built with and without fast_trig."),
 "C04": ("round-trip property-based testing against an error bound", "The bound in pixels is recomputed by the harness."),
 "C05": ("round-trip property-based testing against an error bound", "As C03, with handedness and independence of precisions."),
 "C06": ("model-based property-based testing", "An ordered list of named arrays is the model of lookup before saving and after loading."),
 "C07": ("property-based testing against a reference predicate", "The predicate for valid meshes is written independently; faults are injected into valid meshes singly and combined."),
 "C08": ("structured and mutation fuzzing with a counting allocator", "Crashes of the process are isolated to a single case; memory is counted by a global allocator. Zero-width arrays are left out of the memory bound."),
 "C09": ("exhaustive truncation of generated files", "Every cut of every generated file is tried; lengths consumed are exact."),
 "C10": ("fault injection over generated meshes and call sequences", "Every byte position is a failure point for small files, a sample of positions for big ones."),
 "C11": ("property-based testing of malformed headers against expected errors", "Files are made by the independent encoder with one thing wrong at a time."),
 "C12": ("differential property-based testing against an independent codec", "The codec in refcodec.rs was written from the format's description and shares no code with the library."),
 "C13": ("metamorphic property-based testing", "Corners before and after are compared bit for bit; idempotence; each element used once."),
 "C14": ("metamorphic property-based testing", "Corners before and after are compared bit for bit; arrays are equal and without duplicate tuples."),
 "C15": ("round-trip property-based testing", "Names, order and every corner's attributes are compared exactly."),
 "C16": ("grammar-based property-based testing against a reference reader", "The generator of text knows the meshes the text stands for."),
 "C17": ("grammar and mutation fuzzing", "Random bytes, mutated OBJ text and unknown lines; no crash, results usable."),
 "C18": ("property-based testing with geometric oracle", "Convex polygons on random planes; area, orientation, sides and attributes of the triangles."),
 "C19": ("stateful model-based property-based testing", "Random histories of operations on meshes and clones against a plain record."),
 "C20": ("property-based testing against a size bound", "The bound is computed by the harness from the widths the precision needs."),
 "C21": ("differential property-based testing of entry points, threads and builds", "The default build is compared with a build with all features running as a server process. Thread schedules are those the machine happens to give."),
 "C22": ("property-based testing against a reference bit string", "Writer and reader compared with a plain vector of bits, including past the end and split reads."),
 "C23": ("metamorphic property-based testing over generations", "Repeated load and save compared with the first."),
 "C24": ("differential property-based testing of builds", "Six builds with other index and float types, each also compared with the default build running as servers of one another."),
}
props = [json.loads(l) for l in open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"))]
checks = []
for p in props:
    t, n = T[p["id"]]
    checks.append({
        "property": p["id"],
        "quick_cmd": f"./check.sh {p['id']} quick",
        "thorough_cmd": f"./check.sh {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": t,
        "level": "exploration",
        "level_note": n + " Explores generated cases; it cannot show that none outside them fails.",
    })
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks: only the public API of tmf is used. known_findings.txt lists findings. SCALE multiplies the number of cases, './check.sh replay FILE' repeats a failure.",
}
open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
