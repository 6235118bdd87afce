#!/usr/bin/env python3
"""Writes MANIFEST.json. Lists a check for every property of properties.jsonl that the harness knows."""
import json, re, glob, os
here = os.path.dirname(os.path.abspath(__file__))
known = set()
for f in glob.glob(here + "/harness/*.go"):
    known |= set(re.findall(r'register\("(C\d\d)"', open(f).read()))
T = {
 "C01": ("model-generated modules printed in random layouts, parsed tree compared with the model's tree (rapid)", "round trip through an independent model and printer"),
 "C02": ("model-generated constraint expressions, parsed tree compared with the model's tree (rapid)", "round trip through an independent model and printer, operator spellings varied"),
 "C03": ("generated literals in every position, value compared with big-number arithmetic of the harness (rapid)", "independent evaluation of the digits written"),
 "C04": ("model-generated headers, imports and exports; lookups compared with the model (rapid)", "round trip plus lookups of present and absent names"),
 "C05": ("metamorphic: random layouts and comments between the same items (rapid)", "differential between layouts, and single-gap comments"),
 "C06": ("grammar-aware mutation fuzzing of texts and arbitrary bytes, deep nests, watchdog on processor time and memory (rapid)", "module xor error, no panic, repeatable"),
 "C07": ("token-level mutation of generated modules against a reference lexer and an Earley recogniser (rapid)", "independent recogniser of the notation"),
 "C08": ("planted first error at a known item, reported line compared (rapid)", "the line is known by construction"),
 "C09": ("generated piecewise and failing streams, differential against parsing the string; fault injection at every position (rapid)", "differential and fault injection"),
 "C10": ("generated histories of parses and generations against outcomes of fresh processes; concurrent histories under the race detector (rapid)", "differential against fresh processes"),
 "C11": ("generated wild modules and failing destinations (rapid)", "complete source xor error without output"),
 "C12": ("generated well-typed modules, output type-checked with go/types (rapid)", "type checker as oracle"),
 "C13": ("generated well-typed modules, declarations matched against the model through go/types (rapid)", "independent mapping of types"),
 "C14": ("generated modules and values, compiled generated code marshals them, differential against a reference DER encoder (rapid)", "independent X.690 encoder"),
 "C15": ("generated modules and values, compiled generated code unmarshals reference encodings and altered ones (rapid)", "independent X.690 encoder"),
 "C16": ("generated value assignments and named numbers, initial values evaluated and compared with the model (rapid)", "independent evaluation"),
 "C17": ("unsupported construct planted at a random place of a generated module (rapid)", "refusal is known by construction"),
 "C18": ("generated command lines, inputs, outputs and faults against the library in process (rapid)", "differential against the library"),
 "C19": ("generated hex dumps and dumps with a bad column (rapid)", "bytes known by construction"),
 "C20": ("generated values, targets and faults against the encoder and file system state (rapid)", "differential and fault injection"),
 "C21": ("metamorphic: permuted and additional declarations (rapid)", "metamorphic relation on declarations"),
 "C22": ("generated words in every role (rapid)", "acceptance known by construction"),
 "C23": ("metamorphic: tag default against keywords written out, and direct comparison of field parameters (rapid)", "metamorphic relation and model of parameters"),
}
checks = []
for l in open(here + "/properties.jsonl"):
    p = json.loads(l)["id"]
    if p not in known:
        continue
    checks.append({"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
                   "technique": "property-based testing: " + T[p][0], "level": "exploration",
                   "level_note": T[p][1] + "; nothing beyond the generated cases is established (bounds in DESIGN.md)"})
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": checks, "not_applicable": []}
with open(here + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
