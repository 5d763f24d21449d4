#!/usr/bin/env python3
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
T = {
 "C01": ("stateful model-based generation of multi-peer histories; oracle: pairwise document equality plus set model (inserted minus deleted)", ""),
 "C02": ("stateful model-based generation; oracle: text buffer that follows the return values, validity predicate on every offset and range", ""),
 "C03": ("stateful model-based generation; oracle: acyclicity of all observed character orders over the whole history (validity predicate, no fixed expected order)", ""),
 "C04": ("stateful model-based generation; oracle: every character has an identity, removed set must equal the author's targets still visible", ""),
 "C05": ("stateful generation with injected duplicates; oracle: no effect, and differential twin that never receives duplicates", ""),
 "C06": ("stateful generation with arbitrary delivery orders; oracle: causal-readiness model and an in-order observer twin", ""),
 "C07": ("stateful generation; differential oracle: decoded replica against a fork twin under the same id, over all later operations", ""),
 "C08": ("stateful generation; differential oracle: fork against decoded twin, clone against clone, mangled scratch copies must not affect the original", ""),
 "C09": ("round-trip property over generated values in five serde formats, and histories whose edits travel serialised", ""),
 "C10": ("fault injection into generated encodings; oracle: error required, kind of error by the place of the damage", ""),
 "C11": ("structure-aware mutation fuzzing of checksum-valid payloads and serialised edits; oracle: no panic, abort, overflow or runaway allocation", ""),
 "C12": ("stateful model-based generation; oracle: position of the identified character (tombstones bracketed by visible neighbours)", ""),
 "C13": ("stateful model-based generation with anchors resolved at every peer; oracle: knowledge model and agreement with the creator and among equal peers", ""),
 "C14": ("stateful model-based generation; oracle: per-author running count of inserted units", ""),
 "C15": ("stateful generation with out-of-contract calls; oracle: panic required, then differential twin that never saw the call", ""),
 "C16": ("stateful generation with empty edits; oracle: no effect, and differential twin that never saw them", ""),
 "C17": ("generated concurrent typing epochs on generated documents; oracle: contiguity of every run", ""),
 "C18": ("stateful generation with many participants; oracle: closed-form size bound recomputed per edit", ""),
 "C19": ("metamorphic relation: unit-wise typing against one insertion on clones of generated replicas", ""),
 "C21": ("stateful model-based generation; oracle: closed-form storage bounds recomputed from the edits each peer knows, and repetition of calls without effect must not grow them", ""),
 "C22": ("metamorphic relation: the same history with other replica ids in the same order, documents and outputs compared step by step", ""),
 "C23": ("metamorphic relation over generated growth recipes: the same recipe carried out with 300 and with 9600 edits, deterministic execution counts and allocation of the same calls compared", ""),
 "C24": ("differential and stateful: generated sessions whose peers run two builds (the one in /repo and a frozen one with the same protocol number), judged by convergence and a model of the text", ""),
 "C25": ("generated sessions through the public API, single- and multi-threaded, run with AddressSanitizer and inside Miri (tree borrows, data races), with convergence and concurrent-reader oracles", ""),
 "C20": ("metamorphic relation: the same history at two scales, outputs compared one by one", ""),
}
NOTE = ("Random search with a fixed number of generated cases per run, seeded by VERIF_SEED and deterministic; it finds violations, it does not establish their absence. "
        "Three quarters of the cases run a build with debug assertions and overflow checks, one quarter a plain release build. "
        "Assumes replica ids are unique, as documented, and trusts the reference model in harness/src/world.rs. See DESIGN.md for bounds.")
NOTE_WORK = ("Random search with a fixed number of generated cases per run, seeded by VERIF_SEED and deterministic. Runs in a build of its own (-C instrument-coverage) whose execution counters stand for time; "
        "memory moved by memcpy isn't counted. Costs that grow with the number of concurrent insertions at one place, or of tombstones at one place, aren't claimed. See DESIGN.md for bounds.")
NOTE_SAFE = ("Random search with a fixed number of generated sessions per run, seeded by VERIF_SEED: tens of thousands natively (most with AddressSanitizer), a hundred and sixty small ones inside Miri. "
        "The multi-threaded native ones depend on the schedule; Miri's schedules are seeded. Aliasing is judged by tree borrows, the more permissive model. If Miri can't run something it is noted, not reported. See DESIGN.md for bounds.")
m = {
    "version": 1,
    "setup_cmd": "./run.sh setup",
    "checks": [
        {"property": p["id"], "quick_cmd": f"./run.sh check {p['id']} quick", "thorough_cmd": f"./run.sh check {p['id']} thorough",
         "evidence_file": f"evidence/{p['id']}.json", "technique": T[p["id"]][0], "level": "exploration", "level_note": {"C23": NOTE_WORK, "C25": NOTE_SAFE}.get(p["id"], NOTE)}
        for p in props
    ],
    "not_applicable": [],
    "notes": "No hooks: everything is observed through cola's public API (plus its doc-hidden assert_invariants and num_runs). KNOWN_FINDINGS.md lists the defects that were found and repaired.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
