#!/opt/venv/bin/python
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SETS = "explicit-state exploration of the real class, lock-step with a bit mask model"
TABLE = "exhaustive sweep of all code points against a reference table, several query orders"
TRIE = "exhaustive enumeration of a bounded family of tries (model) replayed on the real lookup/enumeration code"
FAM = "exhaustive enumeration of a bounded family of input files, replayed on the real reader"
TECH = {
    "C01": (SETS, "All set contents over the cells of a partition of the code space are reached and every operation is applied in every state; trusts the bit mask model. Histories that differ only in which code points stand for the cells are represented by boundary code points of each cell. Besides, a family of long contents (to 1100 cells): every operation at every cell, every pair of patterns, four orders of building."),
    "C02": (SETS, "All pairs of reachable contents are compared; long contents as C01."),
    "C03": (SETS, "Every query in every reachable state, and of the long contents of C01's family."),
    "C04": (SETS, "All operation sequences to a fixed depth over three live sets, with aliasing; for long contents, every pair of patterns x constructor or operator x change."),
    "C05": (SETS, "Every operation with arguments around and beyond both ends of the code space in every reachable state of a smaller partition, and on long contents."),
    "C06": (TRIE, "Every code point of moving-window identity tries plus a bounded family of block layouts; trusts the trie writer in mc/tries.py, which is itself checked by an independent expansion of the shipped tries."),
    "C07": (TRIE, "Bounded family x windows, and windows at every value change of the shipped tries."),
    "C08": (TRIE, "As C06, for both types, three widths, arrays and serialized form."),
    "C09": (TRIE, "As C07, for code point tries."),
    "C22": (FAM, "Bounded families of names data; trusts the writer in mc/icupkg.py."),
    "C23": (FAM, "Bounded families of packages; trusts the writer in mc/icupkg.py."),
    "C24": ("stateless exploration of the real loader under a controlled scheduler (preemption bound 2), exhaustive fault injection and truncation", "Scheduling points are the lines (thorough: bytecodes) of the loading module; faults are injected at calls only; locks of the code under test are replaced by cooperative ones."),
    "C26": ("exhaustive enumeration of the argument domains against arithmetic definitions", "Complete for code points and surrogates; word widths to 12 (thorough 16) bits."),
    "C27": (FAM, "Every attribute, value and placement, and every pair of attributes."),
    "C28": ("exhaustive comparison of every name and constant with ICU's, both directions", "The reference comes from ICU 74 (library and headers compiled with gcc), restricted to Unicode 13."),
    "C29": ("exhaustive enumeration of a bounded grammar of headers, replayed on the real translator and gcc", "Headers outside the grammar are not covered."),
    "C30": ("exhaustive enumeration of bounded grammars of data files, row sequences and command lines, replayed on the real builder", "Files outside the grammars are not covered; plus a full rebuild of the package's own data."),
}
TABNOTE = "Complete over the code space for the shipped data; trusts the reference tables, which come from ICU 74 and were cross-checked with Java 17 (Unicode 13.0) where it has the property."
EXTRA = os.path.join(HERE, "tools", "manifest_extra.json")
if os.path.exists(EXTRA):
    TECH.update({k: tuple(v) for k, v in json.load(open(EXTRA)).items()})
checks = []
for line in open(os.path.join(HERE, "properties.jsonl")):
    pid = json.loads(line)["id"]
    t, note = TECH.get(pid, (TABLE, TABNOTE))
    checks.append({"property": pid, "quick_cmd": f"/opt/venv/bin/python run.py {pid} --tier quick",
                   "thorough_cmd": f"/opt/venv/bin/python run.py {pid} --tier thorough",
                   "evidence_file": f"evidence/{pid}.json", "technique": "model checking: " + t,
                   "level": "model_checking", "level_note": note})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python tools/selftest.py", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: the checks copy /repo/UnicodeData to a scratch directory and drive its public API."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
