#!/opt/venv/bin/python
"""Rebuild mc/golden/values.json: value names from the ICU library, constants from
the ICU headers (evaluated by gcc).  Needs libicuuc 74 and its headers."""
import ctypes, importlib, json, re, subprocess, sys, tempfile, os
sys.dont_write_bytecode = True
sys.path.insert(0, "/repo")
H = "/usr/include/unicode/"
u = ctypes.CDLL("libicuuc.so.74")
f = u.u_getPropertyValueName_74
f.restype, f.argtypes = ctypes.c_char_p, [ctypes.c_int] * 3
src = "".join(open(H + h).read() for h in ("uchar.h", "uscript.h"))


def gcc(names):
    names = [n for n in names if re.search(r"\b" + n + r"\b", src)]
    with tempfile.TemporaryDirectory() as d:
        c = os.path.join(d, "k.c")
        with open(c, "w") as o:
            o.write("#include <stdio.h>\n#include <unicode/uchar.h>\n#include <unicode/uscript.h>\nint main(void){")
            o.write("".join(f'printf("{n} %lld\\n",(long long){n});' for n in names) + "return 0;}")
        subprocess.run(["gcc", "-w", c, "-o", c[:-2]], check=True)
        return {a: int(b) for a, b in (l.split() for l in subprocess.run([c[:-2]], capture_output=True, text=True, check=True).stdout.splitlines())}


def ints(m):
    return sorted(k for k, v in vars(importlib.import_module("UnicodeData." + m)).items() if isinstance(v, int) and not k.startswith("_"))


PROPS = dict(bidiClass="BIDI_CLASS", block="BLOCK", decompositionType="DECOMPOSITION_TYPE", eastAsianWidth="EAST_ASIAN_WIDTH", generalCategory="GENERAL_CATEGORY",
             graphemeClusterBreak="GRAPHEME_CLUSTER_BREAK", hangulSyllableType="HANGUL_SYLLABLE_TYPE", indicPositionalCategory="INDIC_POSITIONAL_CATEGORY",
             indicSyllabicCategory="INDIC_SYLLABIC_CATEGORY", joiningGroup="JOINING_GROUP", joiningType="JOINING_TYPE", lineBreak="LINE_BREAK",
             numberType="NUMERIC_TYPE", sentenceBreak="SENTENCE_BREAK", script="SCRIPT", verticalOrientation="VERTICAL_ORIENTATION", wordBreak="WORD_BREAK")
enum = gcc(["UCHAR_" + p for p in PROPS.values()])
names, longs = {}, {}
for n, p in PROPS.items():
    names[n] = {}
    longs[n] = {}
    for v in range(400):
        long = f(enum["UCHAR_" + p], v, 1)
        s = f(enum["UCHAR_" + p], v, 0) or long
        if s:
            names[n][v] = s.decode()
            longs[n][v] = long.decode()
const = {}
for m in ("uchar_h", "uscript_h", "CharDirection", "Blocks", "Scripts", "JoiningTypesAndGroups", "EastAsianWidth", "DecompositionType", "LayoutTypes"):
    const[m] = gcc(ints(m))
    const[m].pop("USCRIPT_CODE_LIMIT", None)            # grows with every version
    missing = set(ints(m)) - set(const[m]) - {"USCRIPT_CODE_LIMIT"}
    assert not missing, (m, missing)
alias = {}
for m, rules in (("GeneralCategories", (("GC_", "U_"),)), ("Boundaries", (("GCB_", "U_GCB_"), ("WB_", "U_WB_"), ("SB_", "U_SB_"), ("LB_", "U_LB_")))):
    want = {}
    for k in ints(m):
        for a, b in rules:
            if k.startswith(a):
                want[k] = ("U_" + k) if k.endswith("_MASK") and m == "GeneralCategories" else b + k[len(a):]
                break
    vals = gcc(sorted(set(want.values())))
    const[m] = {k: vals[w] for k, w in want.items() if w in vals}
    print(m, "not in the headers:", sorted(k for k in ints(m) if k not in const[m]))
print({k: len(v) for k, v in const.items()})
with open("/verif/mc/golden/values.json", "w") as o:
    json.dump({"names": names, "long": longs, "constants": const}, o, separators=(",", ":"), sort_keys=True)
