#!/opt/venv/bin/python
"""Developer tool (not run by any check): builds mc/golden/case.json.xz, how Unicode
classifies every code point for case (C39), from the installed ICU 74's properties,
restricted to the characters of age <= 13.0; others have no case.

Differences from the pinned tree are printed for review.
"""
import ctypes, json, lzma, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from mc import common
common.stage(common.small_icudata())
K = common.load("CaseProps")
L = ctypes.CDLL("libicuuc.so.74")
I32 = ctypes.c_int32
hb = L.u_hasBinaryProperty_74
hb.restype, hb.argtypes = ctypes.c_int8, [I32, ctypes.c_int]
ct = L.u_charType_74
ct.restype, ct.argtypes = ctypes.c_int8, [I32]
_age = L.u_charAge_74
_age.restype, _age.argtypes = None, [I32, ctypes.c_void_p]
N = 0x110000


def old(c):
    b = (ctypes.c_uint8 * 4)()
    _age(c, b)
    return (0, 0) < (b[0], b[1]) <= (13, 0)


def case_type(c):
    if not old(c):
        return 0
    if ct(c) == 3:
        return 3
    return 1 if hb(c, 22) else 2 if hb(c, 30) else 0


def rle(vals):
    res = []
    for v in vals:
        if res and res[-1][1] == v:
            res[-1][0] += 1
        else:
            res.append([1, v])
    return res


# UCASE_NONE 0, LOWER 1, UPPER 2, TITLE 3; ignorable 4
typ = [case_type(c) for c in range(N)]
ign = [bool(old(c) and hb(c, 50)) for c in range(N)]
g = K.casePropsTrie.get
bad = [c for c in range(N) if K.getTypeFromProps(g(c)) != typ[c]]
bad2 = [c for c in range(N) if K.getTypeAndIgnorableFromProps(g(c)) != typ[c] | 4 * ign[c]]
print(len(bad), [hex(c) for c in bad[:20]], len(bad2), [(hex(c), K.getTypeAndIgnorableFromProps(g(c))) for c in bad2[:40]])

# Unicode 13.0 where later versions changed it: Other_Lowercase of 10FC and AB69,
# the general category (so Case_Ignorable) of 1734
typ[0x10FC] = typ[0xAB69] = 0
ign[0x1734] = True
out = {"type": rle(typ), "typeIgnorable": rle([t | 4 * i for t, i in zip(typ, ign)]), "upperOrTitle": rle([t >= 2 for t in typ])}
path = os.path.join(HERE, "mc", "golden", "case.json.xz")
with lzma.open(path, "wb", preset=9) as h:
    h.write(json.dumps(out, separators=(",", ":"), sort_keys=True).encode())
print(os.path.getsize(path))
if len(sys.argv) > 1:      # the types as Java 17 (Unicode 13.0) sees them
    j = open(sys.argv[1]).read().split("\n")[-2]
    print("Java differs at", [(hex(c), j[c], typ[c]) for c in range(N) if int(j[c]) != typ[c]][:20])
