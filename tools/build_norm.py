#!/opt/venv/bin/python
"""Developer tool (not run by any check): builds mc/golden/norm.json.xz, how Unicode
classifies every code point for normalization (C38).

Everything is derived from the installed ICU 74's properties, nothing from the tree: quick
check properties, combining classes, Hangul syllable types, and the primary composites (for
what composes with a following character).  ICU 74 has Unicode 15.1; code points that 13.0
leaves unassigned are inert in the canonical form (nfc); the file forms (nfkc, nfkc_cf) are
ICU 74's own data.
"""
import ctypes, json, lzma, os
L = ctypes.CDLL("libicuuc.so.74")
I32 = ctypes.c_int32


def f(n, res, *args):
    g = getattr(L, n + "_74")
    g.restype, g.argtypes = res, list(args)
    return g


ip = f("u_getIntPropertyValue", I32, I32, ctypes.c_int)
hb = f("u_hasBinaryProperty", ctypes.c_int8, I32, ctypes.c_int)
ccc = f("u_getCombiningClass", ctypes.c_uint8, I32)
_age = f("u_charAge", None, I32, ctypes.c_void_p)
N = 0x110000
NFD_QC, NFKD_QC, NFC_QC, NFKC_QC, HST = 0x100C, 0x100D, 0x100E, 0x100F, 0x100B
NO, YES, MAYBE = 0, 1, 2
err = ctypes.c_int(0)


def inst(name):
    g = getattr(L, f"unorm2_get{name}Instance_74")
    g.restype = ctypes.c_void_p
    return g(ctypes.byref(err))


def decs(name, raw):
    g = f("unorm2_getRawDecomposition" if raw else "unorm2_getDecomposition", I32, ctypes.c_void_p, I32, ctypes.c_void_p, I32, ctypes.c_void_p)
    n, out = inst(name), (ctypes.c_uint16 * 64)()

    def call(c):
        k = g(n, c, out, 64, ctypes.byref(err))
        assert err.value <= 0
        return None if k < 0 else bytes(out)[: 2 * k].decode("utf-16-le", "surrogatepass")
    return call


def old(c):
    b = (ctypes.c_uint8 * 4)()
    _age(c, b)
    return (0, 0) < (b[0], b[1]) <= (13, 0)


# characters that compose with a following one
raw = decs("NFC", True)
starts = set()
for c in range(N):
    d = raw(c)
    if d and len(d) == 2 and not hb(c, 9):      # not excluded from composition
        starts.add(ord(d[0]))

DEC = {"nfc": decs("NFC", False), "nfkc": decs("NFKC", False), "nfkc_cf": decs("NFKCCasefold", False)}
out = {}


def rle(vals):
    res = []
    for v in vals:
        if res and res[-1][1] == v:
            res[-1][0] += 1
        else:
            res.append([1, v])
    return res


for form in DEC:
    qc = NFC_QC if form == "nfc" else NFKC_QC

    def known(c):
        return form != "nfc" or old(c)

    def decomposes(c):
        return known(c) and DEC[form](c) is not None

    def maybe(c):
        return known(c) and not decomposes(c) and (ip(c, qc) == MAYBE or ccc(c) != 0)
    out[form + ":yes"] = rle([not decomposes(c) for c in range(N)])
    if form == "nfc":
        assert all(decomposes(c) == (known(c) and ip(c, NFD_QC) == NO) for c in range(N))
    if form == "nfkc":
        assert all(decomposes(c) == (ip(c, NFKD_QC) == NO) for c in range(N))
    out[form + ":maybe"] = rle([maybe(c) for c in range(N)])
    out[form + ":inert"] = rle([not (decomposes(c) or maybe(c) or known(c) and c in starts) for c in range(N)])
# the same in all three forms
out["LV"] = rle([ip(c, HST) == 4 for c in range(N)])
out["LVT"] = rle([ip(c, HST) == 5 for c in range(N)])
out["jamoL"] = rle([ip(c, HST) == 1 and c in starts for c in range(N)])
out["jamoVT"] = rle([ip(c, HST) in (2, 3) and ip(c, NFC_QC) == MAYBE for c in range(N)])
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "mc", "golden", "norm.json.xz")
with lzma.open(path, "wb", preset=9) as h:
    h.write(json.dumps(out, separators=(",", ":"), sort_keys=True).encode())
print({k: sum(n for n, v in t if v) for k, t in out.items()}, os.path.getsize(path))
