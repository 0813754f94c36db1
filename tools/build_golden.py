#!/opt/venv/bin/python
"""Developer tool (not run by any check): builds mc/golden/*.json.xz.

Reference values for every code point.  Source: the installed ICU 74 (Unicode
15.1), for the code points that Unicode 13.0 already assigned (its Age says
which).  Where Unicode changed a value between 13.0 and 15.1, and for code
points that 13.0 leaves unassigned, the table has the value of the pinned tree;
every such code point of the first kind is printed, so that the list can be
reviewed (see DESIGN.md, "Golden tables").
"""
import ctypes, json, lzma, os, sys, warnings
warnings.simplefilter("ignore")
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import common
common.stage(common.small_icudata())
from mc.common import load

L = ctypes.CDLL("libicuuc.so.74")


def f(n, res=ctypes.c_int32, *args):
    g = getattr(L, n + "_74")
    g.restype, g.argtypes = res, list(args)
    return g


I32 = ctypes.c_int32
ip = f("u_getIntPropertyValue", I32, I32, ctypes.c_int)
hb = f("u_hasBinaryProperty", ctypes.c_int8, I32, ctypes.c_int)
_age = f("u_charAge", None, I32, ctypes.c_void_p)
N = 0x110000
CP, BP, KP = load("CharProps"), load("BidiProps"), load("CaseProps")
N2, LP = load("Normalizer2"), load("LayoutProps")
B = CP


def age(c):
    b = (ctypes.c_uint8 * 4)()
    _age(c, b)
    return [b[0], b[1], b[2], b[3]]


AGE = [age(c) for c in range(N)]
OLD = [(0, 0) < tuple(a[:2]) <= (13, 0) for a in AGE]
NEVER = [tuple(a[:2]) == (0, 0) for a in AGE]       # unassigned in 15.1 too
print("assigned in 13.0:", sum(OLD), file=sys.stderr)


def rle(vals):
    out, prev, start = [], object(), 0
    for i, v in enumerate(vals):
        if v != prev:
            if i: out.append([i - start, prev])
            prev, start = v, i
    out.append([len(vals) - start, prev])
    return out


tables, report = {}, {}
MAPPINGS = "mirror bpb lower upper title fullLower fullUpper fullTitle".split()
CHR = [chr(c) for c in range(N)]


def table(name, sut, icu, conv=lambda v: v, exact=False):
    mine = [conv(sut(c)) for c in range(N)]
    diffs = []
    nd = 0
    if icu:
        for c in range(N):
            if exact or OLD[c]:
                v = icu(c)
                if v != mine[c]: diffs.append(c)
            elif NEVER[c]:
                if icu(c) != mine[c]: nd += 1
    # mappings: null stands for the code point itself
    tables[name] = rle([None if v in (c, CHR[c]) else v for c, v in enumerate(mine)] if name in MAPPINGS else mine)
    if diffs or nd or not icu:
        report[name] = diffs
        print(f"{name:28} diffs {len(diffs)} unassigned diffs {nd}" + ("" if icu else " NO ORACLE"), [hex(c) for c in diffs[:14]], file=sys.stderr)


def intp(e): return lambda c: ip(c, e)
def binp(e): return lambda c: bool(hb(c, e))


table("gc", CP.getGeneralCategory, intp(0x1005))
table("sc", CP.getScript, intp(0x100A))
table("blk", CP.getBlock, intp(0x1001))
table("ea", CP.getEastAsianWidth, intp(0x1004))
table("lb", CP.getLineBreak, intp(0x1008))
table("SB", CP.getSentenceBreak, intp(0x1013))
table("WB", CP.getWordBreak, intp(0x1014))
table("GCB", CP.getGraphemeClusterBreak, intp(0x1012))
table("dt", CP.getDecompType, intp(0x1003))
table("nt", CP.getNumericType, intp(0x1009))
nv = f("u_getNumericValue", ctypes.c_double, I32)
table("nv", CP.getNumericValue, lambda c: None if nv(c) == -123456789.0 else nv(c), conv=lambda v: v)
table("digit", CP.digitValue, f("u_charDigitValue", I32, I32))
table("age", CP.getAge, lambda c: AGE[c])
table("bc", BP.getCharDirection, intp(0x1000))
for name, fn, icu in [
    ("mirrored", BP.isMirrored, "u_isMirrored"),
]:
    g = f(icu, ctypes.c_int8, I32)
    table(name, fn, lambda c: bool(g(c)))
table("mirror", BP.getMirror, f("u_charMirror", I32, I32))
table("bpt", BP.getPairedBracketType, intp(0x1015))
table("bpb", BP.getPairedBracket, f("u_getBidiPairedBracket", I32, I32))
table("bidic", BP.isBidiControl, binp(2))
table("joinc", BP.isJoinControl, binp(20))
table("jt", BP.getJoiningType, intp(0x1007))
table("jg", BP.getJoiningGroup, intp(0x1006))
table("lower", KP.toLower, f("u_tolower", I32, I32))
table("upper", KP.toUpper, f("u_toupper", I32, I32))
table("title", KP.toTitle, f("u_totitle", I32, I32))

# full case mappings, root locale
UB = ctypes.c_uint16 * 16
def full(fn, title=False):
    g = getattr(L, fn + "_74")
    g.restype = I32
    def call(c):
        if 0xD800 <= c < 0xE000:
            return chr(c)
        s = chr(c).encode("utf-16-le")
        src = (ctypes.c_uint16 * (len(s) // 2)).from_buffer_copy(s)
        out, err = UB(), ctypes.c_int(0)
        if title:
            # (dest, cap, src, len, iter, locale, err)
            n = g(out, 16, src, len(s) // 2, None, b"", ctypes.byref(err))
        else:
            n = g(out, 16, src, len(s) // 2, b"", ctypes.byref(err))
        assert err.value <= 0, (hex(c), err.value)
        return bytes(out)[: 2 * n].decode("utf-16-le", "surrogatepass")
    return call
table("fullLower", KP.toFullLower, full("u_strToLower"))
table("fullUpper", KP.toFullUpper, full("u_strToUpper"))
try:
    t = full("u_strToTitle", True); t(0x61)
except Exception as e:
    print("title oracle unusable:", e, file=sys.stderr); t = None
table("fullTitle", KP.toFullTitle, t)

# binary properties
UCHAR = dict(ALPHABETIC=0, ASCII_HEX_DIGIT=1, DASH=4, DEFAULT_IGNORABLE_CODE_POINT=5, DEPRECATED=6, DIACRITIC=7, EXTENDER=8,
    GRAPHEME_BASE=10, GRAPHEME_EXTEND=11, GRAPHEME_LINK=12, HEX_DIGIT=13, HYPHEN=14, ID_CONTINUE=15, ID_START=16, IDEOGRAPHIC=17,
    IDS_BINARY_OPERATOR=18, IDS_TRINARY_OPERATOR=19, LOGICAL_ORDER_EXCEPTION=21, MATH=23, NONCHARACTER_CODE_POINT=24,
    QUOTATION_MARK=25, RADICAL=26, TERMINAL_PUNCTUATION=28, UNIFIED_IDEOGRAPH=29, WHITE_SPACE=31, XID_CONTINUE=32, XID_START=33,
    S_TERM=35, VARIATION_SELECTOR=36, PATTERN_SYNTAX=42, PATTERN_WHITE_SPACE=43, PREPENDED_CONCATENATION_MARK=63)
UCHAR = {k: v for k, v in UCHAR.items()}
for k in sorted(UCHAR):
    sh = getattr(CP, "UPROPS_" + k)
    table("bin1:" + k, lambda c: CP.getBinaryProp(c, sh), binp(UCHAR[k]))
E2 = dict(EMOJI=57, EMOJI_PRESENTATION=58, EMOJI_MODIFIER=59, EMOJI_MODIFIER_BASE=60, EMOJI_COMPONENT=61, EXTENDED_PICTOGRAPHIC=64)
for k in sorted(E2):
    sh = getattr(CP, "UPROPS_2_" + k)
    table("bin2:" + k, lambda c: CP.getBinaryProp(c, sh, 2), binp(E2[k]))

# predicates
PRED = dict(isLower="u_islower", isUpper="u_isupper", isTitle="u_istitle", isDigit="u_isdigit", isHexDigit="u_isxdigit", isalpha="u_isalpha",
    isAlphabetic="u_isUAlphabetic", isalnum="u_isalnum", isDefined="u_isdefined", isbase="u_isbase", iscntrl="u_iscntrl",
    isISOControl="u_isISOControl", isspace="u_isspace", isJavaSpaceChar="u_isJavaSpaceChar", isWhiteSpace="u_isWhitespace",
    isBlank="u_isblank", isUWhiteSpace="u_isUWhiteSpace", isPrint="u_isprint", isgraph="u_isgraph",
    ispunct="u_ispunct", isIDStart="u_isIDStart", isIDPart="u_isIDPart", isIDIgnorable="u_isIDIgnorable",
    isJavaIDStart="u_isJavaIDStart", isJavaIDPart="u_isJavaIDPart",
    isalnumPOSIX=44, isPrintPOSIX=47, isGraphPOSIX=46)
for k, v in PRED.items():
    if isinstance(v, int):
        table("is:" + k, getattr(CP, k), binp(v))
    else:
        g = f(v, ctypes.c_int8, I32)
        table("is:" + k, getattr(CP, k), lambda c: bool(g(c)))

# layout: ICU 74's own data, so exact
table("inpc", LP.getInPC, intp(0x1016), exact=True)
table("insc", LP.getInSC, intp(0x1017), exact=True)
table("vo", LP.getVO, intp(0x1018), exact=True)

# decompositions
def norm(name):
    err = ctypes.c_int(0)
    g = getattr(L, "unorm2_get%sInstance_74" % name)
    g.restype = ctypes.c_void_p
    n = g(ctypes.byref(err))
    assert err.value <= 0
    return n
NF = {"nfc": norm("NFC"), "nfkc": norm("NFKC"), "nfkc_cf": norm("NFKCCasefold")}
def dec(n, raw):
    g = getattr(L, "unorm2_getRawDecomposition_74" if raw else "unorm2_getDecomposition_74")
    g.restype, g.argtypes = I32, [ctypes.c_void_p, I32, ctypes.c_void_p, I32, ctypes.c_void_p]
    out, err = (ctypes.c_uint16 * 64)(), ctypes.c_int(0)
    def call(c):
        k = g(n, c, out, 64, ctypes.byref(err))
        assert err.value <= 0
        return None if k < 0 else bytes(out)[: 2 * k].decode("utf-16-le", "surrogatepass")
    return call
for nm, obj in (("nfc", N2.nfcTrie), ("nfkc", N2.nfkcTrie), ("nfkc_cf", N2.nfkc_cfTrie)):
    ex = nm != "nfc"
    table(nm, obj.getDecomposition, dec(NF[nm], False), exact=ex)
    d = dec(NF[nm], True)
    table(nm + "_raw", obj.getRawDecomposition, (lambda c: d(c) or None) if ex else d, exact=ex)
ccc = f("u_getCombiningClass", ctypes.c_uint8, I32)
tables["ccc"] = rle([ccc(c) for c in range(N)])

# names: ICU's own data
CN = load("CharNames").CharNames
g = f("u_charName", I32, I32, ctypes.c_int, ctypes.c_void_p, I32, ctypes.c_void_p)
def nm(choice):
    out, err = ctypes.create_string_buffer(256), ctypes.c_int(0)
    def call(c):
        g(c, choice, out, 256, ctypes.byref(err))
        assert err.value <= 0
        return out.value.decode()
    return call
names = {}
for ch, label in ((0, "name"), (3, "alias")):
    o = nm(ch)
    vals = [o(c) for c in range(N)]
    bad = [c for c in range(N) if CN.getCharName(c, ch) != vals[c]]
    print(label, "diffs", len(bad), [hex(c) for c in bad[:8]], file=sys.stderr)
    names[label] = {format(c, "X"): v for c, v in enumerate(vals) if v}

out = os.path.join(common.VERIF, "mc", "golden")
def dump(fn, obj):
    with lzma.open(os.path.join(out, fn), "wb", preset=9) as h:
        h.write(json.dumps(obj, separators=(",", ":"), sort_keys=True).encode())
    print(fn, os.path.getsize(os.path.join(out, fn)), file=sys.stderr)
dump("tables.json.xz", tables)
dump("names.json.xz", names)
json.dump({k: [hex(c) for c in v] for k, v in report.items()}, open(os.path.join(out, "exceptions.json"), "w"), indent=0)
