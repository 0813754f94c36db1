"""C27: character records of the UCD XML file carry what the file says.

Every attribute x every value of its domain x every placement (on the character,
on its group, on both with different values, absent where the file may leave it
out), and every pair of attributes: the record built by the code under test is
compared field by field, so that an attribute that leaks into another's field
shows as well.
"""
import itertools
from fractions import Fraction
from xml.etree.ElementTree import Element

from .. import common
from ..common import load, need

CPS = ["0041", "00AD", "3400", "1F468", "10FFFD"]


def text(v, cp):
    return v


def boolean(v, cp):
    return v == "Y"


def spaces(v, cp):
    return v.replace("_", " ")


def own(cp):
    return chr(int(cp, 16))


def chars(v, cp):
    return own(cp) if v == "#" or v is None else "".join(chr(int(x, 16)) for x in v.split())


def dm(v, cp):
    return None if v in ("#", "", None) else "".join(chr(int(x, 16)) for x in v.split())


def dm_own(v, cp):
    return own(cp) if v == "#" else dm(v, cp)


def number(v, cp):
    return None if v == "NaN" else float(Fraction(v))


def number_got(g):
    return None if g is None else float(g)


def ccc(v, cp):
    return int(v)


def glyph(v, cp):
    return int(cp, 16) if v in ("", None) else int(v, 16)


def bracket(v, cp):
    return int(cp, 16) if v == "#" else int(v, 16)


def name(v, cp):
    return v.replace("#", cp)


def scx(v, cp):
    return v.split()


MAP = ["#", "0062", "10FFFF", "0061 0062", "0046 0066 1F468"]
BOOL = ["N", "Y"]
# attribute -> [(path of the field, decoder)], values, may be absent
A = {}


def attr(a, values, *fields, optional=True):
    A[a] = (fields, values, optional)


def build_table():
    attr("na", ["SPACE", "CJK UNIFIED IDEOGRAPH-#", "", "A-B #"], ("name", name))
    attr("gc", ["Lu", "Cn", "Zs"], ("generalCategory", text))
    attr("ccc", ["0", "1", "230", "240"], ("combiningClass", ccc), optional=False)
    attr("nt", ["None", "De", "Di", "Nu"], ("numericType", text))
    attr("nv", ["NaN", "0", "7", "-1/2", "1/160", "3/2", "1000000000000", "216000"], ("numericValue", number), optional=False)
    attr("sc", ["Latn", "Zyyy"], ("script", text))
    attr("scx", ["Latn", "Arab Copt", "Beng Deva Gran Knda"], ("scriptExtensions", scx))
    attr("blk", ["ASCII", "CJK_Ext_A", "Sup_Math_Operators"], ("block", spaces))
    attr("jt", ["U", "T", "D"], ("joiningType", text))
    attr("jg", ["No_Joining_Group", "Teh_Marbuta", "Alef"], ("joiningGroup", spaces))
    attr("lb", ["AL", "BK"], ("lineBreak", text))
    attr("SB", ["XX", "LE"], ("sentenceBreak", text))
    attr("WB", ["XX", "WSegSpace"], ("wordBreak", text))
    attr("GCB", ["XX", "SM"], ("graphemeClusterBreak", text))
    attr("ea", ["N", "Na"], ("eastAsianWidth", text))
    attr("hst", ["NA", "LVT"], ("hangulSyllableType", text))
    attr("JSN", ["", "GG"], ("jamoShortName", text))
    attr("vo", ["R", "Tu"], ("verticalOrientation", text))
    attr("InSC", ["Other", "Vowel_Dependent"], ("indicProperties.syllabicCategory", text))
    attr("InPC", ["NA", "Top_And_Left"], ("indicProperties.positionalCategory", text))
    attr("bc", ["L", "AL"], ("bidiProperties.bidiClass", text))
    attr("bmg", ["", "0029", "2A7E"], ("bidiProperties.bidiMirroredGlyph", glyph))
    attr("bpt", ["n", "o"], ("bidiProperties.bidiPairedBracketType", text))
    attr("bpb", ["#", "0029", "FF63"], ("bidiProperties.bidiPairedBracket", bracket), optional=False)
    attr("dt", ["none", "can", "com"], ("decompProperties.decompositionType", text))
    attr("dm", ["#", "0041 0300", "212B"], ("decompProperties.decomposition", dm))
    for q in ("NFC", "NFD", "NFKC", "NFKD"):
        attr(q + "_QC", ["Y", "N"] + (["M"] if q in ("NFC", "NFKC") else []), (f"decompProperties.{q.lower()}QuickCheck", text))
        attr("XO_" + q, BOOL, ("decompProperties.expandOn" + q, boolean))
    attr("CE", BOOL, ("decompProperties.compositionExclusion", boolean))
    attr("Comp_Ex", BOOL, ("decompProperties.fullCompositionExclusion", boolean))
    attr("FC_NFKC", ["#", "0061", "0061 0300"], ("decompProperties.nfkcFullClosure", dm))
    attr("NFKC_CF", MAP + [""], ("decompProperties.nfkcCaseFolded", dm_own), ("caseProperties.nkfcCasefold", chars))
    for a, f in (("suc", "simpleUpperCase"), ("slc", "simpleLowerCase"), ("stc", "simpleTitleCase"), ("uc", "upperCase"), ("lc", "lowerCase"),
                 ("tc", "titleCase"), ("scf", "simpleCaseFolding"), ("cf", "caseFolding")):
        attr(a, MAP if not a.startswith("s") else MAP[:3], ("caseProperties." + f, chars))
    for a, f in (("Upper", "upper"), ("Lower", "lower"), ("OUpper", "otherUpper"), ("OLower", "otherLower"), ("CI", "caseIgnorable"), ("Cased", "cased"),
                 ("CWCF", "changesWhenCaseFolded"), ("CWCM", "changesWhenCasedMapped"), ("CWL", "changesWhenLowercased"), ("CWKCF", "changesWhenNFKCCaseFolded"),
                 ("CWT", "changesWhenTitlecased"), ("CWU", "changesWhenUppercased")):
        attr(a, BOOL, ("caseProperties." + f, boolean))
    attr("Bidi_M", BOOL, ("bidiProperties.bidiMirrored", boolean))
    attr("Bidi_C", BOOL, ("bidiProperties.bidiControl", boolean))
    attr("Join_C", BOOL, ("isJoiningControl", boolean))
    for a, f in (("Emoji", "emoji"), ("EPres", "emojiPresentation"), ("EMod", "emojiModifier"), ("EBase", "emojiModifierBase"), ("EComp", "emojiComponent"),
                 ("ExtPict", "extendedPictograph")):
        attr(a, BOOL, (f, boolean))
    for f, a in (("whitespace", "WSpace"), ("dash", "Dash"), ("hyphen", "Hyphen"), ("quotationMark", "QMark"), ("terminalPunctuation", "Term"),
                 ("sentenceTerminalPunctuation", "STerm"), ("diacritic", "Dia"), ("extender", "Ext"), ("prependedConcatenationMark", "PCM"),
                 ("softDotted", "SD"), ("alphabetic", "Alpha"), ("otherAlphabetic", "OAlpha"), ("math", "Math"), ("otherMath", "OMath"),
                 ("hexDigit", "Hex"), ("asciiHexDigit", "AHex"), ("defaultIgnorable", "DI"), ("otherDefaultIgnorable", "ODI"),
                 ("logicalOrderException", "LOE"), ("regionalIndicator", "RI"), ("graphemeBase", "Gr_Base"), ("graphemeExtended", "Gr_Ext"),
                 ("otherGraphemeExtended", "OGr_Ext"), ("graphemeLink", "Gr_Link"), ("ideographic", "Ideo"), ("unifiedIdeographic", "UIdeo"),
                 ("idsBinaryOperator", "IDSB"), ("idsTrinaryOperator", "IDST"), ("radical", "Radical"), ("deprecated", "Dep"),
                 ("variationSelector", "VS"), ("nonCharacterCodePoint", "NChar"), ("idStart", "IDS"), ("otherIDStart", "OIDS"), ("xIDStart", "XIDS"),
                 ("idContinue", "IDC"), ("otherIDContinue", "OIDC"), ("xIDContinue", "XIDC"), ("patternSyntax", "Pat_Syn"), ("patternWhitespace", "Pat_WS")):
        attr(a, BOOL, ("binaryProperties." + f, boolean))


build_table()
ATTRS = sorted(A)


def expected(char, group):
    cp = char["cp"]
    out = {"cp": cp, "codePoint": int(cp, 16)}
    for a in ATTRS:
        v = char.get(a, group.get(a))
        for path, dec in A[a][0]:
            if v is None:
                if dec in (chars, glyph, dm, dm_own):
                    want = dec(None, cp)
                elif dec is boolean:
                    want = False
                elif dec is scx:
                    continue
                else:
                    want = dec("", cp)
            else:
                want = dec(v, cp)
            out[path] = want
    return out


def observe(C, char, group):
    e, g = Element("char", char), Element("group", group)
    r = C(e, g)
    return r


def get(r, path):
    for p in path.split("."):
        r = getattr(r, p)
    return r


REPLAY = '''from mc.checks import c27
C = load('CharacterData').CharacterData
got = c27.get(c27.observe(C, {char!r}, {group!r}), {path!r})
print(repr(got), repr({want!r}))
bad = got != {want!r}'''

BASE = {"ccc": "0", "nv": "NaN", "bpb": "#"}


def check(sub, C, char, group, paths=None):
    want = expected(char, group)
    try:
        r = observe(C, char, group)
    except Exception as e:
        if not common.from_sut(e):
            raise
        sub.violation(f"{char}/{group}"[:300], f"record of char {char}, group {group}: {type(e).__name__}: {e}",
                      f"from mc.checks import c27\nC = load('CharacterData').CharacterData\nbad = 0\ntry:\n    c27.observe(C, {char!r}, {group!r})\nexcept Exception as e:\n    print(e); bad = 1")
        return False
    ok = True
    n = 0
    for path, w in want.items():
        n += 1
        try:
            g = get(r, path)
        except AttributeError as e:
            g = e
        if isinstance(w, float):
            same = not isinstance(g, Exception) and g is not None and not isinstance(g, str) and abs(float(g) - w) <= 1e-12 * max(1, abs(w))
        else:
            same = type(g) is not str and type(w) is not str and g == w or (type(g) is type(w) and g == w)
        if not same:
            ok = False
            sub.violation(f"{path}:{char}:{group}"[:300], f"{path} of char {char}, group {group} is {g!r}, expected {w!r}",
                          REPLAY.format(char=char, group=group, path=path, want=w))
    sub.count(states=1, transitions=n, traces=1)
    return ok


def place(a, v, other, how):
    """(char attributes, group attributes)"""
    return {"char": ({a: v}, {}), "group": ({}, {a: v}), "both": ({a: v}, {a: other}), "absent": ({}, {})}[how]


def _single(sub, attrs):
    C = load("CharacterData").CharacterData
    for a in attrs:
        _, values, optional = A[a]
        for cp in CPS:
            for where in ("char", "group"):
                for how in ("char", "group", "both") + (("absent",) if optional else ()):
                    for v in values if how != "absent" else values[:1]:
                        for other in [o for o in values if o != v] if how == "both" else [None]:
                            c, g = place(a, v, other, how)
                            char, group = {"cp": cp}, {}
                            base = {k: x for k, x in BASE.items() if k != a}
                            (char if where == "char" else group).update(base)
                            char.update(c)
                            group.update(g)
                            check(sub, C, char, group)


def _pairs(sub, pairs):
    C = load("CharacterData").CharacterData
    for a, b in pairs:
        va, vb = A[a][1], A[b][1]
        for x, y in ((va[1], vb[1]), (va[1], vb[0]), (va[0], vb[1])):
            for ha, hb in itertools.product(("char", "group", "both") if sub.thorough else ("char", "both"), repeat=2):
                ca, ga = place(a, x, next(o for o in va if o != x), ha)
                cb, gb = place(b, y, next(o for o in vb if o != y), hb)
                char = dict({"cp": "1F468"}, **BASE)
                for k in (a, b):
                    char.pop(k, None)
                char.update(ca)
                char.update(cb)
                check(sub, C, char, dict(ga, **gb))


def _full(sub):
    """All attributes at once: all at their first, second or last values, by each placement."""
    C = load("CharacterData").CharacterData
    for cp in CPS:
        for pick in (lambda v: v[0], lambda v: v[1], lambda v: v[-1]):
            full = {a: pick(A[a][1]) for a in ATTRS}
            for k in range(len(ATTRS) + 1):
                # the first k attributes on the character, the others on the group
                check(sub, C, dict({"cp": cp}, **{a: full[a] for a in ATTRS[:k]}), {a: full[a] for a in ATTRS[k:]})


def _job(sub, name, *a):
    globals()[name](sub, *a)


def run(ctx):
    ctx.stage()
    load("CharacterData")
    pairs = list(itertools.combinations(ATTRS, 2))
    n = common.NCPU * 2
    jobs = [("_single", ATTRS[i::n]) for i in range(n)] + [("_pairs", pairs[i::n]) for i in range(n)] + [("_full",)]
    common.parallel(ctx, _job, jobs)
    ctx.extra(attributes=len(ATTRS), attribute_pairs=len(pairs), exhaustive=True)
    ctx.cov["rule"] = "state = one (char, group) element pair; transition = one field compared; trace = one record built from elements and compared completely"
    ctx.sample({"attribute": "nv", "values": A["nv"][1], "placements": ["char", "group", "both"]})
    ctx.assumptions += ["cp is on the character; ccc, nv and bpb are always given, as the UCD files do"]
