"""C28: value names and constants.

Every (property, value) pair of the name dictionaries against ICU's names, every
constant against ICU's headers, both for the generated modules and for the hand
written ones; every value that any accessor returns for any code point has a name,
and the reverse lookup by name gives the value back; the reported Unicode version
is that of the newest character in the data.
"""
import importlib
import json
import os

from .. import common
from ..common import load

DICTS = {  # property -> modules offering a dictionary for it
    "generalCategory": ["GeneralCategories.generalCategories"], "bidiClass": ["CharDirection.bidiClassNames"], "block": ["Blocks.blockNames"],
    "script": ["Scripts.scriptCodes"], "joiningType": ["JoiningTypesAndGroups.joiningTypes"], "joiningGroup": ["JoiningTypesAndGroups.joiningGroups"],
    "eastAsianWidth": ["EastAsianWidth.eastAsianWidthNames"], "decompositionType": ["DecompositionType.decompositionTypeNames"],
    "graphemeClusterBreak": ["Boundaries.graphemeClusterBreakNames"], "wordBreak": ["Boundaries.wordBreakNames"],
    "sentenceBreak": ["Boundaries.sentenceBreakNames"], "lineBreak": ["Boundaries.lineBreakNames"], "indicPositionalCategory": ["LayoutTypes.inpcNames"],
    "indicSyllabicCategory": ["LayoutTypes.inscNames"], "verticalOrientation": ["LayoutTypes.voNames"], "hangulSyllableType": [], "numberType": [],
}
ACCESSORS = {
    "generalCategory": "CharProps.getGeneralCategory", "bidiClass": "BidiProps.getCharDirection", "block": "CharProps.getBlock", "script": "CharProps.getScript",
    "joiningType": "BidiProps.getJoiningType", "joiningGroup": "BidiProps.getJoiningGroup", "eastAsianWidth": "CharProps.getEastAsianWidth",
    "decompositionType": "CharProps.getDecompType", "graphemeClusterBreak": "CharProps.getGraphemeClusterBreak", "wordBreak": "CharProps.getWordBreak",
    "sentenceBreak": "CharProps.getSentenceBreak", "lineBreak": "CharProps.getLineBreak", "indicPositionalCategory": "LayoutProps.getInPC",
    "indicSyllabicCategory": "LayoutProps.getInSC", "verticalOrientation": "LayoutProps.getVO", "numberType": "CharProps.getNumericType",
}
# the number of values of each property in Unicode 13 / ICU 69
COUNT = {"bidiClass": 23, "block": 309, "decompositionType": 18, "eastAsianWidth": 6, "generalCategory": 30, "graphemeClusterBreak": 18,
         "hangulSyllableType": 6, "indicPositionalCategory": 16, "indicSyllabicCategory": 36, "joiningGroup": 102, "joiningType": 6, "lineBreak": 43,
         "numberType": 4, "sentenceBreak": 15, "script": 193, "verticalOrientation": 4, "wordBreak": 23}


# constants of single characters: the characters they are named after
CHARACTERS = {
    "TAB": 9, "LF": 10, "FF": 12, "CR": 13, "DEL": 0x7F, "NL": 0x85, "SPACE": "SPACE", "NBSP": "NO-BREAK SPACE", "CGJ": "COMBINING GRAPHEME JOINER",
    "FIGURESP": "FIGURE SPACE", "HAIRSP": "HAIR SPACE", "ZWNJ": "ZERO WIDTH NON-JOINER", "ZWJ": "ZERO WIDTH JOINER", "RLM": "RIGHT-TO-LEFT MARK",
    "NNBSP": "NARROW NO-BREAK SPACE", "WJ": "WORD JOINER", "INHSWAP": "INHIBIT SYMMETRIC SWAPPING", "NOMDIG": "NOMINAL DIGIT SHAPES",
    "ZWNBSP": "ZERO WIDTH NO-BREAK SPACE",
    **{f"U_{x}": f"LATIN CAPITAL LETTER {x}" for x in "AFZ"}, **{f"U_{x}": f"LATIN SMALL LETTER {x.upper()}" for x in "afz"},
    **{f"U_FW_{x}": f"FULLWIDTH LATIN CAPITAL LETTER {x}" for x in "AFZ"}, **{f"U_FW_{x}": f"FULLWIDTH LATIN SMALL LETTER {x.upper()}" for x in "afz"},
}


def characters(ctx):
    m = load("Characters")
    inv = {n: int(c, 16) for c, n in json.loads(common.read_data("names.json.xz"))["name"].items()}
    for k, want in CHARACTERS.items():
        want = inv.get(want, want)
        k = k if k == "ZWNBSP" else "CH_" + k
        got = getattr(m, k, "missing")
        ctx.count(states=1, transitions=1)
        if got != want:
            ctx.violation(f"Characters.{k}", f"Characters.{k} is {got!r}, the character is U+{want:04X}", f"bad = getattr(load('Characters'), {k!r}, None) != {want}")
    ctx.count(traces=1)


def golden():
    with open(os.path.join(common.VERIF, "mc", "golden", "values.json")) as f:
        g = json.load(f)
    with open(os.path.join(common.VERIF, "mc", "golden", "private_headers.json")) as f:
        g["constants"].update(json.load(f))       # of ICU 69's uprops.h and ucase.h, which no installation has
    return g


def want_name(prop, name):
    if prop == "decompositionType":
        return name.lower()
    if prop in ("indicPositionalCategory", "indicSyllabicCategory"):
        return name
    return name.replace("_", " ")


def dictionaries(ctx, g):
    for prop, mods in DICTS.items():
        want = {int(v): want_name(prop, n) for v, n in g["names"][prop].items() if int(v) < COUNT[prop]}
        for path in [f"UCDTypeDictionaries.{prop}Names"] + mods:
            m, a = path.split(".")
            d = getattr(load(m), a, None)
            if d is None:
                ctx.violation(path, f"{path} is not offered any more", f"bad = not hasattr(load({m!r}), {a!r})")
                continue
            d = dict(enumerate(d)) if isinstance(d, (list, tuple)) else dict(d)
            for v in sorted(set(want) | set(d), key=str):
                ctx.count(states=1, transitions=1)
                if d.get(v) != want.get(v):
                    ctx.violation(f"{path}[{v!r}]", f"{path} names value {v!r} {d.get(v)!r}, ICU has {want.get(v)!r}",
                                  f"d = load({m!r}).{a}\nd = dict(enumerate(d)) if isinstance(d, list) else d\nprint(d.get({v!r}))\nbad = d.get({v!r}) != {want.get(v)!r}")
            if len(set(want.values())) != len(want):
                raise RuntimeError("reference names are ambiguous: " + prop)
            ctx.count(traces=1)


def constants(ctx, g):
    n = 0
    for m, cs in g["constants"].items():
        mod = load(m)
        for k, v in cs.items():
            n += 1
            got = getattr(mod, k, "missing")
            if got != v or isinstance(got, bool):
                ctx.violation(f"{m}.{k}", f"{m}.{k} is {got!r}, ICU defines it as {v}", f"got = getattr(load({m!r}), {k!r}, 'missing')\nprint(got)\nbad = got != {v!r}")
        ctx.count(states=len(cs), transitions=len(cs), traces=1)
    return n


def exported(ctx, g):
    """The same constants wherever else a module offers them, and those of the data formats
    (ubidi_props.h, ucptrie_impl.h, normalizer2impl.h, ulayout_props.h, unames.cpp)."""
    with open(os.path.join(common.VERIF, "mc", "golden", "impl_constants.json")) as f:
        own = json.load(f)
    header, vague = {}, set()
    for cs in g["constants"].values():
        for k, v in cs.items():
            if header.setdefault(k, v) != v:
                vague.add(k)
    n = 0
    for file in sorted(os.listdir(os.path.join(ctx.root, "UnicodeData"))):
        m = file[:-3]
        if not file.endswith(".py") or m in g["constants"] or m == "__init__":
            continue
        mod = load(m)
        for k, v in sorted(vars(mod).items()):
            want = own.get(m, {}).get(k, None if k in vague else header.get(k))
            if type(v) is not int or want is None:
                continue
            n += 1
            if v != want:
                ctx.violation(f"{m}.{k}", f"{m}.{k} is {v}, ICU defines it as {want}", f"got = getattr(load({m!r}), {k!r}, {want})\nprint(got)\nbad = got != {want!r}")
        ctx.count(traces=1)
    ctx.count(states=n, transitions=n)
    return n


def _values(sub, prop, names):
    m, a = ACCESSORS[prop].split(".")
    f = getattr(load(m), a)
    seen = {}
    for c in range(0x110000):
        v = f(c)
        if v not in seen:
            seen[v] = c
    d = getattr(load("UCDTypeDictionaries"), prop + "Names")
    inverse = {n: v for v, n in d.items()}
    for v, c in seen.items():
        if v not in d:
            sub.violation(f"{prop}:{v}", f"{a}(U+{c:04X}) is {v}, a value without a name",
                          f"v = load({m!r}).{a}({c:#x})\nbad = v not in load('UCDTypeDictionaries').{prop}Names")
        elif inverse[d[v]] != v:
            sub.violation(f"{prop}:{v}", f"{prop} values {v} and {inverse[d[v]]} share the name {d[v]!r}",
                          f"d = load('UCDTypeDictionaries').{prop}Names\nbad = list(d.values()).count({d[v]!r}) > 1")
    sub.count(states=len(seen), transitions=0x110000, traces=1)
    sub.extra(**{f"values_{prop}": len(seen)})


def version(ctx):
    P = load("CharProps")
    top = max(tuple(P.getAge(c))[:2] for c in range(0x110000))
    got = load("UnicodeVersion").unicodeVersion
    ctx.count(states=1, transitions=0x110000, traces=1)
    if not got.startswith(f"{top[0]}.{top[1]}"):
        ctx.violation("version", f"unicodeVersion is {got!r} but the newest characters are of {top[0]}.{top[1]}",
                      "P = load('CharProps')\ntop = max(tuple(P.getAge(c))[:2] for c in range(0x110000))\nbad = not load('UnicodeVersion').unicodeVersion.startswith('%d.%d' % top)")


def masks(ctx):
    f = getattr(load("CharProps"), "gcMask", None)
    if f:
        for v in range(30):
            ctx.count(states=1, transitions=1)
            if f(v) != 1 << v:
                ctx.violation(f"gcMask:{v}", f"gcMask({v}) is {f(v):#x}", f"bad = load('CharProps').gcMask({v}) != {1 << v}")


def run(ctx):
    ctx.stage("small")
    g = golden()
    for m in ("CharProps", "BidiProps", "LayoutProps", "UCDTypeDictionaries"):
        load(m)
    dictionaries(ctx, g)
    ctx.extra(constants=constants(ctx, g))
    ctx.extra(constants_offered_by_other_modules=exported(ctx, g))
    characters(ctx)
    masks(ctx)
    version(ctx)
    common.parallel(ctx, _values, [(p, None) for p in ACCESSORS])
    ctx.extra(exhaustive=True)
    ctx.cov["rule"] = "state = one (dictionary, value), constant or (property, returned value); transition = one comparison or accessor call; trace = one dictionary, module or accessor completely"
    ctx.sample({"dictionary": "scriptNames[25]", "want": g["names"]["script"]["25"]})
    ctx.assumptions += ["names and constants are those of ICU 74, which never changes the ones ICU 69 had"]
