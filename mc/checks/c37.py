"""C37: the three layout tries are found and read wherever the layout item puts them.

ulayout.icu items (the model) are written with every combination of trie type, value
width and size for the three tries, header lengths, numbers of indexes and padding, put
into data packages at different places; the package is imported anew and the three
functions are asked about every character near any value change of any of the tries.
"""
import itertools
import os
import struct

from .. import common, icupkg, triefam, tries
from ..common import load, need

FUNCTIONS = ["getInPC", "getInSC", "getVO"]
TYPES = [(ty, w) for ty in (tries.FAST, tries.SMALL) for w in (tries.W16, tries.W32, tries.W8)]
CONTENTS = [
    # blocks (position, kind, k), high start
    (((0x900, triefam.MIX, 0), (0x11000, triefam.UNI, 1)), 0x14000),
    (((0x0, triefam.UNI, 3), (0xFFF0, triefam.LAST, 2)), 0x10000),
    ((), 0x10000),
    (((0xA00, triefam.FIRST, 4), (0x1F600, triefam.MIX, 40), (0x10FFF0, triefam.UNI, 9)), 0x110000),
    # past 64 KiB when the values are wide (not for 8 bit values)
    (tuple((0x12000 + 16 * i, triefam.MIX, i) for i in range(1600)), 0x30000),
]


def image(n, ty, w, content, null, high):
    blocks, hs = CONTENTS[content]
    return tries.CPTrieImage({p >> 4: triefam.content(kind, 16, null, k + 50 * n) for p, kind, k in blocks}, kind=ty, width=w, null=null, high=high, high_start=hs)


def build(spec):
    """spec: (three (type, width), three contents, header text length, indexes, padding, items before)"""
    tw, contents, extra, count, pad, before = spec
    images = [image(n, *tw[n], contents[n], null=n + 1, high=3 * n) for n in range(3)]
    idx = [0] * count
    idx[0] = count
    body = b""
    for n, im in enumerate(images):
        t = im.serialize()
        t += b"\0" * (-len(t) % 16 + pad * 16)
        body += t
        idx[1 + n] = 4 * count + len(body)
    for n in range(4, 8):
        idx[n] = idx[3]
    idx[9] = 0x0F230300
    item = icupkg.header(b"Layo", b"c" * extra, version=(1, 0, 0, 0)) + struct.pack(f"<{count}I", *idx) + body
    others = [(f"a{i}.icu", icupkg.header() + b"Q" * (7 * i + 3)) for i in range(before)] if before < 100 else [("a.res", b"R" * before)]
    blob, _ = icupkg.package(others + [("ulayout.icu", item)] + [("unames.icu", icupkg.header() + b"zz")])
    return images, blob


def install(spec):
    images, blob = build(spec)
    with open(os.path.join(common.scratch(), "UnicodeData", "Data", "icudata.dat"), "wb") as f:
        f.write(blob)
    common.forget()
    return load("LayoutProps"), images


def family(thorough):
    base = ((tries.SMALL, tries.W8),) * 3
    for tw in itertools.product(TYPES, repeat=3):
        yield tw, (0, 1, 3), 0, 12, 0, 0
    for contents in itertools.product(range(4), repeat=3):
        yield base, contents, 0, 12, 0, 1
        if thorough:
            for t in TYPES:
                yield (t,) * 3, contents, 20, 12, 1, 1
    for extra, count, pad, before in itertools.product((0, 7, 8, 100, 400), (12, 16, 20, 32), (0, 1, 3), (0, 1, 5)):
        yield base, (3, 0, 1), extra, count, pad, before
    # large items, and items far into a large package
    for big in ((tries.SMALL, tries.W32), (tries.FAST, tries.W32), (tries.FAST, tries.W16)):
        for contents in ((4, 0, 1), (0, 4, 1), (4, 4, 4), (1, 3, 4)):
            yield tuple(big if c == 4 else (tries.SMALL, tries.W8) for c in contents), contents, 0, 12, 0, 1
    for before in (0x7F00, 0x8000, 0xFF00, 0x10000, 0x1000000):
        yield base, (3, 0, 1), 0, 12, 0, before


REPLAY = '''from mc.checks import c37
m, images = c37.install({spec!r})
got = m.{f}({c:#x})
print(got, "expected", {want!r})
bad = got != {want!r}'''


def job(sub, specs):
    common.stage(b"")
    nv = 0
    for spec in specs:
        m, images = install(spec)
        asked = {0, 0x7F, 0x80, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFF, 0x10000, 0x10FFFF}
        for im in images:
            for b in im.blocks:
                asked.update(range(b * 16 - 1, b * 16 + 17))
            asked.update((im.high_start - 1, im.high_start))
        asked = sorted(x for x in asked if 0 <= x < 0x110000)
        for f, im in zip(FUNCTIONS, images):
            fn = need(m, f)
            for c in asked:
                want = im.value(c)
                try:
                    got = fn(c)
                except Exception as e:
                    got = f"{type(e).__name__}: {e}"
                if got != want:
                    nv += 1
                    if nv < 6:
                        sub.violation(f"layout:{spec}:{f}:{c:X}", f"{f}(U+{c:04X}) with the item {spec!r} is {got!r}, expected {want!r}", REPLAY.format(spec=spec, f=f, c=c, want=want))
                    else:
                        sub.nviol += 1
        sub.count(states=1, transitions=3 * len(asked), traces=1)
    sub.sample(repr(specs[0]))


def run(ctx):
    specs = list(family(ctx.thorough))
    n = common.NCPU * 2
    common.parallel(ctx, job, [(specs[i::n],) for i in range(n)])
    ctx.extra(items=len(specs), exhaustive=True)
    ctx.cov["rule"] = ("state = one layout item in one data package; transition = one layout property asked and compared with the trie's mapping; "
                       "trace = one import of the package with that item")
