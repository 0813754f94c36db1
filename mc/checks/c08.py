"""C08: a CPTrie lookup gives the value the trie was built with, for every code
point, and the error value above U+10FFFF; arrays and serialized form alike.

 1. identity tries (value(c) == c) on windows that cover the whole code space,
    both types, 16-bit and 18-bit index-3 blocks, 32-bit values; plus 8- and
    16-bit value versions (c modulo the width) of the same
 2. the bounded family of tries with one or two non-null blocks, from arrays and
    from the serialized form in each value width
 3. the real tries against an independent block-wise expansion of the file.
"""
import struct

from .. import common, tries, triefam
from ..common import load, need

OUT = [0x110000, 0x110001, 0x10FFFFF, 0x7FFFFFFF]


def identity_specs(thorough):
    """(type, width, 18-bit blocks, window start, window stop, highStart, serialized)"""
    out = []
    for ty in (tries.FAST, tries.SMALL):
        low = 0x10000 if ty == tries.FAST else 0x1000
        for width in (tries.W32, tries.W16, tries.W8):
            for hs in ([0x110000, 0x14200, low] if not thorough else [0x110000, 0x10FE00, 0x14200, 0x14000, low + 0x200, low]):
                a = low
                size = 0x28000
                if width != tries.W32 and not thorough:
                    wins = [(0x10000, 0x18000)] if hs > 0x18000 else [(low, hs)]
                elif hs == 0x110000:
                    wins = []
                    while a < hs:
                        wins.append((a, min(a + size, hs)))
                        a += size
                else:
                    wins = [(low, hs)] if hs - low <= size else [(hs - size, hs)]
                for w in wins:
                    for wide in (0, 1):
                        out.append((ty, width, wide) + w + (hs,))
    return out


MOD = {tries.W32: 1 << 32, tries.W16: 65521, tries.W8: 251}


def identity(spec):
    ty, width, wide, a, b, hs = spec
    m = MOD[width]
    low = 0x10000 if ty == tries.FAST else 0x1000
    blocks = {}
    for blk in list(range(0, low >> 4)) + list(range(a >> 4, b >> 4)):
        if blk << 4 < hs:
            blocks[blk] = tuple((blk * 16 + i) % m for i in range(16))
    return tries.CPTrieImage(blocks, kind=ty, width=width, null=m - 1, high=m - 2, error=m - 3, high_start=hs, wide=bool(wide), null_block=ty == tries.SMALL, i3_null=False)


REPLAY_ID = '''from mc.checks import c08
im = c08.identity({spec!r})
T = load("CPTrie").CPTrie
t = T.createFromData(im.serialize()) if {ser} else im.make(T)
got = t.get({c:#x})
want = im.value({c:#x}) if {c:#x} < 0x110000 else im.error
print(got, want)
bad = got != want'''


def _identity(sub, spec, ser):
    im = identity(spec)
    T = need(load("CPTrie"), "CPTrie")
    t = T.createFromData(im.serialize(b"\xEE" * 7)) if ser else im.make(T)
    m = MOD[spec[1]]
    low = 0x10000 if spec[0] == tries.FAST else 0x1000
    a, b, hs = spec[3:]
    nv = 0
    for order in (range(0x110000), range(0x10FFFF, -1, -1)):
        for c in order:
            try:
                got = t.get(c)
            except Exception as e:
                got = f"{type(e).__name__}: {e}"
            if c >= hs:
                want = m - 2
            elif c < low or a <= c < b:
                want = c % m
            else:
                want = m - 1
            if got != want:
                nv += 1
                if nv < 5:
                    sub.violation(f"identity:{spec}:{ser}:{c:X}", f"lookup of U+{c:04X} in the identity trie {spec}{' (serialized)' if ser else ''} gives {got}, expected {want}",
                                  REPLAY_ID.format(spec=spec, c=c, ser=ser))
        sub.count(transitions=0x110000)
    for c in OUT:
        try:
            got = t.get(c)
        except Exception as e:
            got = f"{type(e).__name__}: {e}"
        sub.count(transitions=1)
        if got != m - 3:
            sub.violation(f"identity:{spec}:{ser}:{c:X}", f"lookup of {c:X} (no code point) gives {got}, not the error value", REPLAY_ID.format(spec=spec, c=c, ser=ser))
    sub.count(states=1, traces=1)


REPLAY_FAM = '''from mc import triefam
spec = {spec!r}
im = triefam.cp_image(spec, {width})
t = triefam.cp_make_serialized(spec, {width}) if {ser} else triefam.cp_make(spec, {width})
got = t.get({c:#x})
want = im.value({c:#x})
print(got, want)
bad = got != want'''
BASE = sorted({x for b in range(0, 0x110000, 0x1000) for x in (b, b + 0x1FF, b + 0xFFF)})


def _family(sub, specs):
    T = need(load("CPTrie"), "CPTrie")
    for n, spec in enumerate(specs):
        for width in (tries.W16, tries.W32, tries.W8):
            im = triefam.cp_image(spec, width)
            ser = width != tries.W16 or n & 1
            t = T.createFromData(im.serialize()) if ser else im.make(T)
            pts = set(BASE)
            for p, _, _ in spec[0]:
                pts.update(range(max(0, p - 24), min(0x110000, p + 40)))
            for c in sorted(pts):
                try:
                    got = t.get(c)
                except Exception as e:
                    got = f"{type(e).__name__}: {e}"
                if got != im.value(c):
                    sub.violation(f"family:{spec}:{width}:{c:X}", f"lookup of U+{c:04X} in the trie {spec} (width {width}) gives {got}, expected {im.value(c)}",
                                  REPLAY_FAM.format(spec=spec, c=c, width=width, ser=ser))
                    break
            sub.count(states=1, transitions=len(pts), traces=1)


def parse(data):
    """(index, data, type, highStart, error value) of a serialized trie."""
    sig, opts, il, dl, i3n, dn, sh = struct.unpack_from("<IHHHHHH", data)
    assert sig == 0x54726933
    dl |= (opts & 0xF000) << 4
    width = {0: "H", 1: "I", 2: "B"}[opts & 7]
    index = struct.unpack_from(f"<{il}H", data, 16)
    vals = struct.unpack_from(f"<{dl}{width}", data, 16 + 2 * il)
    return index, vals, opts >> 6 & 3, sh << 9, vals[dl - 1]


def file_tries():
    """(name, serialized trie) of the real data file, cut out without the code under test."""
    d = common.small_icudata()
    hl, = struct.unpack_from("<H", d)
    n, = struct.unpack_from("<I", d, hl)
    items = {}
    for i in range(n):
        no, do = struct.unpack_from("<II", d, hl + 4 + 8 * i)
        name = d[hl + no:d.index(b"\0", hl + no)].decode().split("/", 1)[1]
        items[name] = hl + do
    out = []
    for nm in ("nfkc", "nfkc_cf"):
        o = items[nm + ".nrm"]
        b = o + struct.unpack_from("<H", d, o)[0]
        ix = struct.unpack_from("<20I", d, b)
        out.append((f"{nm}.nrm", d[b + ix[0]:b + ix[1]]))
    o = items["ulayout.icu"]
    b = o + struct.unpack_from("<H", d, o)[0]
    cnt, = struct.unpack_from("<I", d, b)
    ix = struct.unpack_from(f"<{cnt}I", d, b)
    s = cnt * 4
    for k, nm in ((1, "InPC"), (2, "InSC"), (3, "vo")):
        out.append((f"ulayout {nm}", d[b + s:b + ix[k]]))
        s = ix[k]
    return out


def _real(sub, name, blob):
    t = need(load("CPTrie"), "CPTrie").createFromData(blob)
    index, data, ty, hs, err = parse(blob)
    ref = tries.expand_cptrie(list(index), list(data), ty, hs)
    nv = 0
    for order in (range(0x110000), range(0x10FFFF, -1, -1)):
        for c in order:
            got = t.get(c)
            if got != ref[c]:
                nv += 1
                if nv < 5:
                    sub.violation(f"{name}:{c:X}", f"lookup of U+{c:04X} in {name} gives {got}, the file says {ref[c]}",
                                  f"from mc.checks import c08\nblob = dict(c08.file_tries())[{name!r}]\n"
                                  f"got = load('CPTrie').CPTrie.createFromData(blob).get({c:#x})\nprint(got)\nbad = got != {ref[c]}")
        sub.count(transitions=0x110000)
    for c in OUT:
        if t.get(c) != err:
            sub.violation(f"{name}:{c:X}", f"lookup of {c:X} in {name} gives {t.get(c)}, not the error value")
    sub.count(states=1, traces=1)


def run(ctx):
    ctx.stage()
    ids = identity_specs(ctx.thorough)
    # every identity trie in its serialized form; the 32-bit ones from arrays too
    jobs = [(s, True) for s in ids] + [(s, False) for s in ids if s[1] == tries.W32]
    common.parallel(ctx, _identity, jobs)
    kinds = [triefam.UNI, triefam.LAST, triefam.FIRST]
    if ctx.thorough:
        specs = list(triefam.cp_specs(kinds, lambda ty: triefam.CP_HS[ty], triefam.U2_VALUES, triefam.CP_LAYOUT))
    else:
        specs = list(triefam.cp_specs(kinds, lambda ty: triefam.CP_HS[ty], [(0, 9)], triefam.CP_LAYOUT, pairs=False))
        specs += list(triefam.cp_specs([triefam.FIRST], lambda ty: triefam.CP_HS[ty][-2:], [(0, 9)], [(1, 1, 0, 0), (1, 1, 1, 0x10008)]))
    n = common.NCPU * 4
    common.parallel(ctx, _family, [(specs[i::n],) for i in range(n)])
    common.parallel(ctx, _real, file_tries())
    ctx.extra(tries_in_family=len(specs), identity_tries=len(jobs), exhaustive=True)
    ctx.cov["rule"] = "state = one trie; transition = one lookup; trace = one complete sweep compared with the mapping"
    ctx.sample({"identity trie": jobs[0]})
    ctx.sample({"family member": specs[len(specs) // 2]})
