"""Bounded families of tries for C06..C09: every combination of block position,
block content, highStart, null value, high value and layout option in the stated
sets, built by mc.tries, against the code under test."""
import itertools
import time

from . import common, tries

# contents of a 32-value (UTrie2) or 16-value (CPTrie) block
UNI, LAST, FIRST, MIX = "uniform", "last", "first", "mixed"


def content(kind, n, null, k=0):
    if kind == UNI:
        return (5 + k,) * n
    if kind == LAST:
        return (null,) * (n - 1) + (6 + k,)
    if kind == FIRST:
        return (6 + k,) + (null,) * (n - 1)
    return tuple(20 + k + i for i in range(n))


U2_POS = [0x0, 0x60, 0x80, 0xD7E0, 0xD800, 0xDBE0, 0xDC00, 0xDFE0, 0xE000, 0xFFE0, 0x10000, 0x107E0, 0x10800, 0x17FE0, 0x10FFE0]
U2_HS = [0x800, 0xE000, 0x10000, 0x10800, 0x18000, 0x110000]
U2_VALUES = [(0, 0), (0, 9), (7, 5), (5, 5)]        # (null, high): 5 is also a block value


def u2_specs(pos, kinds, hss, values, pairs=True):
    """A spec is (blocks, null, high, high_start); blocks = ((position, kind, k), ...)."""
    for hs in hss:
        ps = sorted(set(p for p in pos if p < hs) | {hs - 0x20, max(0, hs - 0x800)})
        sel = [()] + [((p, k, 0),) for p in ps for k in kinds + [MIX]]
        if pairs:
            sel += [((p, k, 0), (q, m, 0 if k == m else 1)) for p, q in itertools.combinations(ps, 2) for k in kinds for m in kinds]
        for null, high in values:
            for b in sel:
                yield b, null, high, hs


def u2_image(spec):
    blocks, null, high, hs = spec
    return tries.Utrie2Image({p >> 5: content(k, 32, null, n) for p, k, n in blocks}, null=null, high=high, high_start=hs)


def u2_make(spec):
    return u2_image(spec).make(common.load("Utrie2").UTrie2)


CP_POS = {tries.FAST: [0x0, 0x70, 0x80, 0xD800, 0xDC00, 0xFFC0, 0xFFF0, 0x10000, 0x101F0, 0x10200, 0x13FF0, 0x14000, 0x10FFF0],
          tries.SMALL: [0x0, 0x70, 0x80, 0xFC0, 0xFF0, 0x1000, 0x11F0, 0x1200, 0x3FF0, 0x4000, 0xD800, 0xFFF0, 0x10000, 0x14000, 0x10FFF0]}
CP_HS = {tries.FAST: [0x10000, 0x10200, 0x14000, 0x14200, 0x110000], tries.SMALL: [0x1000, 0x1200, 0x4000, 0x10000, 0x110000]}
# (null data block, index-3 null block, 18-bit index-3 blocks, padding)
CP_LAYOUT = [(1, 1, 0, 0), (1, 0, 0, 0), (0, 0, 0, 0), (1, 1, 1, 0), (0, 0, 1, 0), (1, 1, 1, 0x10008)]


def cp_specs(kinds, hss, values, layouts, types=(tries.FAST, tries.SMALL), pairs=True):
    for ty in types:
        for hs in hss(ty):
            ps = sorted(set(p for p in CP_POS[ty] if p < hs) | {hs - 0x10, max(0, hs - 0x200)})
            sel = [()] + [((p, k, 0),) for p in ps for k in kinds + [MIX]]
            if pairs:
                sel += [((p, k, 0), (q, m, 0 if k == m else 1)) for p, q in itertools.combinations(ps, 2) for k in kinds for m in kinds]
            for lay in layouts:
                for null, high in values:
                    for b in sel:
                        yield b, null, high, hs, ty, lay


def cp_image(spec, width=tries.W16):
    blocks, null, high, hs, ty, (nb, i3, wide, pad) = spec
    if pad and not wide:
        raise ValueError
    fast_limit = 0x10000 if ty == tries.FAST else 0x1000
    if pad:
        # padding pushes later data blocks beyond 0xFFFF, which only index-3 blocks can address
        blocks = tuple(b for b in blocks if b[0] >= fast_limit)
    return tries.CPTrieImage({p >> 4: content(k, 16, null, n) for p, k, n in blocks}, kind=ty, width=width, null=null, high=high,
                             high_start=hs, null_block=bool(nb), i3_null=bool(i3), wide=bool(wide), pad=pad)


def cp_make(spec, width=tries.W16):
    return cp_image(spec, width).make(common.load("CPTrie").CPTrie)


def cp_make_serialized(spec, width=tries.W16):
    return common.load("CPTrie").CPTrie.createFromData(cp_image(spec, width).serialize())


def got_ranges(trie, start, limit, **kw):
    """What the enumerator delivers, as (start, stop, value); stops on runaway output."""
    out = []
    for r, v in trie.enumerator(start, limit, **kw):
        out.append((r.start, r.stop, v))
        if len(out) > 300000:
            out.append("... runaway")
            break
    return out


def pace(ctx, make, specs):
    """How many times slower than ICU's block-wise enumeration this one is (1 at least).
    An enumeration that looks at every code point gets a thinner family, so that the
    check still ends; the evidence says so.  Returns (thinned specs, CPU limit)."""
    spec = next((s for s in reversed(specs) if s[3] == 0x110000), specs[-1])
    t = make(spec)
    best = None
    for _ in range(3):
        t0 = time.process_time()
        try:
            with common.cpu_limit(60, "enumeration"):
                got_ranges(t, 0, 0x110000)
        except Exception:
            return specs, 20           # the family reports it
        d = time.process_time() - t0
        best = d if best is None else min(best, d)
        if best < 0.01:
            break
    slow = max(1, best / 0.0005)
    step = max(1, int(slow / 10))
    ctx.extra(family_thinned_by=step)
    return specs[::step], 20 * step


def windows(spec_blocks, hs, unit):
    """[start, limit) pairs around the listed blocks and the structural boundaries."""
    near = set()
    groups = []
    for b in spec_blocks:
        p = b[0]
        g = sorted(x for x in {p - 1, p, p + 1, p + unit - 1, p + unit, p + unit + 1} if 0 <= x <= 0x110000)
        groups.append(g)
        near.update(g)
    fixed = [x for x in (0, 0xD800, 0xDC00, 0xE000, 0x10000, hs, min(hs + 1, 0x110000), 0x110000)]
    out = {(0, 0x110000)}
    for g in groups:
        out.update(itertools.combinations(g, 2))
    for x in near:
        out.add((0, x))
        out.add((x, 0x110000))
    if len(groups) > 1:
        for x in groups[0][1:5]:
            for y in groups[-1][1:5]:
                if x < y:
                    out.add((x, y))
    for a, b in itertools.combinations(sorted(set(fixed)), 2):
        out.add((a, b))
    return sorted(w for w in out if w[0] < w[1])
