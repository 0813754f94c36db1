"""Independent builders (and block-wise expanders) for the two ICU trie formats,
written from the format descriptions.  They are the oracle side: a mapping goes
in, the frozen arrays come out, so the expected answer is the mapping itself."""
import bisect
import struct

MAXCP = 0x110000


def rle(pairs):
    """Merge adjacent equal values of [(start, stop, value)]."""
    out = []
    for a, b, v in pairs:
        if a >= b:
            continue
        if out and out[-1][2] == v and type(out[-1][2]) is type(v) and out[-1][1] == a:
            out[-1][1] = b
        else:
            out.append([a, b, v])
    return [tuple(x) for x in out]


def _ranges(self, start=0, limit=MAXCP, f=None):
    """What enumerating [start, limit) must deliver: the maximal runs of equal values."""
    f = f or (lambda v: v)
    sh = self.SHIFT
    mask = (1 << sh) - 1
    if not hasattr(self, "_order"):
        self._order = sorted(b for b in self.blocks if b << sh < self.high_start)
    out = []
    c = start
    stop = min(limit, self.high_start)
    for b in self._order[bisect.bisect_left(self._order, start >> sh):]:
        lo = b << sh
        if lo >= stop:
            break
        if c < lo:
            out.append((c, lo, f(self.null)))
            c = lo
        e = min(lo + mask + 1, stop)
        vals = self.blocks[b]
        out.extend((k, k + 1, f(vals[k & mask])) for k in range(c, e))
        c = e
    if c < stop:
        out.append((c, stop, f(self.null)))
        c = stop
    if c < limit:
        out.append((c, limit, f(self.high)))
    return rle(out)


# ---------------------------------------------------------------- UTrie2

class Utrie2Image:
    """The code point to value map, given as {block number (c >> 5): 32 values};
    blocks not listed hold `null`; everything from highStart on is `high`."""

    def __init__(self, blocks, null=0, high=0, error=0xBAD, high_start=0x110000, dedupe=True, share_index2=True):
        assert high_start % 0x800 == 0
        self.blocks, self.null, self.high, self.error, self.high_start = blocks, null, high, error, high_start
        self.build(dedupe, share_index2)

    def value(self, c):
        if c >= self.high_start:
            return self.high
        b = self.blocks.get(c >> 5)
        return b[c & 31] if b else self.null

    SHIFT = 5
    ranges = _ranges

    def build(self, dedupe, share_index2):
        high_start, null, high = self.high_start, self.null, self.high
        nullblock = (null,) * 32
        highblock = (high,) * 32
        n1 = max(0, (high_start - 0x10000) >> 11)

        def block(b):
            if b << 5 >= high_start:
                return highblock
            return tuple(self.blocks.get(b, nullblock))
        # index-2 blocks of the supplementary planes
        i2blocks, i2of = [], []
        nulli2 = None
        for i in range(n1):
            t = tuple(block((0x10000 >> 5) + i * 64 + k) for k in range(64))
            if all(x == nullblock for x in t):
                if nulli2 is None:
                    nulli2 = len(i2blocks)
                    i2blocks.append(t)
                i2of.append(nulli2)
            elif share_index2 and t in i2blocks:
                i2of.append(i2blocks.index(t))
            else:
                i2of.append(len(i2blocks))
                i2blocks.append(t)
        i1 = 2048 + 32 + 32
        base = i1 + n1
        index_length = (base + 64 * len(i2blocks) + 3) & ~3
        data = []
        where = {}

        def place(t):
            if dedupe and t in where:
                return where[t]
            pos = index_length + len(data)
            data.extend(t)
            where.setdefault(t, pos)
            return pos
        # linear ASCII, then 64 error values
        for b in range(4):
            t = block(b)
            pos = index_length + len(data)
            data.extend(t)
            if t != nullblock:
                where.setdefault(t, pos)
        ascii_pos = [index_length + 32 * b for b in range(4)]
        data.extend([self.error] * 64)
        null_pos = index_length + len(data)
        data.extend(nullblock)
        where[nullblock] = null_pos
        index = [0] * index_length
        for b in range(2048):
            if b < 4:
                pos = ascii_pos[b]
            elif 0xD800 >> 5 <= b < 0xDC00 >> 5:
                # lead surrogate code units: give them a value of their own, lookups
                # of the code points must not use it
                pos = place((0x5AD,) * 32)
            else:
                pos = place(block(b))
            index[b] = pos >> 2
        for k in range(32):
            index[2048 + k] = place(block((0xD800 >> 5) + k)) >> 2
            index[2080 + k] = 0
        for i in range(n1):
            index[i1 + i] = base + 64 * i2of[i]
        for n, t in enumerate(i2blocks):
            for k in range(64):
                index[base + 64 * n + k] = place(t[k]) >> 2
        high_index = index_length + len(data)
        data.extend([high] * 4)
        self.index = index + data
        self.args = (self.index, index_length, 0xFFFF if nulli2 is None else base + 64 * nulli2, null_pos, high_start, high_index)

    def make(self, UTrie2):
        return UTrie2(*self.args, initialValue=self.null)


def expand_utrie2(index, index_length, high_start, high_index):
    """All 0x110000 values of a frozen 16-bit UTrie2, block by block."""
    out = [0] * MAXCP
    for b in range(0x10000 >> 5):
        i2 = index[2048 + b - (0xD800 >> 5)] if 0xD800 >> 5 <= b < 0xDC00 >> 5 else index[b]
        out[b * 32:b * 32 + 32] = index[i2 * 4:i2 * 4 + 32]
    for i1 in range((high_start - 0x10000) >> 11):
        p = index[2048 + 32 + 32 + i1]
        for k in range(64):
            c = 0x10000 + (i1 << 11) + (k << 5)
            d = index[p + k] * 4
            out[c:c + 32] = index[d:d + 32]
    hv = index[high_index]
    for c in range(max(0x10000, high_start), MAXCP):
        out[c] = hv
    assert len(out) == MAXCP
    return out


# ---------------------------------------------------------------- CPTrie

FAST, SMALL = 0, 1
W16, W32, W8 = 0, 1, 2


class CPTrieImage:
    """Mapping given as {small block number (c >> 4): 16 values}, default null."""

    def __init__(self, blocks, kind=FAST, width=W16, null=0, high=0, error=0xAD, high_start=0x110000,
                 null_block=True, i3_null=True, wide=False, pad=0, overlap=False):
        assert high_start % 0x200 == 0 and high_start >= (0x10000 if kind == FAST else 0x1000)
        self.blocks, self.kind, self.width, self.null, self.high, self.error, self.high_start = \
            blocks, kind, width, null, high, error, high_start
        self.opts = (null_block, i3_null, wide, pad, overlap)
        self.build(null_block, i3_null, wide, pad, overlap)

    def value(self, c):
        if c >= self.high_start:
            return self.high
        b = self.blocks.get(c >> 4)
        return b[c & 15] if b else self.null

    SHIFT = 4
    ranges = _ranges

    def build(self, null_block, i3_null, wide, pad, overlap):
        null, hs = self.null, self.high_start
        fast_limit = 0x10000 if self.kind == FAST else 0x1000
        n16 = (null,) * 16

        def small(b):
            return tuple(self.blocks.get(b, n16))
        data = []
        where = {}
        # ASCII is linear: blocks 0 and 1 of 64
        fast_index = []
        for i in range(2):
            fast_index.append(len(data))
            for k in range(4):
                data.extend(small(i * 4 + k))
        null_off = 0xFFFFF
        if null_block:
            null_off = len(data)
            data.extend((null,) * 64)
            where[(null,) * 64] = null_off
            where[n16] = null_off
        if pad:
            data.extend([0x77] * (pad - len(data)))

        def place(t, gran):
            if t in where:
                return where[t]
            if overlap:                      # any earlier occurrence, as ICU's compaction does
                for p in range(0, len(data) - len(t) + 1, 4):
                    if tuple(data[p:p + len(t)]) == t:
                        where[t] = p
                        return p
            p = len(data)
            data.extend(t)
            where[t] = p
            return p
        for i in range(2, fast_limit >> 6):
            t = sum((small(i * 4 + k) for k in range(4)), ())
            fast_index.append(place(t, 64))
        index = list(fast_index)
        i3null = 0x7FFF
        if hs > fast_limit:
            first1 = 4 if self.kind == FAST else 0
            n1 = ((hs + 0x3FFF) >> 14) - first1
            i3blocks, i3of = [], {}
            i2blocks, i2of = [], []
            for i in range(first1, first1 + n1):
                i2 = []
                for j in range(32):
                    c = (i << 14) + (j << 9)
                    if c >= hs:
                        i2.append(("pad",))
                        continue
                    t = []
                    for k in range(32):
                        b = (c >> 4) + k
                        t.append(("n",) if (small(b) == n16 and null_block) else small(b))
                    t = tuple(t)
                    if t not in i3of:
                        i3of[t] = len(i3blocks)
                        i3blocks.append(t)
                    i2.append(t)
                i2 = tuple(i2)
                if i2 not in i2blocks:
                    i2blocks.append(i2)
                i2of.append(i2blocks.index(i2))
            # layout: index-1, then index-3 blocks, then index-2 blocks
            pos = len(index) + n1
            i3pos = []
            i3data = []
            for t in i3blocks:
                offs = [null_off if x == ("n",) else place(x, 16) for x in t]
                big = wide or max(offs) > 0xFFFF
                if big:
                    i3pos.append((pos + len(i3data)) | 0x8000)
                    for g in range(0, 32, 8):
                        upper = 0
                        for m in range(8):
                            upper |= (offs[g + m] >> 16 & 3) << (14 - 2 * m)
                        i3data.append(upper)
                        i3data.extend(o & 0xFFFF for o in offs[g:g + 8])
                else:
                    i3pos.append(pos + len(i3data))
                    i3data.extend(offs)
                if i3_null and all(x == ("n",) for x in t):
                    i3null = i3pos[-1]
            i2base = pos + len(i3data)
            i2data = []
            for t in i2blocks:
                i2data.extend(i3pos[0] if x == ("pad",) else i3pos[i3of[x]] for x in t)
            index += [i2base + 32 * n for n in i2of]
            index += i3data + i2data
        if self.width == W32 and len(index) & 1:
            index.append(0)
        data += [self.high, self.error]
        self.index, self.data = index, data
        self.null_off, self.i3null = null_off, i3null
        assert len(data) < 0x40000 and max(fast_index) <= 0xFFFF

    def serialize(self, tail=b""):
        opts = (len(self.data) >> 16 << 12) | ((self.null_off >> 16 & 0xF) << 8) | (self.kind << 6) | self.width
        h = struct.pack("<IHHHHHH", 0x54726933, opts, len(self.index), len(self.data) & 0xFFFF, self.i3null,
                        self.null_off & 0xFFFF, self.high_start >> 9)
        fmt = {W16: "H", W32: "I", W8: "B"}[self.width]
        return h + struct.pack(f"<{len(self.index)}H", *self.index) + struct.pack(f"<{len(self.data)}{fmt}", *self.data) + tail

    def make(self, CPTrie):
        return CPTrie(self.index, self.data, self.kind, self.width, self.i3null, self.null_off, self.high_start,
                      (self.high_start + 0xFFF) >> 12)


def expand_cptrie(index, data, kind, high_start):
    """All values of a frozen trie, block by block (16-bit and 18-bit index-3)."""
    out = [0] * MAXCP
    fast_limit = 0x10000 if kind == FAST else 0x1000
    for b in range(fast_limit >> 6):
        out[b * 64:b * 64 + 64] = data[index[b]:index[b] + 64]
    i1base = 1024 - 4 if kind == FAST else 64
    for c in range(fast_limit, high_start, 0x200):
        i3 = index[index[i1base + (c >> 14)] + (c >> 9 & 31)]
        for k in range(32):
            if i3 & 0x8000:
                g = (i3 & 0x7FFF) + (k // 8) * 9
                d = ((index[g] >> (14 - 2 * (k % 8))) & 3) << 16 | index[g + 1 + k % 8]
            else:
                d = index[i3 + k]
            out[c + 16 * k:c + 16 * k + 16] = data[d:d + 16]
    hv = data[len(data) - 2]
    for c in range(high_start, MAXCP):
        out[c] = hv
    assert len(out) == MAXCP
    return out
