"""Independent writer for ICU data packages and for the names data inside them."""
import struct


def header(fmt=b"CmnD", extra=b"", version=(1, 0, 0, 0), data_version=(13, 0, 0, 0), align=16):
    """A udata header; `extra` (e.g. a copyright string) makes it longer."""
    n = 4 + 20 + len(extra) + 1
    n += -n % align
    h = struct.pack("<HBB", n, 0xDA, 0x27) + struct.pack("<HHBBBB", 20, 0, 0, 0, 2, 0) + fmt + bytes(version) + bytes(data_version)
    return (h + extra).ljust(n, b"\0")


def package(items, prefix="icudt69l", extra=b"", gap=0, order=None, pad=b"\xAA"):
    """items: [(name, bytes)].  `order` is the order of the data (default: that of the
    table of contents).  Returns (package bytes, {name: offset})."""
    hdr = header(b"CmnD", extra)
    n = len(items)
    names, noff = bytearray(), []
    for name, _ in items:
        noff.append(4 + 8 * n + len(names))
        names += f"{prefix}/{name}".encode() + b"\0"
    pos = 4 + 8 * n + len(names)
    body = bytearray(pad * (-(len(hdr) + pos) % 16 + gap))
    doff = [0] * n
    for i in (order or range(n)):
        doff[i] = pos + len(body)
        body += items[i][1]
        body += pad * (-len(items[i][1]) % 16)
    toc = b"".join(struct.pack("<II", a, b) for a, b in zip(noff, doff))
    out = hdr + struct.pack("<I", n) + toc + bytes(names) + bytes(body)
    return out, {items[i][0]: len(hdr) + doff[i] for i in range(n)}


def encode_lengths(lengths):
    """32 line lengths in ICU's variable-width nibbles: n < 12 is one nibble, 12..75
    two: 0xC + high two bits, low nibble of n - 12."""
    assert len(lengths) == 32
    nib = []
    for n in lengths:
        if n < 12:
            nib.append(n)
        else:
            assert n <= 75
            nib += [0xC | (n - 12) >> 4, (n - 12) & 15]
    if len(nib) & 1:
        nib.append(0)
    return bytes(a << 4 | b for a, b in zip(nib[::2], nib[1::2]))


class Names:
    """lines: {code point: encoded line (bytes)}; tokens: {byte or (lead, trail): text};
    ranges: [("prefix", start, end, digits, text)] or
    [("factor", start, end, factors, prefix, [[elements], ...])]."""

    def __init__(self, lines, tokens=None, ranges=(), token_count=None, extra=b""):
        self.lines, self.tokens, self.ranges = lines, tokens or {}, list(ranges)
        leads = sorted({k[0] for k in self.tokens if isinstance(k, tuple)})
        if token_count is None:
            top = max([k if isinstance(k, int) else (k[0] << 8 | k[1]) for k in self.tokens] + [0])
            token_count = top + 1
        strings = b""
        table = [0xFFFF] * token_count
        for le in leads:
            table[le] = 0xFFFE
        for k in sorted(self.tokens, key=lambda x: (x if isinstance(x, int) else x[0] << 8 | x[1])):
            pos = k if isinstance(k, int) else k[0] << 8 | k[1]
            table[pos] = len(strings)
            strings += self.tokens[k].encode("latin-1") + b"\0"
        self.token_count = token_count
        self.table = table
        groups = sorted({c >> 5 for c in lines})
        gdata, gstr = b"", b""
        for g in groups:
            ls = [lines.get(g * 32 + i, b"") for i in range(32)]
            off = len(gstr)
            gdata += struct.pack("<HHH", g, off >> 16, off & 0xFFFF)
            gstr += encode_lengths([len(x) for x in ls]) + b"".join(ls)
        tok = struct.pack("<H", token_count) + struct.pack(f"<{token_count}H", *table)
        if len(tok) & 3:
            # genname keeps the token count even, so that the strings follow at once
            raise ValueError("token count must be odd so that 2 + 2 * count is a multiple of 4")
        strings += b"\0" * (-len(strings) % 2)
        o_tokstr = 16 + len(tok)
        o_groups = o_tokstr + len(strings)
        gs = struct.pack("<H", len(groups)) + gdata
        o_gstr = o_groups + len(gs)
        gstr += b"\0" * (-(o_gstr + len(gstr)) % 4)
        o_alg = o_gstr + len(gstr)
        alg = struct.pack("<I", len(self.ranges))
        for r in self.ranges:
            if r[0] == "prefix":
                _, a, b, digits, text = r
                body = text.encode() + b"\0"
                body += b"\0" * (-(12 + len(body)) % 4)
                alg += struct.pack("<IIBBH", a, b, 0, digits, 12 + len(body)) + body
            else:
                _, a, b, factors, text, elems = r
                body = struct.pack(f"<{len(factors)}H", *factors) + text.encode() + b"\0"
                for f, es in zip(factors, elems):
                    assert len(es) == f
                    for e in es:
                        body += e.encode() + b"\0"
                body += b"\0" * (-(12 + len(body)) % 4)
                alg += struct.pack("<IIBBH", a, b, 1, len(factors), 12 + len(body)) + body
        self.blob = header(b"unam", extra) + struct.pack("<IIII", o_tokstr, o_groups, o_gstr, o_alg) + tok + strings + gs + gstr + alg

    # the meaning of all this
    def expand(self, line):
        out, i = "", 0
        while i < len(line):
            b = line[i]
            i += 1
            if b in self.tokens:
                out += self.tokens[b]
            elif b < self.token_count and self.table[b] == 0xFFFE:
                out += self.tokens.get((b, line[i]), "")
                i += 1
            elif b == 0x3B:
                break
            else:
                out += chr(b)
        return out

    def name(self, c, choice=0):
        for r in self.ranges:
            if r[1] <= c <= r[2]:
                if choice not in (0, 2):
                    return ""
                if r[0] == "prefix":
                    return r[4] + format(c, f"0{r[3]}X")
                _, a, b, factors, text, elems = r
                n = c - a
                idx = []
                for f in reversed(factors[1:]):
                    idx.insert(0, n % f)
                    n //= f
                idx.insert(0, n)
                return text + "".join(e[i] for e, i in zip(elems, idx))
        line = self.lines.get(c, b"")
        if choice in (1, 3, 4):
            f = line.split(b";")
            k = 2 if choice == 4 else choice
            line = f[k] if k < len(f) else b""
        return self.expand(line)

    def all_names(self, choice=0):
        out = {}
        cand = set(self.lines)
        for r in self.ranges:
            cand.update(range(r[1], r[2] + 1))
        for c in sorted(cand):
            n = self.name(c, choice)
            if n:
                out[c] = n
        return out
