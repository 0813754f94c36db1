"""C23: any ICU data package is read as its table of contents says.

Every synthetic package of the families below (written by mc.icupkg) is loaded by
the code under test; every item is looked up, its header decoded and its bytes
read back.
  A  item sets x data orders x header lengths x gaps x package prefixes
  B  item headers: every field set to each of its boundary values, all pairs
  C  every (start, limit) slice of a small package; every string of it
  D  the header's length: every multiple of 16 to 2048 and the largest ones
  E  size: up to some 70 000 items, long names and prefixes, offsets past 16 bits and
     24 bits, empty items, the table of contents in either order.
"""
import itertools
import os
import struct
import sys

from .. import common, icupkg
from ..common import cpu_limit


def install(root, blob):
    with open(os.path.join(root, "UnicodeData", "Data", "icudata.dat"), "wb") as f:
        f.write(blob)
    common.forget()
    return common.load("ICUDataFile").ICUData


FIELDS = [("headerLength", "H"), ("magic1", "B"), ("magic2", "B"), ("infoSize", "H"), ("reservedWord", "H"), ("isBigEndian", "B"),
          ("charsetFamily", "B"), ("sizeofUChar", "B"), ("reservedByte", "B"), ("dataFormat", "4s"), ("fvMajor", "B"), ("fvMinor", "B"),
          ("fvMilli", "B"), ("fvMicro", "B"), ("dvMajor", "B"), ("dvMinor", "B"), ("dvMilli", "B"), ("dvMicro", "B")]


def pack(values):
    return struct.pack("<" + "".join(f for _, f in FIELDS), *[values[n] for n, _ in FIELDS])


def base_header():
    v = dict(zip([n for n, _ in FIELDS], [32, 0xDA, 0x27, 20, 0, 0, 0, 2, 0, b"unam", 1, 2, 3, 4, 13, 5, 6, 7]))
    return v


REPLAY = '''from mc.checks import c23
blob = c23.blob_of({spec!r})
D = c23.install(common.scratch(), blob)()
{call}
print(got, want)
bad = got != want'''


def blob_of(spec):
    return make(spec)[0]


def make(spec):
    """spec -> (blob, {name: offset}, {name: bytes}, {name: header})"""
    kind = spec[0]
    heads = {}
    if kind == "A":
        _, names, order, extra, gap, prefix, pad = spec
        items = []
        for i, n in enumerate(names):
            h = base_header()
            h["dvMicro"] = i
            body = pack(h) + bytes([i + 1]) * (8 + 5 * i)
            heads[n] = h
            items.append((n, body))
        blob, offs = icupkg.package(items, prefix, b"C" * extra, gap, order, pad)
    elif kind == "B":
        h = dict(base_header(), **dict(spec[1]))
        heads["x.icu"] = h
        items = [("w.res", b"ABCDEF"), ("x.icu", pack(h) + b"payload")]
        blob, offs = icupkg.package(items)
    elif kind == "C":
        items = [("a.res", bytes(range(1, 40))), ("b/c.res", b"one\0two\0\0three\0")]
        blob, offs = icupkg.package(items)
    elif kind == "E":
        _, count, width, big, prefix, order = spec
        items = []
        for i in range(count):
            n = f"{'d/' * (i % 3)}i{i:0{width}d}.{('icu', 'nrm', 'res')[i % 3]}"
            body = b"%d:" % i * (i % 4)
            if i in (0, count // 2, count - 1):
                h = dict(base_header(), dvMilli=i & 255, dvMicro=i >> 8 & 255)
                heads[n] = h
                body = pack(h) + body
            items.append((n, body + bytes(big if i == count // 3 else 0)))
        if order == "descending":
            items.reverse()
        blob, offs = icupkg.package(items, prefix, b"", 0, range(count) if order != "scattered" else sorted(range(count), key=lambda i: i * 40503 & 0xFFFF))
    else:
        h = base_header()
        heads["x.icu"] = h
        items = [("x.icu", pack(h) + b"payload")]
        # a header of exactly spec[1] bytes
        blob, offs = icupkg.package(items, extra=b"D" * (spec[1] - 25))
        assert struct.unpack("<H", blob[:2])[0] == spec[1], spec
    return blob, offs, dict(items), heads


def check(sub, root, spec):
    blob, offs, data, heads = make(spec)

    def bad(msg, call, key):
        sub.violation(f"{spec!r}:{key}"[:300], f"package {spec!r}: {msg}", REPLAY.format(spec=spec, call=call))

    n = 0
    try:
        with cpu_limit(20, "loading"):
            D = install(root, blob)()
            for name, body in data.items():
                off = offs[name]
                got = D.getDataOffset(name)
                n += 3
                if got != off:
                    bad(f"{name} is found at {got}, it is at {off}", f"got, want = D.getDataOffset({name!r}), {off}", "off:" + name)
                    continue
                got = bytes(D.getData(off, off + len(body)))
                if got != body:
                    bad(f"data of {name} is {got!r}, expected {body!r}"[:400], f"got, want = bytes(D.getData({off}, {off + len(body)})), c23.make({spec!r})[2][{name!r}]", "data:" + name)
                if name in heads:
                    o2, h = D.getDataOffsetAndHeader(name)
                    want = dict(heads[name])
                    gh = {k: getattr(h, k) for k, _ in FIELDS}
                    if isinstance(gh["dataFormat"], str):
                        gh["dataFormat"] = gh["dataFormat"].encode("latin-1")
                    if o2 != off or gh != want:
                        diff = {k: (gh[k], want[k]) for k in want if gh[k] != want[k]}
                        bad(f"header of {name}: offset {o2} (expected {off}), fields {diff}",
                            f"o, h = D.getDataOffsetAndHeader({name!r})\ngot, want = (o, {{k: getattr(h, k) for k in {list(want)!r} if k != 'dataFormat'}}), ({off}, { {k: v for k, v in want.items() if k != 'dataFormat'} !r})", "head:" + name)
            if spec[0] == "C":
                for a in range(len(blob) + 1):
                    for b in range(a, len(blob) + 1):
                        n += 1
                        if bytes(D.getData(a, b)) != blob[a:b]:
                            bad(f"getData({a}, {b}) is {D.getData(a, b)!r}", f"got, want = bytes(D.getData({a}, {b})), {blob[a:b]!r}", f"slice:{a}:{b}")
                last = blob.rfind(b"\0")
                for a in range(last + 1):
                    n += 1
                    want = blob[a:blob.index(b"\0", a)].decode("latin-1")
                    got = D.getString(a)
                    if got != want:
                        bad(f"getString({a}) is {got!r}, expected {want!r}", f"got, want = D.getString({a}), {want!r}", f"string:{a}")
            for absent in ("", "nope.icu", "x", "icudt69l/x.icu"):
                n += 1
                if absent in data:
                    continue
                for f in ("getDataOffset", "getDataOffsetAndHeader"):
                    try:
                        got = getattr(D, f)(absent)
                    except Exception:
                        continue
                    bad(f"{f}({absent!r}) is {got!r} but the package has no such item",
                        f"try:\n    got, want = D.{f}({absent!r}), 'an exception'\nexcept Exception:\n    got = want = 0", f"absent:{f}:{absent}")
    except common.Hang as e:
        bad(str(e), "got = want = 0", "hang")
    except Exception as e:
        if not common.from_sut(e):
            raise
        bad(f"{type(e).__name__}: {e}", f"got, want = D.getDataOffset({next(iter(data), '')!r}), {next(iter(offs.values()), 0)}", "exception")
    sub.count(states=1, transitions=n, traces=1)


def specs(thorough):
    out = []
    pool = ["unames.icu", "nfkc.nrm", "coll/root.res", "coll/unames.icu", "a"]
    for n in range(1, 5 if not thorough else 6):       # a package without items may be refused
        for names in itertools.combinations(pool, n):
            for order in itertools.permutations(range(n)):
                for extra in (0, 7, 100):
                    for gap in (0, 16, 5):
                        for prefix, pad in (("icudt69l", b"\xAA"), ("p", b"\0")) if n < 4 or extra == 7 else (("icudt69l", b"\xAA"),):
                            out.append(("A", names, order, extra, gap, prefix, pad))
    ext = {"H": [0, 1, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFF], "B": [0, 1, 0x7F, 0x80, 0xFF], "4s": [b"\0\0\0\0", b"Nrm2", b"\xff\xfe\x80\x7f"]}
    single = [(n, v) for n, f in FIELDS for v in ext[f]]
    out += [("B", (s,)) for s in single]
    out += [("B", (s, t)) for s, t in itertools.combinations(single, 2) if s[0] != t[0]]
    if thorough:
        out += [("B", ((n, v),)) for n, f in FIELDS for v in range(256) if f == "B"]
        out += [("B", ((n, v),)) for n, f in FIELDS for v in range(0, 65536, 37) if f == "H"]
    out.append(("C",))
    out += [("D", n) for n in list(range(32, 2049, 16)) + [0x4000, 0x7FF0, 0x8000, 0xFFF0]]
    # the counts around powers of two, the largest ones in one order only
    for count in sorted({c + d for k in range(3, 11) for c in (1 << k,) for d in (-1, 0, 1)} | {100, 300, 1000, 3000}):
        for order in ("ascending", "descending", "scattered"):
            out.append(("E", count, 1, 0, "icudt69l", order))
    out += [("E", n, 1, 0, "p", "ascending") for n in (4097, 32769, 65535, 65536, 70001)]
    out += [("E", 20, width, 0, prefix, "ascending") for width in (8, 16, 31, 32, 63, 64, 127, 128, 250, 255, 256, 1000, 5000) for prefix in ("icudt69l", "p" * 300)]
    out += [("E", n, 1, big, "icudt69l", order) for n in (4, 40) for big in (0x7F00, 0x8000, 0xFFFF, 0x10000, 0x12345, 0x1000000) for order in ("ascending", "scattered")]
    return out


def _run(sub, jobs):
    common.unload()
    root = common.stage(b"")
    for spec in jobs:
        check(sub, root, spec)


def run(ctx):
    jobs = specs(ctx.thorough)
    n = common.NCPU * 2
    common.parallel(ctx, _run, [(jobs[i::n],) for i in range(n)])
    ctx.dat = "small"
    kinds = {}
    for j in jobs:
        kinds[j[0]] = kinds.get(j[0], 0) + 1
    ctx.extra(packages=len(jobs), by_family=kinds, exhaustive=True)
    ctx.cov["rule"] = "state = one package; transition = one lookup, header or slice; trace = one package loaded and read back completely"
    ctx.sample({"package": repr(jobs[500])})
    ctx.sample({"package": repr(jobs[-300])})
    ctx.assumptions += ["packages are little-endian with byte offsets below 64 KiB header size, as udata defines; item names contain no NUL"]
