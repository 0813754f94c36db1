#!/usr/bin/env python3
"""Builds mc/golden/icudata.dat.xz: a small but real ICU data package, made of the
items this library reads, taken from the system's libicudata (ICU 74).  Run once;
the result is committed."""
import ctypes, lzma, struct, sys
lib = ctypes.CDLL("libicudata.so.74")
addr = ctypes.addressof(ctypes.c_char.in_dll(lib, "icudt74_dat"))
def rd(o, n): return ctypes.string_at(addr + o, n)
hl, = struct.unpack("<H", rd(0, 2))
cnt, = struct.unpack("<I", rd(hl, 4))
toc = struct.unpack(f"<{2*cnt}I", rd(hl + 4, 8 * cnt))
items = {}
for i in range(cnt):
    name = ctypes.string_at(addr + hl + toc[2*i]).decode()
    off = toc[2*i+1]
    end = toc[2*i+3] if i + 1 < cnt else None
    items[name.split("/", 1)[1]] = (off, end)
want = ["nfkc.nrm", "nfkc_cf.nrm", "ulayout.icu", "unames.icu"]
print({w: items.get(w) for w in want}, cnt)
blobs = {}
for w in want:
    o, e = items[w]
    blobs[w] = rd(hl + o, e - o)
    print(w, len(blobs[w]), blobs[w][:32].hex())
hdr = rd(0, hl)
n = len(want)
names = b""
noff = []
for w in want:
    noff.append(4 + 8 * n + len(names))
    names += b"icudt74l/" + w.encode() + b"\0"
pos = 4 + 8 * n + len(names)
pad = -(hl + pos) % 16
body = b""
doff = []
pos += pad
for w in want:
    doff.append(pos + len(body))
    body += blobs[w] + b"\xAA" * (-len(blobs[w]) % 16)
out = hdr + struct.pack("<I", n) + b"".join(struct.pack("<II", a, b) for a, b in zip(noff, doff)) + names + b"\xAA" * pad + body
open("/tmp/icudata.dat", "wb").write(out)
with lzma.open(sys.argv[1], "wb", preset=9) as f: f.write(out)
