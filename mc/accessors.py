"""All accessors of the package that have a reference table, for checks across them."""
import importlib

from . import codespace, common

MODULES = ["c10", "c11", "c12", "c13", "c14", "c15", "c16", "c17", "c18", "c19", "c20", "c25"]


class Acc:
    __slots__ = ("label", "fn", "ref", "expr", "module")

    def __init__(self, label, fn, ref, expr, module):
        self.label, self.fn, self.ref, self.expr, self.module = label, fn, ref, expr, module


def all_accessors(tables=True):
    """Every accessor of C10-C20 and C25 (duplicates left out), with its table."""
    out, seen = [], set()
    tabs = {}
    for n in MODULES:
        for spec in importlib.import_module("mc.checks." + n).SPECS:
            tab, module, path = spec[1:4]
            extra = spec[4] if len(spec) > 4 else ""
            if (module, path, extra) in seen:
                continue
            seen.add((module, path, extra))
            obj = common.load(module)
            for part in path.split("."):
                obj = common.need(obj, part)
            fn = obj
            if extra:
                fn = codespace._bind(obj, extra, {"m": common.load(module)})
            if tab.endswith("_raw"):
                fn = (lambda c, f=fn: f(c) or None)
            if tab not in tabs:
                tabs[tab] = codespace.expand(tab) if tables else None
            expr = f"load({module!r}).{path}({{c}}{extra.replace('m.', f'load({module!r}).')})"
            out.append(Acc(spec[0], fn, tabs[tab], expr, module))
    return out


COMMON = [0, 0x9, 0x20, 0x30, 0x41, 0x61, 0x7F, 0xA0, 0xBD, 0xDF, 0x130, 0x1C5, 0x300, 0x3B1, 0x587, 0x5D0, 0x661, 0x660, 0x200D, 0x2160, 0x2329,
          0x3007, 0x4E00, 0xAC00, 0xAC01, 0xD800, 0xDC00, 0xE000, 0xFB01, 0xFDD0, 0xFFFD, 0xFFFF, 0x10000, 0x10400, 0x1D15E, 0x1F1E6, 0x1F600,
          0x20000, 0x2F800, 0xE0001, 0xE0100, 0x10FFFD, 0x10FFFF]


def representatives(ref, n=3):
    """Code points chosen so that whatever part of a code point a wrong cache could
    use as its key (low bits, high bits), two of them share it and differ in value."""
    out = set()
    for mod in (32, 64, 256, 0x800, 0x10000):
        found = 0                        # the same low bits
        last = {}
        for c in range(0x110000):
            p = last.get(c % mod)
            if p is not None and ref[c] != ref[p] and str(ref[c]) not in (str(c), chr(c)):
                out.update((p, c))
                found += 1
                if found == n:
                    break
            last[c % mod] = c
        found = 0                        # the same high bits
        for base in range(0, 0x110000, mod if mod > 0x800 else mod * 97):
            for c in range(base + 1, base + mod):
                if ref[c] != ref[c - 1]:
                    out.update((c - 1, c))
                    found += 1
                    break
            if found == n:
                break
    return sorted(out)
