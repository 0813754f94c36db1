"""C29: translated headers define the constants that C gives them.

All headers of a bounded grammar (sequences of up to 3 top-level constructs, enum
bodies of up to 4 (thorough 5) lines, enum shapes x comment styles) go through the
translator; the module it writes is executed and compared with the values the
grammar assigns, and the grammar's values are themselves checked with gcc, all
headers in one compilation.  ICU's own uchar.h and uscript.h go through whole,
against gcc.
"""
import itertools
import os
import re
import subprocess
import sys
import tempfile
from pathlib import Path

from .. import common
from ..common import cpu_limit


class H:
    """A header under construction: text and meaning."""

    def __init__(self, prefix):
        self.p, self.n = prefix, 0
        self.lines, self.vals = [], {}
        self.absent = []

    def new(self):
        self.n += 1
        return f"{self.p}_N{self.n}"

    def last(self):
        return next((k for k in reversed(self.vals) if isinstance(self.vals[k], int)), None)

    def define(self, text, value, tail="", pre="#define "):
        k = self.new()
        self.lines.append(f"{pre}{k} {text}{tail}")
        self.vals[k] = value
        return k


# ---- top-level constructs
def d_dec(h):
    h.define("17", 17)


def d_hex(h):
    h.define("0x10ffff", 0x10FFFF, "   /* the last one */")


def d_expr(h):
    h.define("(1<<4|3)", 19, " // bits 4, 1, 0", pre="#define  ".rstrip() + " ")


def d_ref(h):
    k = h.last()
    if k is None:
        h.define("5", 5)
    else:
        h.define(f"({k}+2)", h.vals[k] + 2, " /** after the last */")


def d_neg(h):
    h.define("   -3", -3)


def d_cont(h):
    k = h.new()
    h.lines += [f"#define {k} \\", "    (0x20 |\\", "     0x4)"]
    h.vals[k] = 0x24


def d_none(h):
    k = h.new()
    h.lines.append(f"#define {k}")
    h.absent.append(k)


def d_macro(h):
    k = h.new()
    h.lines += [f"#define {k}(c, d) ((c)+(d)) /* a function */"]


def d_macro1(h):
    k = h.new()
    h.lines += [f"#define {k}(c) \\", "    do { \\", "        (c)++; \\", "    } while(0)"]


def d_str(h):
    k = h.new()
    h.lines.append(f'#define {k} "13.0" // a string')
    h.vals[k] = "13.0"


def d_doc(h):
    h.lines += ["/**", " * Says something: #define X 1", " * enum { A = 5 };", " * @stable ICU 2.0", " */"]


def d_doc1(h):
    h.lines += ["/* one line, A = 3 */", "", "   // another = 4"]


def d_if(h):
    k = h.new()
    h.lines += ["#ifndef U_HIDE_DEPRECATED_API", "/** old", " */", f"#define {k} 99", f"enum {{ {h.p}_X{h.n} }};", "#endif  /* U_HIDE_DEPRECATED_API */"]
    h.absent.append(k)


def d_ifguard(h):
    """A conditional on a macro that has the name of the include guard and more."""
    k = h.new()
    h.lines += [f"#ifndef {h.p}_H_WITHOUT_OLD", f"#define {k} 98", "#endif"]
    h.absent.append(k)


def d_ifguard2(h):
    k = h.new()
    h.lines += [f"#ifndef  __{h.p}_H__INTERNAL", f"typedef enum {{ {h.p}_Y{h.n} = 7 }} {h.new()};", f"#define {k} 97", f"#endif // {h.p}_H"]
    h.absent += [k, f"{h.p}_Y{h.n - 1}"]


def d_ifdef(h):
    k = h.new()
    h.lines += [f"#ifdef {h.p}_SOMETHING", f"#  define {k} 96", f"#define {k}_ 96", "#endif /* something */"]
    h.absent += [k, k + "_"]


def d_ifexpr(h):
    k = h.new()
    h.lines += ["#if defined(_MSC_VER) && _MSC_VER >= 1300", f"#define {k} 95", "// #endif is further down", "/* #endif */", f"#define {k}_ 94", "#endif"]
    h.absent += [k, k + "_"]


def d_include(h):
    h.lines += ['#include <stdint.h>', 'typedef int32_t ' + h.new() + ';', f"extern int {h.new()}(int a, int b); /* a function */"]


def e_plain(h, head=None, tail=None, body=("imp", "imp"), comment=0):
    tag = h.new()
    h.lines.append((head or "typedef enum {t} {{").format(t=tag))
    if h.lines[-1].endswith("\n{"):
        h.lines[-1:] = h.lines[-1].split("\n")
    enum_body(h, body, comment)
    h.lines.append((tail or "}} {t};").format(t=tag))


def e_anon(h):
    e_plain(h, "enum {{", "}};", ("exp", "imp"), 1)


def e_next(h):
    e_plain(h, "enum {t}\n{{", "}};", ("hex", "imp", "last"), 2)


def e_typedef(h):
    k = h.new()
    h.lines += [f"enum {k} {{"]
    enum_body(h, ("imp", "ref"), 0)
    h.lines += ["};", f"typedef enum {k} {k};"]


TOP = [d_dec, d_hex, d_expr, d_ref, d_neg, d_cont, d_none, d_macro, d_macro1, d_str, d_doc, d_doc1, d_if, d_ifguard, d_ifguard2, d_ifdef, d_ifexpr, d_include, e_plain, e_anon, e_next, e_typedef]

# ---- lines of an enum
COMMENTS = ["", " /* [Lu] */", "  // an entry", " /** = 7, */"]


def enum_body(h, body, comment):
    nxt = 0
    first = None
    for i, b in enumerate(body):
        c = COMMENTS[comment]
        comma = "" if i == len(body) - 1 and not (len(body) & 1) else ","
        if b == "doc":
            h.lines += ["    /** Entry.", "     * = 12,", "     */"]
            continue
        if b == "doc1":
            h.lines += ["    /* Lu, = 3 */", ""]
            continue
        if b == "cond":
            # what follows has a value of its own, or nothing follows: see explicit()
            k = h.new()
            h.lines += ["#ifndef U_HIDE_DEPRECATED_API", "    /**", "     * hidden */", f"    {k},", "#endif  // U_HIDE_DEPRECATED_API"]
            h.absent.append(k)
            continue
        k = h.new()
        if b == "imp":
            t, v = "", nxt
        elif b == "exp":
            t, v = " = 10", 10
        elif b == "hex":
            t, v = "=0x1F", 0x1F
        elif b == "neg":
            t, v = " = -1", -1
        elif b == "expr":
            t, v = "=(1<<5)|3", 35
        elif b == "ref" or b == "last":
            if first is None:
                t, v = "=2", 2
            elif b == "ref":
                t, v = f" = {first[0]}", first[1]
            else:
                t, v = f"={prev}+3", h.vals[prev] + 3
        else:
            raise KeyError(b)
        h.lines.append(f"    {k}{t}{comma}{c}")
        h.vals[k] = v
        prev = k
        first = first or (k, v)
        nxt = v + 1


LINES = ["imp", "exp", "hex", "neg", "expr", "ref", "last", "doc", "doc1", "cond"]


def valid_body(b):
    """An enumerator that is hidden in some configurations is followed by an explicit
    value or by nothing, or ICU's values would depend on the configuration."""
    entries = [x for x in b if x not in ("doc", "doc1")]
    if not [x for x in entries if x != "cond"] or b[-1] in ("doc", "doc1"):
        return False
    for x, y in zip(entries, entries[1:]):
        if x == "cond" and y in ("imp", "cond"):
            return False
    # the comma before a hidden last entry
    return not (entries[-1] == "cond" and len(b) % 2 == 0)


def headers(thorough):
    out = []
    for n in (1, 2, 3):
        for seq in itertools.product(TOP, repeat=n):
            out.append(("top", tuple(f.__name__ for f in seq)))
    for n in range(1, 6 if thorough else 5):
        for b in itertools.product(LINES, repeat=n):
            if valid_body(b):
                out.append(("enum", b, len(out) % 4, 0))
    heads = ["typedef enum {t} {{", "typedef enum {{", "enum {t} {{", "enum {{", "typedef enum {t}\n{{", "enum\n{{"]
    for i, head in enumerate(heads):
        for b in itertools.product(LINES, repeat=2):
            if valid_body(b):
                for c in range(4):
                    out.append(("enum", b, c, i))
    return out


HEADS = [("typedef enum {t} {{", "}} {t};"), ("typedef enum {{", "}} {t};"), ("enum {t} {{", "}};"), ("enum {{", "}};"), ("typedef enum {t}\n{{", "}}{t} ;"), ("enum\n{{", "}};")]


def make(spec, n):
    h = H(f"H{n}")
    name = f"h{n}.h"
    h.lines += ["// (C) Unicode, Inc.", "/*", "*****", "* file: x", "*/", "", f"#ifndef __H{n}_H__", f"#define __H{n}_H__", ""]
    if spec[0] == "top":
        for f in spec[1]:
            globals()[f](h)
    else:
        head, tail = HEADS[spec[3]]
        e_plain(h, head, tail, spec[1], spec[2])
    h.lines += ["", f"#endif  /*__H{n}_H__*/"]
    return name, "\n".join(h.lines) + "\n", h


def translator():
    d = os.path.join(common.REPO, "module_builder")
    if d not in sys.path:
        sys.path.insert(0, d)
    import HeaderToPtyhon
    return HeaderToPtyhon.HeaderFile


def translate(text, name, extra=(), ignore=(), dest="none"):
    HF = translator()
    with tempfile.TemporaryDirectory(prefix="mc-hdr-") as d:
        src, out = Path(d) / "src", Path(d) / "out"
        os.makedirs(src)
        (src / name).write_text(text)
        if dest != "none":
            os.makedirs(out)
        if dest == "again":         # over an older, longer translation
            (src / name).write_text(text + "".join(f"#define OLDER_{i} {i}\n" for i in range(3000)))
            f = HF(src, name, out, list(extra), list(ignore))
            f.translate()
            f.writeFile()
            (src / name).write_text(text)
        f = HF(src, name, out, list(extra), list(ignore))
        f.translate()
        f.writeFile()
        py = next(out.glob("*.py"))
        code = py.read_text()
        src_file = getattr(f, "sourceFile", None)
        if src_file:
            src_file.close()
    ns = {}
    exec(compile(code, py.name, "exec"), ns)
    ns.pop("__builtins__", None)
    ns.pop("__doc__", None)
    return ns, py.name


REPLAY = '''from mc.checks import c29
text = {text!r}
print(text)
try:
    ns, _ = c29.translate(text, {name!r}, ["def U_MASK(x): return 1<<x"])
except Exception as e:
    ns = {{}}; print(type(e).__name__, e)
want = {want!r}
got = {{k: v for k, v in ns.items() if not callable(v)}}
print(got, want)
bad = any(got.get(k) != v for k, v in want.items()) or any(k in got for k in {absent!r})'''


def check(sub, spec, n):
    name, text, h = make(spec, n)
    want = dict(h.vals)

    def bad(msg, key):
        sub.violation(f"{spec!r}:{key}"[:300], f"header {spec!r}: {msg}\n{text}", REPLAY.format(text=text, name=name, want=want, absent=h.absent))
    try:
        with cpu_limit(20, "translate"):
            ns, pyname = translate(text, name)
    except common.Hang as e:
        return bad(str(e), "hang")
    except Exception as e:
        return bad(f"{type(e).__name__}: {e}", "exception")
    for k, v in want.items():
        if ns.get(k, "nothing") != v or isinstance(ns.get(k), bool):
            return bad(f"{k} is {ns.get(k, 'not defined')!r}, C gives it {v!r}", k)
    extra = [k for k in ns if k not in want and not k.startswith("__")]
    if extra:
        return bad(f"{extra} are defined, though the header gives them no value", "extra")
    if list(k for k in ns if k in want) != list(want):
        return bad("the constants come in another order", "order")
    if pyname != name.replace(".", "_") + ".py":
        return bad(f"the module is called {pyname}", "name")
    sub.count(states=1, transitions=len(want) + len(h.absent), traces=1)


def gcc(includes, values):
    """{name: value C gives it}: includes is C source, values the names (strings excluded)."""
    with tempfile.TemporaryDirectory(prefix="mc-gcc-") as d:
        c = os.path.join(d, "k.c")
        names = list(values)
        with open(c, "w") as f:
            f.write(includes)
            f.write("\n#include <stdio.h>\nstatic const long long v[] = {" + ",\n".join(f"(long long)({n})" for n in names) + "};\n"
                    "int main(void) { for (unsigned i = 0; i < sizeof v / sizeof *v; i++) printf(\"%lld\\n\", v[i]); return 0; }\n")
        subprocess.run(["gcc", "-w", "-O0", c, "-o", c[:-2]], check=True)
        out = subprocess.run([c[:-2]], capture_output=True, text=True, check=True).stdout.split()
    return dict(zip(names, map(int, out)))


def _run(sub, specs, base):
    text, names = [], {}
    for i, spec in enumerate(specs):
        _, t, h = make(spec, base + i)
        text.append(t)
        names.update({k: v for k, v in h.vals.items() if isinstance(v, int)})
    got = gcc("\n".join(text), names)
    wrong = [k for k in names if names[k] != got[k]]
    if wrong:
        raise RuntimeError(f"the grammar's values differ from gcc's: {wrong[:5]}")
    sub.extra(constants_confirmed_by_gcc=len(names))
    for i, spec in enumerate(specs):
        check(sub, spec, base + i)
        if sub.nviol > 20:
            break


def options(ctx):
    """ignore and extraCode."""
    text = "#define A 1\n#define B {0, 1}\n#define C U_MASK(A)\nenum {\n  D = U_MASK(3)\n};\n"
    text = text.replace("enum {\n  D = U_MASK(3)\n};\n", "")
    for ign in itertools.chain.from_iterable(itertools.combinations("AC", k) for k in range(3)):
        t = text if "A" not in ign else text.replace("U_MASK(A)", "U_MASK(1)")
        want = {"A": 1, "C": 2}
        for k in ign:
            want.pop(k)
        try:
            ns, _ = translate(t, "opt.h", ["def U_MASK(x): return 1<<x\n"], list(ign) + ["B"])
            got = {k: v for k, v in ns.items() if not callable(v)}
        except Exception as e:
            got = f"{type(e).__name__}: {e}"
        ctx.count(states=1, transitions=1, traces=1)
        if got != want:
            ctx.violation(f"ignore:{ign}", f"ignoring {ign} and B gives {got}, expected {want}")


def destinations(ctx):
    """The translation does not depend on what the output directory held."""
    text = "#define A 1\nenum {\n  B = 4,\n  C\n};\n#define D (C+1)\n"
    want = {"A": 1, "B": 4, "C": 5, "D": 6}
    for dest in ("none", "empty", "again"):
        try:
            got, _ = translate(text, "dest.h", dest=dest)
        except Exception as e:
            got = f"{type(e).__name__}: {e}"
        ctx.count(states=1, transitions=2, traces=1)
        if got != want:
            ctx.violation(f"destination:{dest}", f"translating with an output directory that is {dest} gives {str(got)[:200]}, expected {want}",
                          f"from mc.checks import c29\ngot, _ = c29.translate({text!r}, 'dest.h', dest={dest!r})\nbad = got != {want!r}")


def real(ctx):
    """ICU's own headers."""
    n = 0
    for name in ("uchar.h", "uscript.h"):
        p = Path("/usr/include/unicode") / name
        if not p.exists():
            ctx.extra(real_headers="absent")
            return
        try:
            ns, _ = translate(p.read_text(), name, ["def U_MASK(x: int) -> int: return 1<<x\n"], ["U_NO_NUMERIC_VALUE"])
        except Exception as e:
            ctx.violation(f"real:{name}", f"ICU's {name}: {type(e).__name__}: {e}")
            continue
        ints = {k: v for k, v in ns.items() if isinstance(v, int) and not k.startswith("__")}
        want = gcc(f"#include <unicode/{name}>", ints)
        for k, v in want.items():
            if ints[k] != v:
                ctx.violation(f"real:{k}", f"{k} of ICU's {name} is {ints[k]}, C gives it {v}")
        # every enumerator outside conditional sections is there
        src = re.sub(r"#ifn?def (?!%s)\w+\n.*?#endif" % name.upper().replace(".", "_"), "", re.sub(r"/\*.*?\*/", "", p.read_text(), flags=re.S), flags=re.S)
        for body in re.findall(r"enum\s*\w*\s*\{(.*?)\}", src, re.S):
            for line in re.sub(r"//.*", "", body).split("\n"):
                m = re.match(r"\s*(\w+)\s*(=|,|$)", line)
                if m and not line.strip().startswith("#"):
                    n += 1
                    if m.group(1) not in ints:
                        ctx.violation(f"missing:{m.group(1)}", f"{m.group(1)} of ICU's {name} is not translated")
        ctx.count(states=len(ints), transitions=len(ints), traces=1)
    ctx.extra(real_constants=n)


def run(ctx):
    specs = headers(ctx.thorough)
    n = common.NCPU * 2
    size = (len(specs) + n - 1) // n
    translator()
    common.parallel(ctx, _run, [(specs[i:i + size], i) for i in range(0, len(specs), size)])
    options(ctx)
    destinations(ctx)
    real(ctx)
    ctx.extra(headers=len(specs), exhaustive=True)
    ctx.cov["rule"] = "state = one header of the grammar or one real constant; transition = one constant compared; trace = one header translated, executed and compared"
    ctx.sample({"header": repr(specs[4000])})
    ctx.sample({"header": make(specs[5000], 0)[1]})
    ctx.assumptions += ["the grammar has the constructs of ICU's uchar.h, uscript.h, uprops.h and ucase.h: one enumerator per line, comments close at a line's end, "
                        "conditional sections are not nested and are left out, function-like macros are left out"]
