"""C30: generated data modules hold what the ICU sources hold.

  A  C data files of a bounded grammar (arrays of 1..40 elements in several
     layouts, orders and number styles, scalars, trie structures inside and outside
     a properties structure) through the module builder, executed and compared
  B  every sequence of up to 4 rows of a bounded alphabet of the UCD text file, and
     the complete set of Unicode's value names, through the UCD reader
  C  every sequence of up to 4 command line options
  D  the whole build and installation on a synthetic ICU tree made from the data of
     the package itself: the installed modules must equal the ones it came from
  E  installations over every earlier state of the destination (absent, other or
     equal content, older, as old, newer) and beside foreign files.
"""
import contextlib
import importlib
import io
import itertools
import json
import os
import re
import shutil
import sys
import tempfile
import types
from pathlib import Path

from .. import common
from ..common import cpu_limit, load
from . import c28


class ArgumentIterator:
    """Stand-in for FontDocTools.ArgumentIterator, which is not installed."""

    def __init__(self, args):
        self.args, self.i = list(args), 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.i >= len(self.args):
            raise StopIteration
        self.i += 1
        return self.args[self.i - 1]

    def nextExtra(self, what):
        if self.i >= len(self.args):
            raise ValueError("Missing " + what)
        return next(self)


def builder():
    d = os.path.join(common.REPO, "module_builder")
    if d not in sys.path:
        sys.path.insert(0, d)
    if "FontDocTools" not in sys.modules:
        pkg = types.ModuleType("FontDocTools")
        sub = types.ModuleType("FontDocTools.ArgumentIterator")
        sub.ArgumentIterator = ArgumentIterator
        pkg.ArgumentIterator = sub
        sys.modules["FontDocTools"], sys.modules["FontDocTools.ArgumentIterator"] = pkg, sub
    return importlib.import_module("ModuleBuilder")


# ------------------------------------------------------------------ A: data files

def number(v, style):
    return {"hex": lambda: hex(v) if v > 9 else str(v), "dec": lambda: str(v), "HEX": lambda: "0x%08X" % v}[style]()


def c_array(name, values, per_line, style, ctype="uint16_t", braces=3):
    """As ICU's writer does: short arrays on one line, long ones in lines of 16.
    braces: bit 0 = new line after the opening brace, bit 1 = before the closing one."""
    if per_line == 0:
        return f"static const {ctype} {name}[{len(values)}]={{{','.join(number(v, style) for v in values)}}};\n"
    rows = [",".join(number(v, style) for v in values[i:i + per_line]) for i in range(0, len(values), per_line)]
    return f"static const {ctype} {name}[{len(values)}]={{" + "\n" * (braces & 1) + ",\n".join(rows) + "\n" * (braces >> 1) + "};\n"


TRIE_FIELDS = ["index_length", "index_2_null_offset", "data_null_offset", "high_start", "high_value_index"]


def c_trie(index, t, indent):
    rows = [index, f"{index}+{t['index_length']}", "NULL", str(t["index_length"]), "18508", hex(t["index_2_null_offset"]),
            hex(t["data_null_offset"]), "0x0", "0x0", hex(t["high_start"]), hex(t["high_value_index"])]
    return ",\n".join(indent + r for r in rows) + f",\n{indent}NULL, 0, FALSE, FALSE, 0, NULL\n"


def data_file(spec):
    """(C text, calls on the builder, expected values)"""
    kind = spec[0]
    head = "/*\n * Copyright\n */\n\n#ifdef INCLUDED_FROM_X_C\n\nstatic const UVersionInfo dataVersion={0xd,0,0,0};\n\n"
    tail = "\n#endif  // INCLUDED_FROM_X_C\n"
    calls, want, text = [], {}, ""
    if kind == "array":
        _, n, per, style, v0, braces = spec
        vals = [(v0 + 37 * i * i) & 0xFFFF for i in range(n)]
        text = c_array("some_index", vals, per, style, braces=braces)
        calls, want = [("arrayToPython", "some_index")], {"some_index": vals}
    elif kind == "arrays":
        # several arrays, names that begin alike, asked for in another order
        _, order, ask = spec
        names = ["x_props_jgArray", "x_props_jgArray2", "x_props_indexes", "x_props"]
        arrays = {nm: [10 * i + j for j in range(3 + 15 * (i & 1))] for i, nm in enumerate(names)}
        for i in order:
            nm = names[i]
            text += c_array(nm, arrays[nm], 16 if i & 1 else 0, "hex", ["uint8_t", "uint16_t", "int32_t", "uint32_t"][i]) + "\n"
        for i in ask:
            calls.append(("arrayToPython", names[i]))
            want[names[i]] = arrays[names[i]]
    elif kind == "scalar":
        _, v, style, where = spec
        decl = f"static const int32_t columns={number(v, style)};\n"
        arr = c_array("columnsData", [1, 2, 3], 0, "dec")
        text = decl + arr if where else arr + "\n" + decl
        calls, want = [("scalarToPython", "columns"), ("arrayToPython", "columnsData")], {"columns": v, "columnsData": [1, 2, 3]}
    elif kind == "tries":
        _, ts, inner, order = spec
        for i in order:
            nm = ["propsTrie", "propsVectorsTrie"][i]
            t = dict(zip(TRIE_FIELDS, ts[i]))
            text += c_array(nm + "_index", [i, i + 1], 16, "hex") + "\n"
            if inner:
                text += (f"static const UXProps {nm}_singleton={{\n  NULL,\n  {nm}_indexes,\n  {nm}_extra,\n  {{\n" + c_trie(nm + "_index", t, "    ")
                         + "  },\n  { 2,2,0,0 }\n};\n\n")
            else:
                text += f"static const UTrie2 {nm}={{\n" + c_trie(nm + "_index", t, "    ") + "};\n\n"
            calls.append(("trieValuesFromPropsDeclaration", nm + "_singleton", nm + "_trie") if inner else ("trieValuesFromTrieDeclaration", nm, nm))
            for f, v in t.items():
                want[f"{nm}{'_trie' if inner else ''}_{f}"] = v
    return head + text + tail, calls, want


# what the output directory holds before: it does not exist, is empty, has an older and
# longer file of the same name, or others
DESTINATIONS = ["none", "empty", "longer", "beside"]


def prepare(out, name, dest):
    if dest == "none":
        return
    out.mkdir(parents=True, exist_ok=True)
    if dest == "longer":
        (out / name).write_text("stale = 1\n" + "# left over\n" * 30000 + "stale2 = 2\n")
    if dest == "beside":
        (out / ("Other" + name)).write_text("other = 1\n")
        (out / (name + ".bak")).write_text("backup = 1\n")


def untouched(out, name, dest):
    return dest != "beside" or (out / ("Other" + name)).read_text() == "other = 1\n" and (out / (name + ".bak")).read_text() == "backup = 1\n"


def run_builder(text, calls, dest="none"):
    MB = builder().ModuleBuilder
    with tempfile.TemporaryDirectory(prefix="mc-mb-") as d:
        d = Path(d)
        (d / "common").mkdir()
        (d / "common" / "data.h").write_text(text)
        prepare(d / "out", "Data.py", dest)
        b = MB(d, "common/data.h", d / "out", "Data.py")
        for c in calls:
            getattr(b, c[0])(*c[1:])
        b.writeFile()
        assert untouched(d / "out", "Data.py", dest), "other files were touched"
        code = (d / "out" / "Data.py").read_text()
    ns = {}
    exec(compile(code, "Data.py", "exec"), ns)
    return {k: (list(v) if isinstance(v, (list, tuple)) else v) for k, v in ns.items() if not k.startswith("__")}


def data_specs(thorough):
    out = []
    for n in range(1, 41 if not thorough else 130):
        for per in (0, 16, 8, 1):
            for style in ("hex", "dec", "HEX"):
                for v0 in (0, 9, 0xFFFF):
                    for braces in (range(4) if per else (3,)):
                        out.append(("array", n, per, style, v0, braces))
    for order in itertools.permutations(range(4)):
        for k in (1, 2, 3, 4):
            for ask in itertools.permutations(range(4), k):
                out.append(("arrays", order, ask))
    for v in (0, 1, 3, 9, 10, 255, 0x10FFFF):
        for style in ("hex", "dec"):
            for where in (0, 1):
                out.append(("scalar", v, style, where))
    vals = ([3568, 0x1A0, 0xE70, 0x110000, 0x30F4], [0, 0, 0, 0, 0], [5024, 0xA40, 0x1420, 0xE0800, 0x79F8], [1, 2, 3, 4, 5])
    for a in vals:
        for b in vals:
            for inner in (0, 1):
                for order in ((0, 1), (1, 0)):
                    out.append(("tries", (tuple(a), tuple(b)), inner, order))
    return out


REPLAY_A = '''from mc.checks import c30
text, calls, want = c30.data_file({spec!r})
print(text)
try:
    got = c30.run_builder(text, calls, {dest!r})
except Exception as e:
    got = repr(e)
print(got, want)
bad = got != want'''


def check_data(sub, spec, dest="none"):
    text, calls, want = data_file(spec)
    try:
        with cpu_limit(20, "builder"):
            got = run_builder(text, calls, dest)
    except Exception as e:
        got = f"{type(e).__name__}: {e}"
    sub.count(states=1, transitions=len(calls), traces=1)
    if got != want:
        sub.violation(f"{spec!r} {dest}"[:300], f"data file {spec!r} (output directory: {dest}): the module holds {str(got)[:300]}, the file {str(want)[:300]}", REPLAY_A.format(spec=spec, dest=dest))


# ------------------------------------------------------------------ B: ppucd

TYPES = {"bc": "bidiClass", "blk": "block", "dt": "decompositionType", "ea": "eastAsianWidth", "gc": "generalCategory", "GCB": "graphemeClusterBreak",
         "hst": "hangulSyllableType", "InPC": "indicPositionalCategory", "InSC": "indicSyllabicCategory", "jg": "joiningGroup", "jt": "joiningType",
         "lb": "lineBreak", "nt": "numberType", "SB": "sentenceBreak", "sc": "script", "vo": "verticalOrientation", "WB": "wordBreak"}

# rows whose value is a group of values or a property not translated
OTHER = ["# Copyright", "", "ucd;13.0.0", "ucd;14.1.2", "property;Binary;Alpha;Alphabetic", "value;gc;C;Other", "value;gc;L;Letter", "value;gc;LC;Cased_Letter",
         "value;ccc;230;A;Above", "value;age;1.1;V1_1", "binary;Alpha;Alphabetic;Y", "block;0000..007F;age=1.1;blk=ASCII", "cp;0041;gc=Lu;na=LATIN CAPITAL LETTER A"]


def row_meaning(row, g):
    """(property, value, name) or None"""
    f = row.split(";")
    if f[0] != "value" or f[1] not in TYPES:
        return None
    prop = TYPES[f[1]]
    for v, s in g["names"][prop].items():
        if s == f[2] and g["long"][prop][v] == f[3]:
            return prop, int(v), c28.want_name(prop, s)
    return None


def run_reader(rows, eol="\n", dest="empty"):
    builder()
    import UCDReader
    with tempfile.TemporaryDirectory(prefix="mc-ucd-") as d:
        d = Path(d)
        (d / "data" / "unidata").mkdir(parents=True)
        (d / "data" / "unidata" / "ppucd.txt").write_bytes((eol.join(rows) + eol).encode())
        out = d / "out"
        prepare(out, "UCDTypeDictionaries.py", dest)
        r = UCDReader.UCDReader(d, out)
        r.generateDictionaries()
        r.writeFile()
        code = (out / "UCDTypeDictionaries.py").read_text()
        version = r.ucdVersion
    load("uchar_h"), load("uscript_h")
    ns = {"__package__": "UnicodeData", "__name__": "UnicodeData.generated"}
    exec(compile(code, "UCDTypeDictionaries.py", "exec"), ns)
    return {k: v for k, v in ns.items() if k.endswith("Names") and isinstance(v, dict)}, version


def expect_reader(rows, g):
    want, version = {}, None
    for row in rows:
        f = row.split(";")
        if f[0] == "ucd":
            version = f[1]
        m = row_meaning(row, g)
        if m:
            want.setdefault(m[0] + "Names", {})[m[1]] = m[2]
    return want, version


REPLAY_B = '''from mc.checks import c30, c28
rows = {rows!r}
try:
    got = c30.run_reader(rows, {eol!r}, {dest!r})
except Exception as e:
    got = ({{}}, repr(e))
want = c30.expect_reader(rows, c28.golden())
d = {{k: v for k, v in got[0].items() if v}}
print(got[1], want[1], d, want[0])
bad = (d, got[1]) != want'''


def check_reader(sub, rows, g, eol="\n", dest="empty"):
    want, version = expect_reader(rows, g)
    try:
        got, gv = run_reader(rows, eol, dest)
        # a property of which only groups are given may have an empty dictionary
        got = {k: v for k, v in got.items() if v}
    except Exception as e:
        got, gv = f"{type(e).__name__}: {e}", None
    sub.count(states=1, transitions=len(rows), traces=1)
    if (got, gv) != (want, version):
        d = ""
        if isinstance(got, dict):
            d = {k: {v: (got.get(k, {}).get(v), want.get(k, {}).get(v)) for v in set(got.get(k, {})) | set(want.get(k, {})) if got.get(k, {}).get(v) != want.get(k, {}).get(v)}
                 for k in set(got) | set(want) if got.get(k) != want.get(k)}
        sub.violation(f"rows:{dest}:{rows}"[:300], f"rows {rows[:6]}{'...' if len(rows) > 6 else ''}: version {gv} (expected {version}), differences {str(d or got)[:400]}",
                      REPLAY_B.format(rows=rows, eol=eol, dest=dest))


def all_rows(g):
    out = []
    for t, prop in TYPES.items():
        for v, s in g["names"][prop].items():
            if int(v) < c28.COUNT[prop]:
                out.append(f"value;{t};{s};{g['long'][prop][v]}")
    return out


def reader_specs(g, thorough):
    rows = all_rows(g)
    yield rows
    yield ["ucd;13.0.0"] + list(reversed(rows)) + OTHER[:1]
    for r in rows:                       # every value on its own, in some company
        yield [r]
        yield ["ucd;13.0.0", OTHER[5], r, OTHER[8]]
        yield [r + ";Another_Name"]
    pick = []
    for t in ("gc", "sc", "blk", "dt", "InPC"):
        pick += [r for r in rows if r.startswith(f"value;{t};")][1:3]
    alpha = pick + OTHER
    for n in (1, 2, 3) if not thorough else (1, 2, 3, 4):
        yield from (list(x) for x in itertools.product(alpha, repeat=n) if len(set(x)) == n)


# ------------------------------------------------------------------ C: options

def options(sub):
    MB = builder()
    opts = ["--sourceDir", "--buildDir", "--outputDir", "--bogus"]
    vals = {"--sourceDir": "s", "--buildDir": "b", "--outputDir": "o"}
    fields = {"--sourceDir": "icuSourceDir", "--buildDir": "icuBuildDir", "--outputDir": "outputDir"}
    for n in range(5):
        for seq in itertools.product(opts, repeat=n):
            args = []
            for o in seq:
                args += [o, vals[o]] if o in vals else [o]
            for cut in (0, 1):
                a = args[:-1] if cut and args and seq[-1] in vals else args
                if cut and a is args:
                    continue
                ok = set(seq) == set(vals) and len(seq) == 3 and not cut
                try:
                    r = MB.ModuleBuilderArgs.forArguments(list(a))
                    got = {o: getattr(r, f) for o, f in fields.items()}
                except ValueError:
                    got = None
                except Exception as e:
                    got = f"{type(e).__name__}: {e}"
                sub.count(states=1, transitions=len(seq), traces=1)
                want = vals if ok else None
                if got != want:
                    sub.violation(f"options:{a}", f"options {a} give {got}, expected {want or 'ValueError'}",
                                  f"from mc.checks import c30\nMB = c30.builder()\ntry:\n    r = MB.ModuleBuilderArgs.forArguments({a!r})\n    got = 1\nexcept ValueError:\n    got = 0\nbad = got != {int(ok)}")


def command_lines(sub):
    """A tool that cannot do what it is told says so and leaves nothing behind."""
    builder()
    for args in ([], ["--sourceDir", "s"], ["--bogus"], ["--sourceDir"], ["--sourceDir", "s", "--buildDir", "b"],
                 ["--sourceDir", "s", "--buildDir", "b", "--outputDir", "o", "--outputDir", "p"], ["s", "b", "o"]):
        with tempfile.TemporaryDirectory(prefix="mc-cmd-") as d:
            cwd = os.getcwd()
            err = io.StringIO()
            try:
                os.chdir(d)
                # the tool binds stderr at import
                old, sys.stderr = sys.stderr, err
                status = as_script("ModuleBuilder.py", args)
            except Exception as e:
                status = f"{type(e).__name__}: {e}"
            finally:
                sys.stderr = old
                os.chdir(cwd)
            left = os.listdir(d)
        sub.count(states=1, transitions=1, traces=1)
        if status in (0, False) or not isinstance(status, (int, str)) or isinstance(status, str) and "Error:" in status or left or not err.getvalue().strip():
            sub.violation(f"command:{args}", f"ModuleBuilder.py {' '.join(args)} ends with status {status}, says {err.getvalue()[:80]!r} and leaves {left}")


# ------------------------------------------------------------------ D: whole build

def icu_tree(root, g, lineup=16):
    """A synthetic ICU source and build tree with the package's own data."""
    src, bld = root / "icu" / "source", root / "build"
    for d in ("common/unicode", "data/unidata"):
        (src / d).mkdir(parents=True)
    (bld / "data/out").mkdir(parents=True)
    want = {}

    def trie(prefix, ns):
        return {f: ns[f"{prefix}_{f}"] for f in TRIE_FIELDS}
    files = {
        "BidiPropsData": ("ubidi_props_data.h", ["ubidi_props_indexes", "ubidi_props_trieIndex", "ubidi_props_mirrors", "ubidi_props_jgArray", "ubidi_props_jgArray2"],
                          ("ubidi_props_singleton", "ubidi_props_trie", "ubidi_props_trieIndex")),
        "CasePropsData": ("ucase_props_data.h", ["ucase_props_indexes", "ucase_props_trieIndex", "ucase_props_exceptions", "ucase_props_unfold"],
                          ("ucase_props_singleton", "ucase_props_trie", "ucase_props_trieIndex")),
    }
    for mod, (fn, arrays, (single, prefix, index)) in files.items():
        ns = vars(load(mod))
        text = "// generated\n\n"
        for a in arrays:
            text += c_array(a, list(ns[a]), 0 if len(ns[a]) < 17 else lineup, "hex") + "\n"
        text += f"static const UProps {single}={{\n  NULL,\n  {arrays[0]},\n  {arrays[-1]},\n  {{\n" + c_trie(index, trie(prefix, ns), "    ") + "  },\n  { 2,2,0,0 }\n};\n"
        (src / "common" / fn).write_text(text)
        want[mod] = {k: v for k, v in ns.items() if not k.startswith("__")}
    ns = vars(load("CharPropsData"))
    text = "// generated\n\n"
    for a, t in (("propsTrie_index", "propsTrie"), ("propsVectorsTrie_index", "propsVectorsTrie")):
        text += c_array(a, list(ns[a]), lineup, "hex") + "\n"
        text += f"static const UTrie2 {t}={{\n" + c_trie(a, trie(t, ns), "    ") + "};\n\n"
    text += c_array("propsVectors", list(ns["propsVectors"]), lineup, "hex", "uint32_t") + "\n"
    text += "static const int32_t countPropsVectors=%d;\nstatic const int32_t propsVectorsColumns=%d;\n" % (len(ns["propsVectors"]), ns["propsVectorsColumns"])
    text += c_array("scriptExtensions", list(ns["scriptExtensions"]), lineup, "hex")
    (src / "common" / "uchar_props_data.h").write_text(text)
    want["CharPropsData"] = {k: v for k, v in ns.items() if not k.startswith("__")}
    inc = Path("/usr/include/unicode")
    for name, where in (("uprops.h", "common"), ("ucase.h", "common"), ("uchar.h", "common/unicode"), ("uscript.h", "common/unicode")):
        mod = name.replace(".", "_")
        ns = {k: v for k, v in vars(load(mod)).items() if isinstance(v, (int, str)) and not k.startswith("__")}
        guard = f"__{mod.upper()}__"
        body = "".join(f"#define {k} {json.dumps(v) if isinstance(v, str) else v}\n" for k, v in ns.items())
        (src / where / name).write_text(f"#ifndef {guard}\n#define {guard}\n\n{body}\n#endif\n")
        want[mod] = ns
    (src / "common/unicode/uvernum.h").write_text('#define U_ICU_VERSION "69.1"\n#define U_ICU_VERSION_SHORT "69"\n')
    blob = bytes(range(256)) * 5
    (bld / "data/out/icudt69l.dat").write_bytes(blob)
    (bld / "data/out/icudt70l.dat").write_bytes(b"wrong one")
    (root / "icu" / "LICENSE").write_text("the licence\n")
    rows = ["# ppucd", "ucd;13.0.0"] + all_rows(g) + OTHER[4:]
    (src / "data/unidata/ppucd.txt").write_text("\n".join(rows) + "\n")
    return src, bld, blob, want


def as_script(name, args):
    """Run a tool the way its user does; returns the exit status."""
    old = sys.argv
    sys.argv = [name] + list(args)
    try:
        path = os.path.join(common.REPO, "module_builder", name)
        with open(path) as f:
            exec(compile(f.read(), path, "exec"), {"__name__": "__main__", "__file__": path, "__builtins__": __builtins__})
        return 0
    except SystemExit as e:
        return 0 if e.code is None else e.code
    finally:
        sys.argv = old


def set_argv(module, argv):
    sys.argv[:] = argv
    if hasattr(module, "argv"):         # `from sys import argv`
        module.argv[:] = argv


def compare(sub, pk, want, blob, g, bad):
    for mod, vals in want.items():
        try:
            ns = {}
            exec(compile((pk / (mod + ".py")).read_text(), mod, "exec"), ns)
        except Exception as e:
            bad.append(f"{mod}: {type(e).__name__}: {e}")
            continue
        for k, v in vals.items():
            if callable(v):
                continue
            sub.count(transitions=1)
            x = ns.get(k)
            if (list(x) if isinstance(x, (list, tuple)) else x) != (list(v) if isinstance(v, (list, tuple)) else v):
                bad.append(f"{mod}.{k} is {str(x)[:80]}, the source has {str(v)[:80]}")
        sub.count(states=1)
    if (pk / "Data/icudata.dat").read_bytes() != blob:
        bad.append("the data file is not the one of the version built")
    if (pk / "Data/LICENSE").read_text() != "the licence\n":
        bad.append("the licence is not the one of the source")
    ns = {}
    exec((pk / "UnicodeVersion.py").read_text(), ns)
    if ns["unicodeVersion"] != "13.0.0":
        bad.append(f"UnicodeVersion says {ns['unicodeVersion']}")
    ns = {"__package__": "UnicodeData", "__name__": "UnicodeData.generated"}
    exec((pk / "UCDTypeDictionaries.py").read_text(), ns)
    for prop in c28.COUNT:
        w = {int(v): c28.want_name(prop, n) for v, n in g["names"][prop].items() if int(v) < c28.COUNT[prop]}
        if ns.get(prop + "Names") != w:
            bad.append(f"{prop}Names is not what the UCD file has")


def whole(sub):
    g = c28.golden()
    MB = builder()
    MI = importlib.import_module("ModuleInstaller")
    for lineup, script, again in ((16, False, False), (8, True, True), (1, False, True)):
        with tempfile.TemporaryDirectory(prefix="mc-build-") as d:
            d = Path(d)
            src, bld, blob, want = icu_tree(d, g, lineup)
            out = d / "out"
            inst = d / "inst"
            (inst / "UnicodeData" / "Data").mkdir(parents=True)
            bad = []
            cwd = os.getcwd()
            if again:       # over what an earlier build left
                for name in ("BidiPropsData.py", "uchar_h.py", "UCDTypeDictionaries.py", "UnicodeVersion.py", "icudata.dat", "LICENSE"):
                    prepare(out, name, "longer")
                    shutil.copy(out / name, inst / "UnicodeData" / ("" if name.endswith(".py") else "Data") / name)
            argv = ["ModuleBuilder.py", "--sourceDir", str(src), "--buildDir", str(bld), "--outputDir", str(out)]
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    if script:
                        as_script("ModuleBuilder.py", argv[1:])
                    else:
                        set_argv(MB, argv)
                        MB.build()
                os.chdir(inst)
                if script:
                    as_script("ModuleInstaller.py", [str(out)])
                else:
                    set_argv(MI, ["ModuleInstaller.py", str(out)])
                    MI.install()
            except BaseException as e:  # noqa
                if isinstance(e, KeyboardInterrupt):
                    raise
                bad.append(f"{type(e).__name__}: {e}")
            finally:
                os.chdir(cwd)
            pk = inst / "UnicodeData"
            try:
                if not bad:
                    compare(sub, pk, want, blob, g, bad)
            except Exception as e:
                bad.append(f"what was built cannot be read: {type(e).__name__}: {e}")
            sub.count(traces=1)
            if bad:
                sub.violation(f"build:{lineup}", "building and installing from a synthetic ICU tree: " + "; ".join(bad[:6]))


# ------------------------------------------------------------------ E: installation

# what is at the destination before: nothing, or a file of this content, so many
# seconds older than (-), as old as (0) or newer than (+) the one to install
BEFORE = [None] + [(text, dt) for text in ("A = 1\n", "A = 2\n", "A = 33\n", "") for dt in (-10, 0, 10)]


def install_once(names, before, strangers, first=None):
    """Install A.py..., the data file and the licence over a destination."""
    builder()
    MI = importlib.import_module("ModuleInstaller")
    with tempfile.TemporaryDirectory(prefix="mc-inst-") as d:
        d = Path(d)
        out, pk = d / "out", d / "inst" / "UnicodeData"
        out.mkdir()
        (pk / "Data").mkdir(parents=True)
        want = {}
        for n in names:
            (out / n).write_text("A = 2\n")
            os.utime(out / n, (1.5e9, 1.5e9))
            rel = n if n.endswith(".py") else "Data/" + n
            want[rel] = "A = 2\n"
            if before.get(n):
                text, dt = before[n]
                (pk / rel).write_text(text)
                os.utime(pk / rel, (1.5e9 + dt, 1.5e9 + dt))
        for n in strangers:
            # neither the source's other files nor the destination's are touched
            (out / n).parent.mkdir(parents=True, exist_ok=True)
            (out / n).write_text("B = 1\n")
            (pk / ("Own" + n.replace("/", "_"))).write_text("C = 1\n")
            want["Own" + n.replace("/", "_")] = "C = 1\n"
        cwd = os.getcwd()
        try:
            os.chdir(d / "inst")
            set_argv(MI, ["ModuleInstaller.py", str(out)])
            for _ in range(2 if first else 1):
                MI.install()
        finally:
            os.chdir(cwd)
        got = {str(f.relative_to(pk)): f.read_text() for f in pk.rglob("*") if f.is_file()}
        left = {str(f.relative_to(out)) for f in out.rglob("*") if f.is_file()}
        there = {str(f.relative_to(d / "inst")) for f in (d / "inst").rglob("*") if f.is_file() and pk not in f.parents}
    return got, want, left == set(names) | set(strangers) and not there


def installs(thorough):
    base = ["icudata.dat", "LICENSE"]
    for b1 in BEFORE:
        for b2 in BEFORE if thorough else (None, ("A = 1\n", 10)):
            yield (["A.py", "B_h.py"] + base, {"A.py": b1, "B_h.py": b2}, [], False)
            yield (["A.py"] + base, {"icudata.dat": b1, "LICENSE": b2}, [], False)
            yield (["A.py"] + base, {"A.py": b2, "LICENSE": b1}, [], True)
    for k in range(4):
        for st in itertools.combinations(["notes.txt", "old/C.py", "A.pyc", "D.py.orig"], k):
            yield (["A.py", "Zz.py"] + base, {}, list(st), False)


REPLAY_E = '''from mc.checks import c30
try:
    got, want, clean = c30.install_once(*{spec!r})
except Exception as e:
    got, want, clean = repr(e), 0, 0
print(got, want, clean)
bad = got != want or not clean'''


def installation(sub):
    for spec in installs(sub.thorough):
        try:
            with cpu_limit(20, "install"):
                got, want, clean = install_once(*spec)
        except Exception as e:
            got, want, clean = f"{type(e).__name__}: {e}", None, True
        sub.count(states=1, transitions=len(spec[0]), traces=1)
        if got != want or not clean:
            diff = {k: (got.get(k), want.get(k)) for k in set(got) | set(want) if got.get(k) != want.get(k)} if want else got
            sub.violation(f"install:{spec!r}"[:300], f"installing {spec[0]} over {spec[1]} beside {spec[2]}: (there, expected) {diff}"
                          + ("" if clean else "; files elsewhere were touched"), REPLAY_E.format(spec=spec))


def destinations(sub):
    """The output does not depend on what the output directory held."""
    g = c28.golden()
    for spec in data_specs(False)[::97]:
        for dest in DESTINATIONS:
            check_data(sub, spec, dest)
    rows = list(itertools.islice(reader_specs(g, False), 0, None, 211))
    for r in rows:
        for dest in DESTINATIONS[1:]:
            check_reader(sub, r, g, "\n", dest)


# ------------------------------------------------------------------ run

def _job(sub, kind, part, parts):
    if kind == "data":
        for s in data_specs(sub.thorough)[part::parts]:
            check_data(sub, s)
    elif kind == "reader":
        g = c28.golden()
        for i, rows in enumerate(reader_specs(g, sub.thorough)):
            if i % parts == part:
                check_reader(sub, rows, g, "\r\n" if i % 7 == 3 else "\n")
    elif kind == "options":
        options(sub)
        command_lines(sub)
        destinations(sub)
        installation(sub)
    else:
        whole(sub)


def run(ctx):
    ctx.stage()
    load("uchar_h"), load("uscript_h")
    builder()
    n = common.NCPU * 2
    common.parallel(ctx, _job, [("whole", 0, 1), ("options", 0, 1)] + [("data", i, n) for i in range(n)] + [("reader", i, n) for i in range(n)])
    ctx.extra(exhaustive=True)
    ctx.cov["rule"] = "state = one input (data file, row sequence, option sequence, built module); transition = one declaration, row, option or value; trace = one run of the tool compared"
    ctx.sample({"data": repr(data_specs(False)[700])})
    ctx.sample({"rows": OTHER[:4]})
    ctx.assumptions += ["files have the layout ICU's generators write; no array name is the tail of another one before it",
                        "FontDocTools.ArgumentIterator, which is not installed, is replaced by a stand-in"]
