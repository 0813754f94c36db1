"""Exchange of the tables in the staged copy: the generated data modules are rewritten
(every table of the format in question, the module's other names stay), and the package
is imported anew.  The code under test is not touched."""
import ast
import os

from . import common

_parts = {}


def _split(module):
    """The module's source cut at its top-level assignments: [text or (name, text)]."""
    if module not in _parts:
        with open(os.path.join(common.REPO, "UnicodeData", module + ".py"), encoding="utf-8") as f:
            src = f.read()
        lines = src.splitlines(keepends=True)
        out, at = [], 0
        for node in ast.parse(src).body:
            if isinstance(node, ast.AnnAssign):
                targets = [node.target]
            elif isinstance(node, ast.Assign):
                targets = node.targets
            else:
                continue
            if len(targets) == 1 and isinstance(targets[0], ast.Name):
                out.append("".join(lines[at:node.lineno - 1]))
                out.append((targets[0].id, "".join(lines[node.lineno - 1:node.end_lineno])))
                at = node.end_lineno
        out.append("".join(lines[at:]))
        _parts[module] = out
    return _parts[module]


def rewrite(module, values):
    """Write the staged copy of a data module with these values."""
    left = dict(values)
    out = []
    for p in _split(module):
        if isinstance(p, tuple):
            name, text = p
            if name in values:
                text = f"{name} = {values[name]!r}\n"
                left.pop(name, None)
            out.append(text)
        else:
            out.append(p)
    out += [f"\n{k} = {v!r}\n" for k, v in left.items()]
    path = os.path.join(common.scratch(), "UnicodeData", module + ".py")
    with open(path, "w", encoding="utf-8") as f:
        f.write("".join(out))


def restore(module):
    path = os.path.join(common.scratch(), "UnicodeData", module + ".py")
    with open(os.path.join(common.REPO, "UnicodeData", module + ".py"), encoding="utf-8") as f:
        src = f.read()
    with open(path, "w", encoding="utf-8") as f:
        f.write(src)


def original(module, name):
    """A table as the repository ships it."""
    for p in _split(module):
        if isinstance(p, tuple) and p[0] == name:
            return ast.literal_eval(p[1].split("=", 1)[1].strip())
    raise common.Missing(f"{module} has no {name}")


def trie2(prefix, image):
    """The six values a generated module holds for a 16-bit trie."""
    index, length, i2null, null, high_start, high_index = image.args
    return {f"{prefix}_index": index, f"{prefix}_index_length": length, f"{prefix}_index_2_null_offset": i2null,
            f"{prefix}_data_null_offset": null, f"{prefix}_high_start": high_start, f"{prefix}_high_value_index": high_index}


def blocks(mapping, null=0):
    """{code point: value} as 32-value blocks."""
    out = {}
    for c, v in mapping.items():
        b = out.get(c >> 5)
        if b is None:
            b = out[c >> 5] = [null] * 32
        b[c & 31] = v
    return out
