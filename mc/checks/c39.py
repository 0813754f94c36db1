"""C39: every character's case type and case-ignorability, read from its case properties
word, are Unicode 13's: every code point."""
from .. import codespace
from ..common import load, need

SPECS = [("getTypeFromProps", "case:type", "int"), ("getTypeAndIgnorableFromProps", "case:typeIgnorable", "int"), ("isUpperOrTitle", "case:upperOrTitle", "bool")]


def run(ctx):
    ctx.stage(None)
    m = load("CaseProps")
    need(need(m, "casePropsTrie"), "get")
    # a function that is no longer there cannot give a wrong answer
    codespace.check(ctx, [(f, tab, None, f"lambda c, m=load('CaseProps'): {conv}(m.{f}(m.casePropsTrie.get(c)))") for f, tab, conv in SPECS if hasattr(m, f)])
    ctx.cov["rule"] = ("state = code point (all of 0..10FFFF); transition = one classification of its properties word; trace = one sweep of one function "
                       "over a chunk of the code space, every result compared")
