"""C15: bidi class, mirroring, paired brackets, bidi controls, every code point."""
from .. import codespace


DATA = None
SPECS = [
    ('getCharDirection', 'bc', 'BidiProps', 'getCharDirection'),
    ('isMirrored', 'mirrored', 'BidiProps', 'isMirrored'),
    ('getMirror', 'mirror', 'BidiProps', 'getMirror'),
    ('getPairedBracketType', 'bpt', 'BidiProps', 'getPairedBracketType'),
    ('getPairedBracket', 'bpb', 'BidiProps', 'getPairedBracket'),
    ('isBidiControl', 'bidic', 'BidiProps', 'isBidiControl'),
]


def run(ctx):
    ctx.stage(DATA)
    codespace.check(ctx, SPECS)
