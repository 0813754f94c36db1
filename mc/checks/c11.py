"""C11: script, block, East Asian width and age, every code point."""
from .. import codespace


DATA = None
SPECS = [
    ('getScript', 'sc', 'CharProps', 'getScript'),
    ('getBlock', 'blk', 'CharProps', 'getBlock'),
    ('getEastAsianWidth', 'ea', 'CharProps', 'getEastAsianWidth'),
    ('getAge', 'age', 'CharProps', 'getAge'),
]


def run(ctx):
    ctx.stage(DATA)
    codespace.check(ctx, SPECS)
