"""C17: simple case mappings, every code point."""
from .. import codespace


DATA = None
SPECS = [
    ('toLower', 'lower', 'CaseProps', 'toLower'),
    ('toUpper', 'upper', 'CaseProps', 'toUpper'),
    ('toTitle', 'title', 'CaseProps', 'toTitle'),
]


def run(ctx):
    ctx.stage(DATA)
    codespace.check(ctx, SPECS)
