"""C18: full case mappings, every code point."""
from .. import codespace


DATA = None
SPECS = [
    ('toFullLower', 'fullLower', 'CaseProps', 'toFullLower'),
    ('toFullUpper', 'fullUpper', 'CaseProps', 'toFullUpper'),
    ('toFullTitle', 'fullTitle', 'CaseProps', 'toFullTitle'),
]


def run(ctx):
    ctx.stage(DATA)
    codespace.check(ctx, SPECS)
