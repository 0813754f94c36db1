"""C14: numeric type, numeric value and digit value, every code point."""
from .. import codespace


DATA = None
SPECS = [
    ('getNumericType', 'nt', 'CharProps', 'getNumericType'),
    ('getNumericValue', 'nv', 'CharProps', 'getNumericValue'),
    ('digitValue', 'digit', 'CharProps', 'digitValue'),
]


def run(ctx):
    ctx.stage(DATA)
    codespace.check(ctx, SPECS)
