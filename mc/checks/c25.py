"""C25: Indic and vertical layout properties read from the ICU data file, every code point."""
from .. import codespace


DATA = 'small'
SPECS = [
    ('getInPC', 'inpc', 'LayoutProps', 'getInPC'),
    ('getInSC', 'insc', 'LayoutProps', 'getInSC'),
    ('getVO', 'vo', 'LayoutProps', 'getVO'),
]


def run(ctx):
    ctx.stage(DATA)
    codespace.check(ctx, SPECS)
