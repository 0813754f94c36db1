"""C16: joining type, joining group, join controls, every code point."""
from .. import codespace


DATA = None
SPECS = [
    ('getJoiningType', 'jt', 'BidiProps', 'getJoiningType'),
    ('getJoiningGroup', 'jg', 'BidiProps', 'getJoiningGroup'),
    ('isJoinControl', 'joinc', 'BidiProps', 'isJoinControl'),
]


def run(ctx):
    ctx.stage(DATA)
    codespace.check(ctx, SPECS)
