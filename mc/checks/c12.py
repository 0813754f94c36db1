"""C12: text segmentation classes and decomposition type, every code point."""
from .. import codespace


DATA = None
SPECS = [
    ('getLineBreak', 'lb', 'CharProps', 'getLineBreak'),
    ('getSentenceBreak', 'SB', 'CharProps', 'getSentenceBreak'),
    ('getWordBreak', 'WB', 'CharProps', 'getWordBreak'),
    ('getGraphemeClusterBreak', 'GCB', 'CharProps', 'getGraphemeClusterBreak'),
    ('getDecompType', 'dt', 'CharProps', 'getDecompType'),
]


def run(ctx):
    ctx.stage(DATA)
    codespace.check(ctx, SPECS)
