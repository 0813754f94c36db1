"""C19: canonical decompositions (NFC data), every code point."""
from .. import codespace


DATA = 'small'
SPECS = [
    ('nfc getDecomposition', 'nfc', 'Normalizer2', 'nfcTrie.getDecomposition'),
    ('nfc getRawDecomposition', 'nfc_raw', 'Normalizer2', 'nfcTrie.getRawDecomposition'),
]


def run(ctx):
    ctx.stage(DATA)
    codespace.check(ctx, SPECS)
