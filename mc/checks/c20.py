"""C20: compatibility decompositions (NFKC, NFKC_Casefold data read from the ICU data file), every code point."""
from .. import codespace


DATA = 'small'
SPECS = [
    ('nfkc getDecomposition', 'nfkc', 'Normalizer2', 'nfkcTrie.getDecomposition'),
    ('nfkc getRawDecomposition', 'nfkc_raw', 'Normalizer2', 'nfkcTrie.getRawDecomposition'),
    ('nfkc_cf getDecomposition', 'nfkc_cf', 'Normalizer2', 'nfkc_cfTrie.getDecomposition'),
    ('nfkc_cf getRawDecomposition', 'nfkc_cf_raw', 'Normalizer2', 'nfkc_cfTrie.getRawDecomposition'),
]


def run(ctx):
    ctx.stage(DATA)
    codespace.check(ctx, SPECS)
