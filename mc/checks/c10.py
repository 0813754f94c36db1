"""C10: general category and the character predicates, every code point."""
from .. import codespace


DATA = None
SPECS = [
    ('getGeneralCategory', 'gc', 'CharProps', 'getGeneralCategory'),
    ('isLower', 'is:isLower', 'CharProps', 'isLower'),
    ('isUpper', 'is:isUpper', 'CharProps', 'isUpper'),
    ('isTitle', 'is:isTitle', 'CharProps', 'isTitle'),
    ('isDigit', 'is:isDigit', 'CharProps', 'isDigit'),
    ('isHexDigit', 'is:isHexDigit', 'CharProps', 'isHexDigit'),
    ('isalpha', 'is:isalpha', 'CharProps', 'isalpha'),
    ('isAlphabetic', 'is:isAlphabetic', 'CharProps', 'isAlphabetic'),
    ('isalnum', 'is:isalnum', 'CharProps', 'isalnum'),
    ('isalnumPOSIX', 'is:isalnumPOSIX', 'CharProps', 'isalnumPOSIX'),
    ('isDefined', 'is:isDefined', 'CharProps', 'isDefined'),
    ('isbase', 'is:isbase', 'CharProps', 'isbase'),
    ('iscntrl', 'is:iscntrl', 'CharProps', 'iscntrl'),
    ('isISOControl', 'is:isISOControl', 'CharProps', 'isISOControl'),
    ('isspace', 'is:isspace', 'CharProps', 'isspace'),
    ('isJavaSpaceChar', 'is:isJavaSpaceChar', 'CharProps', 'isJavaSpaceChar'),
    ('isWhiteSpace', 'is:isWhiteSpace', 'CharProps', 'isWhiteSpace'),
    ('isBlank', 'is:isBlank', 'CharProps', 'isBlank'),
    ('isUWhiteSpace', 'is:isUWhiteSpace', 'CharProps', 'isUWhiteSpace'),
    ('isPrint', 'is:isPrint', 'CharProps', 'isPrint'),
    ('isPrintPOSIX', 'is:isPrintPOSIX', 'CharProps', 'isPrintPOSIX'),
    ('isgraph', 'is:isgraph', 'CharProps', 'isgraph'),
    ('isGraphPOSIX', 'is:isGraphPOSIX', 'CharProps', 'isGraphPOSIX'),
    ('ispunct', 'is:ispunct', 'CharProps', 'ispunct'),
    ('isIDStart', 'is:isIDStart', 'CharProps', 'isIDStart'),
    ('isIDPart', 'is:isIDPart', 'CharProps', 'isIDPart'),
    ('isIDIgnorable', 'is:isIDIgnorable', 'CharProps', 'isIDIgnorable'),
    ('isJavaIDStart', 'is:isJavaIDStart', 'CharProps', 'isJavaIDStart'),
    ('isJavaIDPart', 'is:isJavaIDPart', 'CharProps', 'isJavaIDPart'),
]


def run(ctx):
    ctx.stage(DATA)
    codespace.check(ctx, SPECS)
