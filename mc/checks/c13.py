"""C13: binary and emoji properties, every code point."""
from .. import codespace


DATA = None
SPECS = [
    ('getBinaryProp ALPHABETIC', 'bin1:ALPHABETIC', 'CharProps', 'getBinaryProp', ', m.UPROPS_ALPHABETIC'),
    ('getBinaryProp ASCII_HEX_DIGIT', 'bin1:ASCII_HEX_DIGIT', 'CharProps', 'getBinaryProp', ', m.UPROPS_ASCII_HEX_DIGIT'),
    ('getBinaryProp DASH', 'bin1:DASH', 'CharProps', 'getBinaryProp', ', m.UPROPS_DASH'),
    ('getBinaryProp DEFAULT_IGNORABLE_CODE_POINT', 'bin1:DEFAULT_IGNORABLE_CODE_POINT', 'CharProps', 'getBinaryProp', ', m.UPROPS_DEFAULT_IGNORABLE_CODE_POINT'),
    ('getBinaryProp DEPRECATED', 'bin1:DEPRECATED', 'CharProps', 'getBinaryProp', ', m.UPROPS_DEPRECATED'),
    ('getBinaryProp DIACRITIC', 'bin1:DIACRITIC', 'CharProps', 'getBinaryProp', ', m.UPROPS_DIACRITIC'),
    ('getBinaryProp EXTENDER', 'bin1:EXTENDER', 'CharProps', 'getBinaryProp', ', m.UPROPS_EXTENDER'),
    ('getBinaryProp GRAPHEME_BASE', 'bin1:GRAPHEME_BASE', 'CharProps', 'getBinaryProp', ', m.UPROPS_GRAPHEME_BASE'),
    ('getBinaryProp GRAPHEME_EXTEND', 'bin1:GRAPHEME_EXTEND', 'CharProps', 'getBinaryProp', ', m.UPROPS_GRAPHEME_EXTEND'),
    ('getBinaryProp GRAPHEME_LINK', 'bin1:GRAPHEME_LINK', 'CharProps', 'getBinaryProp', ', m.UPROPS_GRAPHEME_LINK'),
    ('getBinaryProp HEX_DIGIT', 'bin1:HEX_DIGIT', 'CharProps', 'getBinaryProp', ', m.UPROPS_HEX_DIGIT'),
    ('getBinaryProp HYPHEN', 'bin1:HYPHEN', 'CharProps', 'getBinaryProp', ', m.UPROPS_HYPHEN'),
    ('getBinaryProp ID_CONTINUE', 'bin1:ID_CONTINUE', 'CharProps', 'getBinaryProp', ', m.UPROPS_ID_CONTINUE'),
    ('getBinaryProp ID_START', 'bin1:ID_START', 'CharProps', 'getBinaryProp', ', m.UPROPS_ID_START'),
    ('getBinaryProp IDEOGRAPHIC', 'bin1:IDEOGRAPHIC', 'CharProps', 'getBinaryProp', ', m.UPROPS_IDEOGRAPHIC'),
    ('getBinaryProp IDS_BINARY_OPERATOR', 'bin1:IDS_BINARY_OPERATOR', 'CharProps', 'getBinaryProp', ', m.UPROPS_IDS_BINARY_OPERATOR'),
    ('getBinaryProp IDS_TRINARY_OPERATOR', 'bin1:IDS_TRINARY_OPERATOR', 'CharProps', 'getBinaryProp', ', m.UPROPS_IDS_TRINARY_OPERATOR'),
    ('getBinaryProp LOGICAL_ORDER_EXCEPTION', 'bin1:LOGICAL_ORDER_EXCEPTION', 'CharProps', 'getBinaryProp', ', m.UPROPS_LOGICAL_ORDER_EXCEPTION'),
    ('getBinaryProp MATH', 'bin1:MATH', 'CharProps', 'getBinaryProp', ', m.UPROPS_MATH'),
    ('getBinaryProp NONCHARACTER_CODE_POINT', 'bin1:NONCHARACTER_CODE_POINT', 'CharProps', 'getBinaryProp', ', m.UPROPS_NONCHARACTER_CODE_POINT'),
    ('getBinaryProp QUOTATION_MARK', 'bin1:QUOTATION_MARK', 'CharProps', 'getBinaryProp', ', m.UPROPS_QUOTATION_MARK'),
    ('getBinaryProp RADICAL', 'bin1:RADICAL', 'CharProps', 'getBinaryProp', ', m.UPROPS_RADICAL'),
    ('getBinaryProp TERMINAL_PUNCTUATION', 'bin1:TERMINAL_PUNCTUATION', 'CharProps', 'getBinaryProp', ', m.UPROPS_TERMINAL_PUNCTUATION'),
    ('getBinaryProp UNIFIED_IDEOGRAPH', 'bin1:UNIFIED_IDEOGRAPH', 'CharProps', 'getBinaryProp', ', m.UPROPS_UNIFIED_IDEOGRAPH'),
    ('getBinaryProp WHITE_SPACE', 'bin1:WHITE_SPACE', 'CharProps', 'getBinaryProp', ', m.UPROPS_WHITE_SPACE'),
    ('getBinaryProp XID_CONTINUE', 'bin1:XID_CONTINUE', 'CharProps', 'getBinaryProp', ', m.UPROPS_XID_CONTINUE'),
    ('getBinaryProp XID_START', 'bin1:XID_START', 'CharProps', 'getBinaryProp', ', m.UPROPS_XID_START'),
    ('getBinaryProp S_TERM', 'bin1:S_TERM', 'CharProps', 'getBinaryProp', ', m.UPROPS_S_TERM'),
    ('getBinaryProp VARIATION_SELECTOR', 'bin1:VARIATION_SELECTOR', 'CharProps', 'getBinaryProp', ', m.UPROPS_VARIATION_SELECTOR'),
    ('getBinaryProp PATTERN_SYNTAX', 'bin1:PATTERN_SYNTAX', 'CharProps', 'getBinaryProp', ', m.UPROPS_PATTERN_SYNTAX'),
    ('getBinaryProp PATTERN_WHITE_SPACE', 'bin1:PATTERN_WHITE_SPACE', 'CharProps', 'getBinaryProp', ', m.UPROPS_PATTERN_WHITE_SPACE'),
    ('getBinaryProp PREPENDED_CONCATENATION_MARK', 'bin1:PREPENDED_CONCATENATION_MARK', 'CharProps', 'getBinaryProp', ', m.UPROPS_PREPENDED_CONCATENATION_MARK'),
    ('getBinaryProp EMOJI', 'bin2:EMOJI', 'CharProps', 'getBinaryProp', ', m.UPROPS_2_EMOJI, 2'),
    ('getBinaryProp EMOJI_PRESENTATION', 'bin2:EMOJI_PRESENTATION', 'CharProps', 'getBinaryProp', ', m.UPROPS_2_EMOJI_PRESENTATION, 2'),
    ('getBinaryProp EMOJI_MODIFIER', 'bin2:EMOJI_MODIFIER', 'CharProps', 'getBinaryProp', ', m.UPROPS_2_EMOJI_MODIFIER, 2'),
    ('getBinaryProp EMOJI_MODIFIER_BASE', 'bin2:EMOJI_MODIFIER_BASE', 'CharProps', 'getBinaryProp', ', m.UPROPS_2_EMOJI_MODIFIER_BASE, 2'),
    ('getBinaryProp EMOJI_COMPONENT', 'bin2:EMOJI_COMPONENT', 'CharProps', 'getBinaryProp', ', m.UPROPS_2_EMOJI_COMPONENT, 2'),
    ('getBinaryProp EXTENDED_PICTOGRAPHIC', 'bin2:EXTENDED_PICTOGRAPHIC', 'CharProps', 'getBinaryProp', ', m.UPROPS_2_EXTENDED_PICTOGRAPHIC, 2'),
    ('isEmoji', 'bin2:EMOJI', 'CharProps', 'isEmoji'),
    ('isEmojiPresentation', 'bin2:EMOJI_PRESENTATION', 'CharProps', 'isEmojiPresentation'),
    ('isEmojiModifier', 'bin2:EMOJI_MODIFIER', 'CharProps', 'isEmojiModifier'),
    ('isEmojiModifierBase', 'bin2:EMOJI_MODIFIER_BASE', 'CharProps', 'isEmojiModifierBase'),
    ('isEmojiComponent', 'bin2:EMOJI_COMPONENT', 'CharProps', 'isEmojiComponent'),
    ('isExtendedPictograph', 'bin2:EXTENDED_PICTOGRAPHIC', 'CharProps', 'isExtendedPictograph'),
    ('isAlphabetic', 'bin1:ALPHABETIC', 'CharProps', 'isAlphabetic'),
    ('isUWhiteSpace', 'bin1:WHITE_SPACE', 'CharProps', 'isUWhiteSpace'),
    ('getBinaryProp out of range m.UPROPS_BINARY_1_TOP', 'false', 'CharProps', 'getBinaryProp', ', m.UPROPS_BINARY_1_TOP'),
    ('getBinaryProp out of range m.UPROPS_BINARY_1_TOP + 7', 'false', 'CharProps', 'getBinaryProp', ', m.UPROPS_BINARY_1_TOP + 7'),
    ('getUnicodeProperties column 3', 'zero', 'CharProps', 'getUnicodeProperties', ', 3'),
    ('getUnicodeProperties column 4', 'zero', 'CharProps', 'getUnicodeProperties', ', 4'),
]


def run(ctx):
    ctx.stage(DATA)
    codespace.check(ctx, SPECS)
