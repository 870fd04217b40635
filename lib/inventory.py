"""The per-code-point lookups of UnicodeData that the reference tables cover.

Every entry is (table name, module, callable taking (module, code point), kind):
kind 'v' = the value itself; kind 'd' = a code point, stored as the difference from the argument;
kind 's' = a string, stored as '=' when it is the character itself.
"""

PREDICATES = ("isLower isUpper isTitle isDigit isHexDigit isalpha isAlphabetic isalnum isalnumPOSIX isDefined isbase "
              "iscntrl isISOControl isspace isJavaSpaceChar isWhiteSpace isBlank isUWhiteSpace isPrint isPrintPOSIX "
              "isgraph isGraphPOSIX ispunct isIDStart isIDPart isIDIgnorable isJavaIDStart isJavaIDPart").split()
ENUMERATED = ("getScript getBlock getAge getEastAsianWidth getLineBreak getSentenceBreak getWordBreak "
              "getGraphemeClusterBreak getDecompType").split()
NUMERIC = "digitValue getNumericType getNumericValue".split()
BINARY1 = ("WHITE_SPACE DASH HYPHEN QUOTATION_MARK TERMINAL_PUNCTUATION MATH HEX_DIGIT ASCII_HEX_DIGIT ALPHABETIC "
           "IDEOGRAPHIC DIACRITIC EXTENDER NONCHARACTER_CODE_POINT GRAPHEME_EXTEND GRAPHEME_LINK IDS_BINARY_OPERATOR "
           "IDS_TRINARY_OPERATOR RADICAL UNIFIED_IDEOGRAPH DEFAULT_IGNORABLE_CODE_POINT DEPRECATED "
           "LOGICAL_ORDER_EXCEPTION XID_START XID_CONTINUE ID_START ID_CONTINUE GRAPHEME_BASE S_TERM "
           "VARIATION_SELECTOR PATTERN_SYNTAX PATTERN_WHITE_SPACE PREPENDED_CONCATENATION_MARK").split()
BINARY2 = "EMOJI EMOJI_PRESENTATION EMOJI_MODIFIER EMOJI_MODIFIER_BASE EMOJI_COMPONENT EXTENDED_PICTOGRAPHIC".split()
EMOJI = "isExtendedPictograph isEmojiComponent isEmoji isEmojiPresentation isEmojiModifier isEmojiModifierBase".split()
BIDI = ("getCharDirection isMirrored isBidiControl isJoinControl getJoiningType getJoiningGroup "
        "getPairedBracketType").split()
BIDI_MAP = "getMirror getPairedBracket".split()
SIMPLE_CASE = "toLower toUpper toTitle".split()
FULL_CASE = "toFullLower toFullUpper toFullTitle".split()
LAYOUT = "getInPC getInSC getVO".split()
DICT_MODULES = ("UCDTypeDictionaries Blocks Scripts GeneralCategories Boundaries CharDirection JoiningTypesAndGroups "
                "LayoutTypes EastAsianWidth DecompositionType").split()
CONST_MODULES = ("uchar_h uscript_h uprops_h ucase_h Characters Blocks Scripts GeneralCategories Boundaries "
                 "CharDirection JoiningTypesAndGroups LayoutTypes EastAsianWidth DecompositionType").split()


def entries():
    """name -> (module, function factory, kind).  A factory takes the imported module."""
    e = {}

    def plain(names, module, kind):
        for n in names:
            e[n] = (module, lambda m, n=n: getattr(m, n), kind)

    plain(["getGeneralCategory"] + PREDICATES + ENUMERATED + NUMERIC + EMOJI, "CharProps", "v")
    for b in BINARY1:
        e["bin1:" + b] = ("CharProps", lambda m, b=b: (
            lambda c, f=m.getBinaryProp, s=getattr(m, "UPROPS_" + b): f(c, s)), "v")
    for b in BINARY2:
        e["bin2:" + b] = ("CharProps", lambda m, b=b: (
            lambda c, f=m.getBinaryProp, s=getattr(m, "UPROPS_2_" + b): f(c, s, 2)), "v")
    plain(BIDI, "BidiProps", "v")
    plain(BIDI_MAP, "BidiProps", "d")
    plain(SIMPLE_CASE, "CaseProps", "d")
    plain(FULL_CASE, "CaseProps", "s")
    plain(LAYOUT, "LayoutProps", "v")
    return e
