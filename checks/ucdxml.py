"""C25: character data read from UCD XML, on generated documents."""
import fractions
import xml.etree.ElementTree as ElementTree

import repo
from vh import Check, fail

TOP = 0x110000

BINARY = dict(pair.split(":") for pair in """whitespace:WSpace dash:Dash hyphen:Hyphen quotationMark:QMark
    terminalPunctuation:Term sentenceTerminalPunctuation:STerm diacritic:Dia extender:Ext prependedConcatenationMark:PCM
    softDotted:SD alphabetic:Alpha otherAlphabetic:OAlpha math:Math otherMath:OMath hexDigit:Hex asciiHexDigit:AHex
    defaultIgnorable:DI otherDefaultIgnorable:ODI logicalOrderException:LOE regionalIndicator:RI graphemeBase:Gr_Base
    graphemeExtended:Gr_Ext otherGraphemeExtended:OGr_Ext graphemeLink:Gr_Link ideographic:Ideo unifiedIdeographic:UIdeo
    idsBinaryOperator:IDSB idsTrinaryOperator:IDST radical:Radical deprecated:Dep variationSelector:VS
    nonCharacterCodePoint:NChar idStart:IDS otherIDStart:OIDS xIDStart:XIDS idContinue:IDC otherIDContinue:OIDC
    xIDContinue:XIDC patternSyntax:Pat_Syn patternWhitespace:Pat_WS""".split())
CASE_BOOLEAN = dict(pair.split(":") for pair in """upper:Upper lower:Lower otherUpper:OUpper otherLower:OLower caseIgnorable:CI
    cased:Cased changesWhenCaseFolded:CWCF changesWhenCasedMapped:CWCM changesWhenLowercased:CWL
    changesWhenNFKCCaseFolded:CWKCF changesWhenTitlecased:CWT changesWhenUppercased:CWU""".split())
CASE_MAP = dict(pair.split(":") for pair in """simpleUpperCase:suc simpleLowerCase:slc simpleTitleCase:stc upperCase:uc
    lowerCase:lc titleCase:tc simpleCaseFolding:scf caseFolding:cf""".split())
DECOMP_BOOLEAN = dict(pair.split(":") for pair in """compositionExclusion:CE fullCompositionExclusion:Comp_Ex expandOnNFC:XO_NFC
    expandOnNFD:XO_NFD expandOnNFKC:XO_NFKC expandOnNFKD:XO_NFKD""".split())
DECOMP_PLAIN = dict(pair.split(":") for pair in """decompositionType:dt nfcQuickCheck:NFC_QC nfdQuickCheck:NFD_QC
    nfkcQuickCheck:NFKC_QC nfkdQuickCheck:NFKD_QC""".split())
PLAIN = dict(pair.split(":") for pair in """generalCategory:gc numericType:nt script:sc joiningType:jt lineBreak:lb
    sentenceBreak:SB wordBreak:WB graphemeClusterBreak:GCB eastAsianWidth:ea hangulSyllableType:hst jamoShortName:JSN
    verticalOrientation:vo""".split())
BOOLEAN = dict(pair.split(":") for pair in """isJoiningControl:Join_C emoji:Emoji emojiPresentation:EPres emojiModifier:EMod
    emojiModifierBase:EBase emojiComponent:EComp extendedPictograph:ExtPict""".split())


def chars(value):
    return "".join(chr(int(x, 16)) for x in value.split(" "))


def expected(attrs):
    """What the objects made from a character's effective attributes must show: (path, value)."""
    cp = attrs["cp"]
    c = int(cp, 16)
    get = lambda k: attrs.get(k, "")
    out = {"cp": cp, "codePoint": c, "combiningClass": int(get("ccc")), "name": get("na").replace("#", cp)}
    for part in ("bidiProperties", "decompProperties", "caseProperties", "indicProperties", "binaryProperties"):
        out[part + ".codePoint"] = c
        out[part + ".cp"] = cp
    nv = get("nv")
    out["numericValue"] = None if nv == "NaN" else float(fractions.Fraction(nv))
    out["scriptExtensions"] = get("scx").split(" ")
    out["block"] = get("blk").replace("_", " ")
    out["joiningGroup"] = get("jg").replace("_", " ")
    for f, k in PLAIN.items():
        out[f] = get(k)
    for f, k in BOOLEAN.items():
        out[f] = get(k) == "Y"
    out["bidiProperties.bidiClass"] = get("bc")
    out["bidiProperties.bidiMirrored"] = get("Bidi_M") == "Y"
    out["bidiProperties.bidiControl"] = get("Bidi_C") == "Y"
    out["bidiProperties.bidiMirroredGlyph"] = int(get("bmg") or cp, 16)
    out["bidiProperties.bidiPairedBracketType"] = get("bpt")
    out["bidiProperties.bidiPairedBracket"] = c if get("bpb") == "#" else int(get("bpb"), 16)
    for f, k in DECOMP_PLAIN.items():
        out["decompProperties." + f] = get(k)
    for f, k in DECOMP_BOOLEAN.items():
        out["decompProperties." + f] = get(k) == "Y"
    out["decompProperties.decomposition"] = None if get("dm") in ("", "#") else chars(get("dm"))
    out["decompProperties.nfkcFullClosure"] = None if get("FC_NFKC") in ("", "#") else chars(get("FC_NFKC"))
    cf = get("NFKC_CF")
    out["decompProperties.nfkcCaseFolded"] = None if cf == "" else chr(c) if cf == "#" else chars(cf)
    out["caseProperties.nkfcCasefold"] = "" if cf == "" else chr(c) if cf == "#" else chars(cf)
    for f, k in CASE_BOOLEAN.items():
        out["caseProperties." + f] = get(k) == "Y"
    for f, k in CASE_MAP.items():
        out["caseProperties." + f] = chr(c) if get(k) in ("", "#") else chars(get(k))
    out["indicProperties.syllabicCategory"] = get("InSC")
    out["indicProperties.positionalCategory"] = get("InPC")
    for f, k in BINARY.items():
        out["binaryProperties." + f] = get(k) == "Y"
    return out


def rnd_cp(rng):
    return "%04X" % rng.choice([rng.randrange(0x80), rng.randrange(0x3000), rng.randrange(0x10000), rng.randrange(0x10000, TOP),
                                rng.randrange(TOP)])


def rnd_value(rng):
    """A property value's short name, of any number of words."""
    word = lambda: "".join(rng.choice("ABCDEXYZabcdenx0123456789") for _ in range(rng.randint(1, 7)))
    return rng.choice(["_", "_", "_", "-"]).join(word() for _ in range(rng.choice([1, 1, 2, 3, 5, 8])))


def rnd_number(rng):
    n = rng.choice([rng.randrange(100), rng.randrange(10 ** 6), rng.randrange(1, 10) * 10 ** rng.randrange(21)])
    d = rng.choice(["", "", "/" + str(rng.randrange(1, 400))])
    return rng.choice(["", "", "-"]) + str(n) + d


def rnd_attrs(rng):
    """A complete set of attributes (without cp)."""
    yn = lambda: rng.choice(["Y", "N", "N"])
    a = {}
    for d in (BINARY, CASE_BOOLEAN, DECOMP_BOOLEAN, BOOLEAN):
        for k in d.values():
            a[k] = yn()
    for k in CASE_MAP.values():
        n = rng.choice([1, 1, 2, 3, 3, 20]) if k in ("uc", "lc", "tc", "cf") else 1
        a[k] = rng.choice(["#", "#", " ".join(rnd_cp(rng) for _ in range(n)), ""])
    a["Bidi_M"], a["Bidi_C"] = yn(), yn()
    a["na"] = rng.choice(["LATIN SMALL LETTER A", "CJK UNIFIED IDEOGRAPH-#", "", "TANGUT IDEOGRAPH-#", "# AND #", "N-1"])
    a["gc"] = rng.choice(["Lu", "Ll", "Lo", "Cn", "Zs", "Nd"])
    a["ccc"] = rng.choice(["0", "0", "1", "9", "220", "230", "240"])
    if rng.random() < .3:
        a["na"] = rnd_value(rng).upper().replace("_", " ") + rng.choice(["", "-#", " #"])
    a["nt"] = rng.choice(["None", "De", "Di", "Nu"])
    a["nv"] = rng.choice(["NaN", "NaN", "0", "7", "1/2", "-1/2", "3/80", "1000000000000", "216000", "1/320", "10/1"])
    if rng.random() < .4:
        a["nv"] = rnd_number(rng)
    a["sc"] = rng.choice(["Zyyy", "Latn", "Hani"])
    a["scx"] = rng.choice(["Latn", "Arab Copt", "Beng Deva Gran Knda"])
    a["blk"] = rng.choice(["ASCII", "Latin_1_Sup", "Sup_Arrows_A", "NB", "Misc_Pictographs"])
    a["jt"], a["jg"] = rng.choice("UDRCT"), rng.choice(["No_Joining_Group", "Burushaski_Yeh_Barree", "Beh", "Teth"])
    a["lb"], a["SB"], a["WB"] = rng.choice(["AL", "BK", "XX"]), rng.choice(["XX", "SP"]), rng.choice(["XX", "LE"])
    a["GCB"], a["ea"], a["hst"] = rng.choice(["XX", "CN"]), rng.choice(["N", "W", "Na"]), rng.choice(["NA", "LV"])
    a["JSN"], a["vo"] = rng.choice(["", "GG"]), rng.choice(["R", "Tu"])
    a["InSC"], a["InPC"] = rng.choice(["Other", "Vowel_Dependent"]), rng.choice(["NA", "Top_And_Left"])
    a["bc"] = rng.choice(["L", "AL", "ON"])
    a["bmg"] = rng.choice(["", rnd_cp(rng)])
    a["bpt"] = rng.choice("noc")
    a["bpb"] = rng.choice(["#", rnd_cp(rng)])
    a["dt"] = rng.choice(["none", "can", "com", "font"])
    a["dm"] = rng.choice(["#", "#", "", " ".join(rnd_cp(rng) for _ in range(rng.choice([1, 2, 3, 18, 19, 40, 300])))])
    for k in DECOMP_PLAIN.values():
        a.setdefault(k, rng.choice("YNM"))
    for k in list(PLAIN.values()) + list(DECOMP_PLAIN.values()) + ["blk", "jg", "bc", "bpt", "InSC", "InPC"]:
        if rng.random() < .15:
            a[k] = rnd_value(rng)
    if rng.random() < .3:
        a["scx"] = " ".join(rnd_value(rng) for _ in range(rng.choice([1, 2, 7, 21])))
    if rng.random() < .2:
        a["ccc"] = str(rng.randrange(255))
    a["FC_NFKC"] = rng.choice(["", "#", " ".join(rnd_cp(rng) for _ in range(rng.choice([1, 2, 3, 19])))])
    a["NFKC_CF"] = rng.choice(["", "#", " ".join(rnd_cp(rng) for _ in range(rng.choice([1, 2, 4, 18, 33])))])
    return a


MAPPINGS = ("suc", "slc", "stc", "uc", "lc", "tc", "scf", "cf", "bmg", "bpb", "dm", "FC_NFKC", "NFKC_CF")


class C25(Check):
    id = "C25"
    chunk = 4
    needs = ("characters", "fields", "inherited", "overridden")
    assumptions = ["elements carry the attributes every UCD XML file carries (ccc, nv, bpb, cp), on the character or its group"]
    rule = ("random groups of characters; each attribute on the group, on the character, on both (the character's counts, also "
            "when empty) or, if optional, nowhere; the same characters written ungrouped; objects kept while others are made; "
            "every field of every object compared with what its effective attributes say; a state is a distinct effective "
            "attribute value in its place")

    def setup(self):
        self.CharacterData = repo.mod("CharacterData").CharacterData

    def cases(self):
        for i in range(self.scale(2500, 40000)):
            yield {"n": i}

    def compare(self, data, attrs, how, obs):
        for path, want in expected(attrs).items():
            o = data
            for part in path.split("."):
                if not hasattr(o, part):
                    fail(f"character data ({how}) has no {path}")
                o = getattr(o, part)
            same = abs(o - want) <= 1e-15 * abs(want) if isinstance(want, float) and isinstance(o, (int, float)) else \
                (list(o) if isinstance(o, tuple) else o) == want
            if not same or isinstance(want, bool) and not isinstance(o, bool):
                fail(f"{path} of U+{attrs['cp']} ({how}) should be {want!r}, is {o!r}; attributes "
                     f"{ {k: v for k, v in attrs.items() if len(v) and v not in 'YN'} }")
            obs.n("fields")
        obs.n("characters")

    def run(self, case, obs):
        rng = self.rng(case["n"])
        base = rnd_attrs(rng)
        group = {k: v for k, v in base.items() if rng.random() < .7}
        optional = set(base) - {"ccc", "nv", "bpb"}
        made = []
        elements = []
        root = ElementTree.Element("group", group)
        for _ in range(rng.randint(1, 6)):
            own = rnd_attrs(rng)
            char = {"cp": rnd_cp(rng)}
            p = rng.random()
            for k, v in own.items():
                if rng.random() < p or k not in group and (k not in optional or rng.random() < .9):
                    char[k] = v
                    obs.n("overridden" if k in group else "own")
                elif k in group:
                    obs.n("inherited")
            for k in MAPPINGS:
                if k in char and rng.random() < .08:      # mapped to itself, spelled out
                    char[k] = char["cp"] if k in ("bmg", "bpb") or rng.random() < .7 else char["cp"] + " " + char["cp"]
            e = ElementTree.SubElement(root, "char", char)
            if rng.random() < .3:
                ElementTree.SubElement(e, "name-alias", {"alias": "X", "type": "abbreviation", "na": "WRONG"})
            elements.append((char, {**group, **char}))
        root = ElementTree.fromstring(ElementTree.tostring(root))     # through the parser
        before = ElementTree.tostring(root)
        for e, (char, effective) in zip(root.findall("char"), elements):
            made.append((self.CharacterData(e, root), effective, "in a group"))
            if rng.random() < .3:
                flat = ElementTree.Element("char", effective)
                made.append((self.CharacterData(flat, ElementTree.Element("group")), effective, "ungrouped"))
        if ElementTree.tostring(root) != before:
            fail("reading character data changed the document")
        order = list(range(len(made)))
        rng.shuffle(order)
        for i in order:
            self.compare(made[i][0], made[i][1], made[i][2], obs)
            for k, v in made[i][1].items():
                if k not in ("cp",) and len(v) < 12:
                    obs.state(k, v)
            x = made[i][0].scriptExtensions      # is its own, and may be changed
            if isinstance(x, list):
                x.append("Zzzz")
                x[0] = "Qaaa"
                obs.n("results_changed")
        obs.sample({"group": len(group), "characters": [sorted(c)[:6] for c, _ in elements][:3]})
