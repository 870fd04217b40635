"""Compares the committed reference tables with other implementations of Unicode: Python's unicodedata (15.0), ICU 74
(ctypes) and Java 17 (13.0).  Only characters of age 13.0 or less are compared where versions differ; what remains are the
characters whose properties Unicode changed between 13.0 and the other's version.  Run: python tools/crossvalidate.py"""
import ctypes
import json
import os
import subprocess
import sys
import tempfile
import unicodedata

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks")]
import props
import repo

T = props.tables()
old = [c for c in range(0x110000) if T["getAge"].get(c) != [0, 0, 0, 0]]
sets = {}


def report(what, n, diffs):
    print(f"{what}: {n} compared, {len(diffs)} differ" + ("" if not diffs else " " + str(diffs[:6])))


def compare(what, ours, theirs, points=None):
    diffs = []
    n = 0
    for c in points if points is not None else old:
        a, b = ours(c), theirs(c)
        n += 1
        if a != b:
            diffs.append((hex(c), a, b))
    report(what, n, diffs)


def get(n):
    return T[n].get


GC = "Cn Lu Ll Lt Lm Lo Mn Me Mc Nd Nl No Zs Zl Zp Cc Cf Co Cs Pd Ps Pe Pc Po Sm Sc Sk So Pi Pf".split()
compare("unicodedata category", lambda c: GC[get("getGeneralCategory")(c)], lambda c: unicodedata.category(chr(c)))
compare("unicodedata mirrored", lambda c: int(get("isMirrored")(c)), lambda c: unicodedata.mirrored(chr(c)))
compare("unicodedata numeric", get("getNumericValue"), lambda c: unicodedata.numeric(chr(c), None))
compare("unicodedata digit", lambda c: get("digitValue")(c), lambda c: unicodedata.decimal(chr(c), -1))
compare("str.lower/upper/title", lambda c: [get(n)(c) for n in ("toFullLower", "toFullUpper", "toFullTitle")],
        lambda c: [chr(c).lower(), chr(c).upper(), chr(c).title()])
norm = {t: {int(k, 16): v for k, v in d.items()} for t, d in json.loads(repo.read_data("norm.json.xz")).items()}
ok = [c for c in old if not 0xD800 <= c < 0xE000]
for t, form in (("nfc", "NFD"), ("nfkc", "NFKD")):
    compare(f"unicodedata {form}", lambda c: norm[t].get(c, (chr(c),))[0],
            lambda c: unicodedata.normalize(form, chr(c)), [c for c in ok if not 0xAC00 <= c <= 0xD7A3])
names = {}
for line in repo.read_data("names.txt.xz").decode().splitlines():
    h, n, a = line.split(";")
    names[int(h, 16)] = n, a
compare("unicodedata names", lambda c: names.get(c, ("",))[0], lambda c: unicodedata.name(chr(c), ""), ok)

try:
    uc = ctypes.CDLL("libicuuc.so.74")
except OSError:
    uc = None
    print("ICU 74 is not installed")
if uc:
    i32 = ctypes.c_int32
    getint = uc.u_getIntPropertyValue_74
    prop = uc.u_getPropertyEnum_74
    prop.restype = i32
    for short, n in (("gc", "getGeneralCategory"), ("sc", "getScript"), ("blk", "getBlock"), ("ea", "getEastAsianWidth"), ("lb", "getLineBreak"),
                     ("SB", "getSentenceBreak"), ("WB", "getWordBreak"), ("GCB", "getGraphemeClusterBreak"), ("dt", "getDecompType"),
                     ("bc", "getCharDirection"), ("jt", "getJoiningType"), ("jg", "getJoiningGroup"), ("bpt", "getPairedBracketType"),
                     ("nt", "getNumericType"), ("InPC", "getInPC"), ("InSC", "getInSC"), ("vo", "getVO")):
        p = prop(short.encode())
        compare("ICU " + n, lambda c: int(get(n)(c)), lambda c: getint(c, p))
    import inventory
    for b in [("bin1:", b) for b in inventory.BINARY1] + [("bin2:", b) for b in inventory.BINARY2]:
        p = prop({"S_TERM": "STerm"}.get(b[1], b[1]).encode())
        if p < 0:
            print("ICU has no", b[1])
            continue
        compare("ICU " + b[1], lambda c: int(get(b[0] + b[1])(c)), lambda c: getint(c, p))
    for theirs, ours in (("tolower", "toLower"), ("toupper", "toUpper"), ("totitle", "toTitle"), ("charMirror", "getMirror"),
                         ("getBidiPairedBracket", "getPairedBracket"), ("charDigitValue", "digitValue")):
        f = getattr(uc, f"u_{theirs}_74")
        f.restype = i32
        compare("ICU " + theirs, get(ours), f)
    nv = uc.u_getNumericValue_74
    nv.restype = ctypes.c_double
    compare("ICU numeric value", get("getNumericValue"), lambda c: None if nv(c) == -123456789.0 else nv(c))
    for theirs, ours in zip("islower isupper istitle isdigit isxdigit isalpha isUAlphabetic isalnum isdefined isbase iscntrl isISOControl isspace "
                            "isJavaSpaceChar isWhitespace isblank isUWhiteSpace isprint isgraph ispunct isIDStart isIDPart isIDIgnorable "
                            "isJavaIDStart isJavaIDPart".split(),
                            "isLower isUpper isTitle isDigit isHexDigit isalpha isAlphabetic isalnum isDefined isbase iscntrl isISOControl isspace "
                            "isJavaSpaceChar isWhiteSpace isBlank isUWhiteSpace isPrint isgraph ispunct isIDStart isIDPart isIDIgnorable "
                            "isJavaIDStart isJavaIDPart".split()):
        f = getattr(uc, f"u_{theirs}_74")
        f.restype = ctypes.c_int8
        compare("ICU " + theirs, lambda c: bool(get(ours)(c)), lambda c: bool(f(c)))

with tempfile.TemporaryDirectory() as d:
    subprocess.run(["javac", "-d", d, os.path.join(HERE, "tools", "Dump.java")], check=True)
    subprocess.run(["java", "-cp", d, "Dump", os.path.join(d, "java.txt")], check=True)
    rows = [l.rstrip("\n").split(";") for l in open(os.path.join(d, "java.txt"))]
code = lambda i: lambda c: int(rows[c][i], 16)
every = range(0x110000)
compare("Java lower", get("toLower"), code(7), every)
compare("Java upper", get("toUpper"), code(8), every)
compare("Java title", get("toTitle"), code(9), every)
compare("Java mirrored", lambda c: bool(get("isMirrored")(c)), lambda c: rows[c][5] == "true", every)
text = lambda i: lambda c: "".join(chr(int(x, 16)) for x in rows[c][i].split())
real = [c for c in every if not 0xD800 <= c < 0xE000]
compare("Java full lower", get("toFullLower"), text(10), real)
compare("Java full upper", get("toFullUpper"), text(11), real)
compare("Java NFD", lambda c: norm["nfc"].get(c, (chr(c),))[0], text(12), [c for c in real if not 0xAC00 <= c <= 0xD7A3])
compare("Java NFKD", lambda c: norm["nfkc"].get(c, (chr(c),))[0], text(13), [c for c in ok if not 0xAC00 <= c <= 0xD7A3])
JAVA = {0: 0, 1: 1, 2: 2, 3: 3, 4: 4, 5: 5, 6: 6, 7: 7, 8: 8, 9: 9, 10: 10, 11: 11, 12: 12, 13: 13, 14: 14, 15: 15, 16: 16, 18: 17, 19: 18,
        20: 19, 21: 20, 22: 21, 23: 22, 24: 23, 25: 24, 26: 25, 27: 26, 28: 27, 29: 28, 30: 29}
compare("Java general category", get("getGeneralCategory"), lambda c: JAVA[int(rows[c][1])], every)
