"""C10-C17, C22, C32: the per-code-point lookups, against reference tables that tools/crossvalidate.py agrees with other
Unicode implementations; totality; and enumeration of the shipped tries against the lookups."""
import bisect
import json
import sys

import inventory
import norm
import repo
import tries
import vh
from vh import Check, fail

TOP = 0x110000
STEP = 0x22000          # code points of one scanning case
OUTSIDE = [TOP, TOP + 1, 0x11FFFF, 0x120041, 0x200000, 0x1000000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 1 << 32, 1 << 40]
_tables = None


class Table:
    def __init__(self, runs, kind):
        self.starts = [r[0] for r in runs]
        self.values = [r[1] for r in runs]
        self.kind = kind

    def raw(self, c):
        return self.values[bisect.bisect_right(self.starts, c) - 1]

    def get(self, c):
        v = self.raw(c)
        if self.kind == "d":
            return c + v
        if self.kind == "s" and v == "=":
            return chr(c)
        return v

    def runs(self, a, b):
        i = bisect.bisect_right(self.starts, a) - 1 if a < b else len(self.starts)
        while i < len(self.starts) and self.starts[i] < b:
            end = self.starts[i + 1] if i + 1 < len(self.starts) else TOP
            yield max(a, self.starts[i]), min(b, end), self.values[i]
            i += 1


def tables():
    global _tables
    if _tables is None:
        raw = json.loads(repo.read_data("tables.json.xz"))
        ent = inventory.entries()
        _tables = {n: Table(raw[n], ent[n][2]) for n in ent}
    return _tables


class LookupCheck(Check):
    names = ()
    chunk = 4
    needs = ("scanned", "mixed", "outside")
    assumptions = ["the reference tables are those of Unicode 13.0.0 (ICU 74's layout data for C22); tools/crossvalidate.py "
                   "compares them with Java 17 and ICU 74"]
    rule = ("every lookup of the group on all 0x110000 code points, in ascending order, and in descending order where values "
            "change; mixtures of all lookups of the group in random, local, repeating and aliasing order with arguments "
            "outside the code space between; each answer is compared with the reference table; a state is a distinct "
            "(lookup, answer)")

    def setup(self):
        self.tables = tables()
        self.fns = {}
        ent = inventory.entries()
        for n in self.names:
            m, factory, kind = ent[n]
            if m == "LayoutProps":
                repo.install_data()
            self.fns[n] = factory(repo.mod(m))

    def cases(self):
        for i in range(self.scale(48, 800)):
            yield {"mode": "mix", "n": i}
        for n in self.names:
            for a in range(0, TOP, STEP * 4):
                yield {"mode": "scan", "name": n, "start": a, "stop": min(TOP, a + STEP * 4)}

    def wrong(self, name, c, wanted, got, how=""):
        fail(f"{name}({c:#x}){how} should be {wanted!r}, is {got!r}")

    def ask(self, name, c, how=""):
        w = self.tables[name].get(c)
        g = self.fns[name](c)
        if g != w:
            self.wrong(name, c, w, g, how)

    def run(self, case, obs):
        if case["mode"] == "scan":
            self.scan(case, obs)
        else:
            self.mix(case, obs)

    def scan(self, case, obs):
        name, f = case["name"], self.fns[case["name"]]
        t = self.tables[name]
        for a, b, v in t.runs(case["start"], case["stop"]):
            if t.kind == "v":
                for c in range(a, b):
                    if f(c) != v:
                        self.wrong(name, c, v, f(c))
                for c in range(b - 1, max(a, b - 40) - 1, -1):
                    if f(c) != v:
                        self.wrong(name, c, v, f(c), " (asked in descending order)")
            elif t.kind == "d":
                for c in range(a, b):
                    if f(c) != c + v:
                        self.wrong(name, c, c + v, f(c))
            elif v == "=":
                for c in range(a, b):
                    if f(c) != chr(c):
                        self.wrong(name, c, chr(c), f(c))
            else:
                for c in range(a, b):
                    if f(c) != v:
                        self.wrong(name, c, v, f(c))
            obs.n("scanned", b - a)
            obs.state(name, v)

    def mix(self, case, obs):
        rng = self.rng(case["n"])
        names = list(self.names)
        if rng.random() < .5:
            names = rng.sample(names, rng.randint(1, min(3, len(names))))
        steps = self.scale(2500, 10000)
        c = rng.randrange(TOP)
        last = "nothing"
        for _ in range(steps):
            k = rng.random()
            if k < .25:
                t = self.tables[rng.choice(names)]
                c = rng.choice(t.starts) - rng.randrange(2)
            elif k < .4:
                c = rng.randrange(TOP)
            elif k < .55:
                c += rng.choice([-2, -1, 1, 1, 2])
            elif k < .7:
                c ^= 1 << rng.randrange(21)
            elif k < .78:
                c = (c + rng.choice([0x10000, 0x800, 0x400, 0x20, 0x10, 0x100])) % TOP
            elif k < .8:
                self.outside(rng.choice(names), rng.choice(OUTSIDE), obs)
                last = "a code point outside the code space"
            if not 0 <= c < TOP:
                c = abs(c) % TOP
            n = rng.choice(names)
            self.ask(n, c, f" (after {last})")
            last = f"{n}({c:#x})"
            if rng.random() < .1:
                self.ask(n, c, " (asked twice)")
        obs.n("mixed", steps)
        for n in self.names:
            t = self.tables[n]
            for c in OUTSIDE[:3] + [vh.beyond(rng, rng.choice(t.starts)) for _ in range(3)]:
                self.outside(n, c, obs)
        obs.sample({"mixture of": names[:6], "queries": steps, "last": last})

    def outside(self, name, c, obs):
        t = self.tables[name]
        if t.kind == "s":
            return
        w = c if t.kind == "d" else default_value(name)
        g = self.fns[name](c)
        if g != w:
            self.wrong(name, c, w, g, " (outside the code space)")
        obs.n("outside")


def default_value(name):
    """What a lookup answers for what is not a code point."""
    return {"getScript": -1, "digitValue": -1, "getNumericValue": None, "getAge": [0, 0, 0, 0]}.get(name, 0)


class C10(LookupCheck):
    id = "C10"
    names = ["getGeneralCategory"] + inventory.PREDICATES


class C11(LookupCheck):
    id = "C11"
    names = inventory.ENUMERATED
    needs = LookupCheck.needs + ("versions",)

    def cases(self):
        yield from super().cases()
        yield {"mode": "version"}

    def run(self, case, obs):
        if case["mode"] != "version":
            return super().run(case, obs)
        age = repo.mod("CharProps").getAge
        newest = max(list(age(c)) for c in range(TOP))
        said = repo.mod("UnicodeVersion").unicodeVersion
        if said != ".".join(str(n) for n in newest[:2]) + ".0":      # ages are those of the versions x.y.0
            fail(f"the package says that its data is of Unicode {said}, and its newest characters are of age {newest}")
        obs.n("versions")
        obs.state("version", said)


def numeric_of_word(ntv):
    """(type, value) of a packed numeric-type-value, from the description of the format in ICU's uprops.h."""
    if ntv == 0:
        return 0, None
    if ntv < 11:
        return 1, ntv - 1
    if ntv < 21:
        return 2, ntv - 11
    if ntv < 0xb0:
        return 3, ntv - 21
    if ntv < 0x1e0:
        return 3, ((ntv >> 4) - 12) / ((ntv & 0xf) + 1)
    if ntv < 0x300:
        return 3, ((ntv >> 5) - 14) * 10.0 ** ((ntv & 0x1f) + 2)
    if ntv < 0x324:
        return 3, ((ntv >> 2) - 0xbf) * 60 ** ((ntv & 3) + 1)
    if ntv < 0x33c:
        k = ntv - 0x324
        return 3, (2 * (k & 3) + 1) / (20 << (k >> 2))
    if ntv < 0x34c:
        k = ntv - 0x33c
        return 3, (2 * (k & 3) + 1) / (32 << (k >> 2))
    return 3, None


def same_number(a, b):
    return a is b if a is None or b is None else abs(a - b) <= 1e-12 * abs(b)


class C12(LookupCheck):
    id = "C12"
    names = inventory.NUMERIC
    needs = LookupCheck.needs + ("words",)
    rule = LookupCheck.rule + "; and the decoding of every numeric type-value a data word can hold"

    def cases(self):
        yield from super().cases()
        yield {"mode": "words"}

    def run(self, case, obs):
        if case["mode"] != "words":
            return super().run(case, obs)
        cp = repo.mod("CharProps")
        for ntv in range(0x34c):
            t, v = numeric_of_word(ntv)
            for low in range(0, 64, 3):
                word = ntv << 6 | low
                if cp.numericTypeFromProps(word) != t:
                    fail(f"numericTypeFromProps({word:#x}) should be {t}, is {cp.numericTypeFromProps(word)}")
                g = cp.numericValueFromProps(word)
                if not same_number(g, v):
                    fail(f"numericValueFromProps({word:#x}) should be {v}, is {g}")
                obs.n("words")
            obs.state("word", ntv)


class C13(LookupCheck):
    id = "C13"
    names = ["bin1:" + b for b in inventory.BINARY1] + ["bin2:" + b for b in inventory.BINARY2] + inventory.EMOJI


class C14(LookupCheck):
    id = "C14"
    names = inventory.BIDI + inventory.BIDI_MAP
    needs = ("scanned", "mixed", "outside", "pairs")

    def cases(self):
        yield from super().cases()
        yield {"mode": "pairs"}

    def run(self, case, obs):
        if case["mode"] != "pairs":
            return super().run(case, obs)
        f = self.fns
        for c in range(TOP):
            m, b = f["getMirror"](c), f["getPairedBracket"](c)
            if m != c:
                if not f["isMirrored"](c):
                    fail(f"U+{c:04X} has the mirror image {m:04X} and is not mirrored")
                if f["getMirror"](m) != c:
                    fail(f"the mirror image of U+{c:04X} is {m:04X}, whose mirror image is {f['getMirror'](m):04X}")
                obs.n("pairs")
            if b != c:
                if {f["getPairedBracketType"](c), f["getPairedBracketType"](b)} != {1, 2}:
                    fail(f"the paired brackets {c:04X} and {b:04X} are not an opening and a closing one")
                if f["getPairedBracket"](b) != c or b != m:
                    fail(f"U+{c:04X} is paired with {b:04X}, which is not its mirror image or not paired with it")
                obs.n("pairs")
            elif f["getPairedBracketType"](c):
                fail(f"U+{c:04X} is a bracket without the other one")


class C15(LookupCheck):
    id = "C15"
    names = inventory.SIMPLE_CASE


class C16(LookupCheck):
    id = "C16"
    names = inventory.FULL_CASE
    needs = ("scanned", "mixed")


class C22(LookupCheck):
    id = "C22"
    names = inventory.LAYOUT
    needs = LookupCheck.needs + ("files", "generated")
    rule = LookupCheck.rule + "; and generated layout files with three random tries of different types and widths"

    def cases(self):
        yield from super().cases()
        for i in range(self.scale(96, 4000)):
            yield {"mode": "generated", "n": i}

    def run(self, case, obs):
        if case["mode"] != "generated":
            return super().run(case, obs)
        rng = self.rng("generated", case["n"])
        maps, binary, error = [], [], []
        while len(maps) < 3:
            width = rng.choice([8, 8, 16, 32])
            model = tries.Runs(tries.random_runs(rng, rng.choice([2, 10, 40]), (1 << width) - 1, rng.choice(["sparse", "medium"])))
            e = rng.randrange(1 << width)
            try:
                t = tries.encode_cptrie(model, rng, fast=rng.random() < .5, width=width, null_value=rng.choice([None, 0]), error=e,
                                        share=rng.choice(["same", "overlap"]), wide=rng.random() < .1)
            except OverflowError:
                continue
            maps.append(model)
            binary.append(tries.serialize_cptrie(t))
            error.append(e)
        repo.install_data(repo.build_package({"ulayout.icu": norm.layout_file(rng, binary), "a.res": b"1234", "z.res": b"5"},
                                             align=rng.choice([4, 16])))
        for m in ("UnicodeData.LayoutProps", "UnicodeData.ICUDataFile"):
            sys.modules.pop(m, None)
        lp = repo.mod("LayoutProps")
        for _ in range(600):
            i = rng.randrange(3)
            name = self.names[i]
            pts = maps[i].interesting()
            c = rng.choice(pts) if rng.random() < .7 else rng.randrange(TOP)
            g = getattr(lp, name)(c)
            if g != maps[i].get(c):
                fail(f"{name}({c:#x}) on a generated file should be {maps[i].get(c)}, is {g}")
            obs.n("generated")
        for i in range(3):
            for c in OUTSIDE[:4] + [vh.beyond(rng, rng.choice(maps[i].interesting())) for _ in range(6)]:
                if getattr(lp, self.names[i])(c) != error[i]:
                    fail(f"{self.names[i]}({c:#x}) on a generated file should be {error[i]}, is {getattr(lp, self.names[i])(c)}")
            obs.state(maps[i].runs[:30])
        obs.n("files")


class C17(Check):
    """Totality, and the agreement of the views of a property."""
    id = "C17"
    chunk = 1
    needs = ("outside", "outside_alias", "views", "columns")
    assumptions = LookupCheck.assumptions
    rule = ("every lookup on code points outside the code space (fixed ones and random ones up to 2**64) answers the property's "
            "default; the packed-word and vector-index decoders give what the direct lookups give, for every code point; "
            "columns and bits past the last one read as absent; a state is a distinct (lookup, argument class)")

    # direct lookup -> decoder of the packed word / of the vector index
    FROM_PROPS = {"getGeneralCategory": "generalCategoryFromProps", "getNumericType": "numericTypeFromProps",
                  "getNumericValue": "numericValueFromProps"}
    FROM_VECTOR = {"getScript": "scriptFromVecIndex", "getBlock": "blockFromVecIndex",
                   "getEastAsianWidth": "eastAsianWidthFromVecIndex", "getLineBreak": "lineBreakFromVecIndex",
                   "getSentenceBreak": "sentenceBreakFromVecIndex", "getWordBreak": "wordBreakFromVecIndex",
                   "getGraphemeClusterBreak": "graphemeClusterBreakFromVecIndex", "getDecompType": "decompTypeFromVecIndex"}

    def setup(self):
        repo.install_data()
        self.tables = tables()
        self.ent = inventory.entries()
        self.fns = {n: f(repo.mod(m)) for n, (m, f, k) in self.ent.items()}
        self.cp = repo.mod("CharProps")

    def cases(self):
        names = [n for n in self.fns if self.ent[n][2] != "s"]
        for i in range(self.scale(8, 200)):
            yield {"mode": "outside", "n": i}
        for n in self.FROM_PROPS:
            yield {"mode": "props", "name": n}
        for n in list(self.FROM_VECTOR) + ["bin1:WHITE_SPACE", "bin2:EMOJI", "bin1:PREPENDED_CONCATENATION_MARK"]:
            yield {"mode": "vector", "name": n}
        for i in range(self.scale(8, 100)):
            yield {"mode": "columns", "n": i}
        for n in self.words():
            yield {"mode": "word", "name": n}
        for i in range(self.scale(8, 60)):
            yield {"mode": "bits", "n": i}

    def run(self, case, obs):
        getattr(self, "do_" + case["mode"])(case, obs)

    def words(self):
        """Other decoders of packed words: name -> (decode of a code point's word, direct lookup)."""
        cp, bp = self.cp, repo.mod("BidiProps")
        bidi = bp.bidiPropsTrie.get

        def flag(shift):
            return lambda c: bp.getFlagFromProps(bidi(c), shift)
        out = {
            "ageFromProps": (lambda c: cp.ageFromProps(cp.getUnicodeProperties(c, 0)), cp.getAge),
            "numericTypeValueFromProps": (lambda c: cp.numericTypeValueFromProps(cp.propsTrie.get(c)), cp.getNumericTypeValue),
            "gcMask": (lambda c: cp.gcMask(cp.getGeneralCategory(c)), lambda c: 1 << cp.getGeneralCategory(c)),
        }
        if hasattr(bp, "getClassFromProps"):
            out["getClassFromProps"] = (lambda c: bp.getClassFromProps(bidi(c)), bp.getCharDirection)
        if hasattr(bp, "getFlagFromProps"):
            out["mirrored flag"] = (flag(bp.UBIDI_IS_MIRRORED_SHIFT), bp.isMirrored)
            out["bidi control flag"] = (flag(bp.UBIDI_BIDI_CONTROL_SHIFT), bp.isBidiControl)
            out["join control flag"] = (flag(bp.UBIDI_JOIN_CONTROL_SHIFT), bp.isJoinControl)
        if hasattr(bp, "getMirrorFromProps"):
            out["getMirrorFromProps"] = (lambda c: bp.getMirrorFromProps(c, bidi(c)), bp.getMirror)
        return out

    def do_word(self, case, obs):
        view, direct = self.words()[case["name"]]
        last = None
        for c in range(TOP):
            a, b = view(c), direct(c)
            if a != b:
                fail(f"{case['name']} of the word of U+{c:04X} gives {a!r}, the direct lookup {b!r}")
            key = a - c if case["name"] == "getMirrorFromProps" else a
            if key != last:
                last = key
                obs.state(case["name"], key)
        obs.n("views", TOP)

    def do_bits(self, case, obs):
        """Every binary property, at the borders of its runs and at random, as a bit of the column and of the vector."""
        rng = self.rng("bits", case["n"])
        cp = self.cp
        for column, prefix, group in ((1, "UPROPS_", inventory.BINARY1), (2, "UPROPS_2_", inventory.BINARY2)):
            for b in group:
                t = self.tables[f"bin{column}:{b}"]
                bit = getattr(cp, prefix + b)
                pts = [rng.randrange(TOP) for _ in range(60)]
                for _ in range(60):
                    s = rng.choice(t.starts)
                    pts += [s, max(0, s - 1)]
                for c in pts:
                    vec = cp.propsVectorTrie.get(c)
                    got = (cp.getBinaryProp(c, bit, column), cp.binaryPropFromVecIndex(vec, bit, column),
                           bool(cp.getUnicodeProperties(c, column) >> bit & 1))
                    if got != (t.get(c),) * 3:
                        fail(f"{b} of U+{c:04X}, directly, from its vector index, and as a bit of column {column}: {got}; "
                             f"should be {t.get(c)!r}")
                obs.n("views", len(pts))
                obs.state("bits", b, t.get(pts[0]))

    def do_outside(self, case, obs):
        rng = self.rng(case["n"])
        pts = OUTSIDE + [rng.randrange(TOP, 1 << b) for b in (21, 22, 24, 31, 32, 33, 40, 64) for _ in range(10)]
        for n, f in self.fns.items():
            kind = self.ent[n][2]
            if kind == "s":
                continue
            for c in pts:
                w = c if kind == "d" else default_value(n)
                g = f(c)
                if g != w:
                    fail(f"{n}({c:#x}) (outside the code space) should be {w!r}, is {g!r}")
                obs.n("outside")
                obs.state(n, c.bit_length())
            t = self.tables[n]
            for k in range(12):
                p = rng.randrange(TOP) if k < 2 else t.starts[rng.randrange(len(t.starts))]
                c = vh.beyond(rng, p)
                w = c if kind == "d" else default_value(n)
                g = f(c)
                if g != w:
                    fail(f"{n}({c:#x}) (outside the code space, like {p:#x} in its last bits) should be {w!r}, is {g!r}")
                obs.n("outside_alias")
                # a lookup of a real code point is not disturbed
            c = rng.randrange(TOP)
            if f(c) != self.tables[n].get(c):
                fail(f"{n}({c:#x}) after code points outside the code space: {f(c)!r}")

    def do_props(self, case, obs):
        t, dec = self.tables[case["name"]], getattr(self.cp, self.FROM_PROPS[case["name"]])
        get = self.cp.propsTrie.get
        direct = self.fns[case["name"]]
        for a, b, v in t.runs(0, TOP):
            for c in range(a, b):
                w = dec(get(c))
                if w != v:
                    fail(f"{dec.__name__} of the word of U+{c:04X} gives {w!r}, {case['name']} should be {v!r}")
                if direct(c) != w:
                    fail(f"{case['name']}(U+{c:04X}) is {direct(c)!r}, but {dec.__name__} of its word gives {w!r}")
            obs.n("views", b - a)
            obs.state(case["name"], v)

    def do_vector(self, case, obs):
        name = case["name"]
        get = self.cp.propsVectorTrie.get
        if name in self.FROM_VECTOR:
            dec = getattr(self.cp, self.FROM_VECTOR[name])
        else:
            column = 1 if name.startswith("bin1") else 2
            bit = getattr(self.cp, ("UPROPS_" if column == 1 else "UPROPS_2_") + name[5:])
            f = self.cp.binaryPropFromVecIndex
            dec = lambda i: f(i, bit, column)
        direct = self.fns.get(name)
        for a, b, v in self.tables[name].runs(0, TOP):
            for c in range(a, b):
                w = dec(get(c))
                if w != v:
                    fail(f"{name} of U+{c:04X} decoded from its vector index gives {w!r}, should be {v!r}")
                if direct and direct(c) != w:
                    fail(f"{name}(U+{c:04X}) is {direct(c)!r}, but decoded from its vector index it is {w!r}")
            obs.n("views", b - a)
            obs.state(name, v)

    def do_columns(self, case, obs):
        rng = self.rng(case["n"])
        cp = self.cp
        cols = cp.propsVectorsColumns
        for _ in range(4000):
            t = self.tables[rng.choice(inventory.ENUMERATED)]
            c = rng.choice([rng.randrange(TOP), rng.choice(t.starts), TOP - 1 - rng.randrange(5)])
            vec = cp.propsVectorTrie.get(c)
            for col in range(cols):
                if cp.getUnicodeProperties(c, col) != cp.unicodePropertiesFromVecIndex(vec, col):
                    fail(f"getUnicodeProperties({c:#x}, {col}) differs from the word of its vector index")
            for col in (cols, cols + 1, cols + rng.randrange(2, 1000)):
                if cp.getUnicodeProperties(c, col) != 0:
                    fail(f"getUnicodeProperties({c:#x}, {col}) should be 0: there are {cols} columns")
                b = rng.randrange(32)
                if cp.getBinaryProp(c, b, col) is not False:
                    fail(f"getBinaryProp({c:#x}, {b}, {col}) should be False: there are {cols} columns")
            for bit in (32, 33, 64, rng.randrange(32, 1000)):
                if cp.getBinaryProp(c, bit) is not False:
                    fail(f"getBinaryProp({c:#x}, {bit}) should be False: there is no such bit")
            # the bits of column 1 are the binary properties
            w = cp.getUnicodeProperties(c, 1)
            b = rng.choice(inventory.BINARY1)
            if (w >> getattr(cp, "UPROPS_" + b) & 1) != self.tables["bin1:" + b].get(c):
                fail(f"column 1 of U+{c:04X} ({w:#x}) disagrees with {b}")
            if cp.getBinaryProp(c, getattr(cp, "UPROPS_" + b)) is not cp.getBinaryProp(c, getattr(cp, "UPROPS_" + b), 1):
                fail(f"getBinaryProp({c:#x}, {b}) depends on naming the default column")
            obs.n("columns")


class C32(Check):
    """Enumeration of the tries the package ships."""
    id = "C32"
    chunk = 1
    needs = ("enumerations", "ranges_observed")
    assumptions = LookupCheck.assumptions
    rule = ("each shipped trie with each value function (properties of CharProps, BidiProps and CaseProps words, raw words, "
            "layout and normalization tries), over the whole code space, over random spans, and over spans one code point "
            "wide; the ranges must be those of the lookup; a state is a distinct (trie, function, range)")

    VIEWS = [  # trie, function, kwargs, table
        ("propsTrie", "generalCategoryFromProps", {}, "getGeneralCategory"),
        ("propsTrie", "numericTypeFromProps", {}, "getNumericType"),
        ("propsTrie", "numericValueFromProps", {}, "getNumericValue"),
        ("propsVectorTrie", "scriptFromVecIndex", {}, "getScript"),
        ("propsVectorTrie", "blockFromVecIndex", {}, "getBlock"),
        ("propsVectorTrie", "eastAsianWidthFromVecIndex", {}, "getEastAsianWidth"),
        ("propsVectorTrie", "lineBreakFromVecIndex", {}, "getLineBreak"),
        ("propsVectorTrie", "sentenceBreakFromVecIndex", {}, "getSentenceBreak"),
        ("propsVectorTrie", "wordBreakFromVecIndex", {}, "getWordBreak"),
        ("propsVectorTrie", "graphemeClusterBreakFromVecIndex", {}, "getGraphemeClusterBreak"),
        ("propsVectorTrie", "decompTypeFromVecIndex", {}, "getDecompType"),
    ]

    def setup(self):
        repo.install_data()
        self.tables = tables()
        cp, bp, ca, lp = (repo.mod(m) for m in ("CharProps", "BidiProps", "CaseProps", "LayoutProps"))
        self.cp = cp
        self.views = []
        for trie, fn, kw, table in self.VIEWS:
            self.views.append((fn, getattr(cp, trie), getattr(cp, fn), kw, self.tables[table]))
        for b in inventory.BINARY1:
            self.views.append((b, cp.propsVectorTrie, cp.binaryPropFromVecIndex,
                               {"propShift": getattr(cp, "UPROPS_" + b), "column": 1}, self.tables["bin1:" + b]))
        for b in inventory.BINARY2:
            self.views.append((b, cp.propsVectorTrie, cp.binaryPropFromVecIndex,
                               {"propShift": getattr(cp, "UPROPS_2_" + b), "column": 2}, self.tables["bin2:" + b]))
        self.views += [
            ("bidi class", bp.bidiPropsTrie, lambda p: p & 0x1F, {}, self.tables["getCharDirection"]),
            ("joining type", bp.bidiPropsTrie, lambda p: (p >> 5) & 7, {}, self.tables["getJoiningType"]),
            ("mirrored", bp.bidiPropsTrie, bp.getFlagFromProps, {"shift": bp.UBIDI_IS_MIRRORED_SHIFT}, self.tables["isMirrored"]),
            ("bidi control", bp.bidiPropsTrie, bp.getFlagFromProps, {"shift": bp.UBIDI_BIDI_CONTROL_SHIFT},
             self.tables["isBidiControl"]),
            ("InPC", lp.inpcTrie, None, {}, self.tables["getInPC"]),
            ("InSC", lp.inscTrie, None, {}, self.tables["getInSC"]),
            ("VO", lp.voTrie, None, {}, self.tables["getVO"]),
        ]
        # tries without a reference table: enumeration against this trie's own lookups
        self.own = [("propsTrie", cp.propsTrie), ("propsVectorTrie", cp.propsVectorTrie), ("bidiPropsTrie", bp.bidiPropsTrie),
                    ("casePropsTrie", ca.casePropsTrie)]

    def cases(self):
        for i in range(len(self.views)):
            yield {"mode": "view", "view": i}
        for i in range(len(self.own)):
            yield {"mode": "own", "trie": i}

    def merged(self, table, a, b):
        out = []
        for s, e, v in table.runs(a, b):
            if out and out[-1][2] == v:
                out[-1] = (out[-1][0], e, v)
            else:
                out.append((s, e, v))
        return out

    def compare(self, made, want, what, obs, key):
        i = 0
        for r, v in made:
            if i >= len(want) or (r.start, r.stop) != want[i][:2] or v != want[i][2] or r.step != 1:
                fail(f"{what}: range {i} should be {want[i:i + 1]}, is {r} with {v!r}")
            i += 1
            obs.state(key, r.start, r.stop)
        if i != len(want):
            fail(f"{what}: ends after {i} ranges of {len(want)}")
        obs.n("enumerations")
        obs.n("ranges_observed", i)

    def spans(self, starts, rng):
        yield 0, TOP
        for _ in range(self.scale(60, 1500)):
            k = rng.random()
            a = rng.choice(starts) if k < .6 else rng.randrange(TOP)
            a = min(TOP - 1, max(0, a + rng.choice([-33, -1, 0, 0, 0, 1, 31])))
            b = a + rng.choice([1, 1, 2, 15, 32, 33, 256, 2048, 4096, 0x5000]) if rng.random() < .8 else rng.randrange(a, TOP + 1)
            yield a, min(b, TOP)

    def run(self, case, obs):
        if case["mode"] == "view":
            name, trie, fn, kw, table = self.views[case["view"]]
            rng = self.rng(name)
            for a, b in self.spans(table.starts, rng):
                made = trie.enumerator(start=a, limit=b, valueFunction=fn, **kw) if fn else trie.enumerator(start=a, limit=b)
                self.compare(made, self.merged(table, a, b), f"enumerator({a:X}, {b:X}) of {name}", obs, name)
            return
        name, trie = self.own[case["trie"]]
        rng = self.rng(name)
        runs = []
        for c in range(TOP):
            v = trie.get(c)
            if not runs or runs[-1][1] != v:
                runs.append([c, v])
        table = Table(runs, "v")
        for a, b in self.spans(table.starts, rng):
            self.compare(trie.enumerator(a, b), self.merged(table, a, b), f"enumerator({a:X}, {b:X}) of {name}", obs, name)
        obs.sample({name: len(runs)})
