"""C34-C37: the lookups on generated data modules (what building from another ICU version would give), against the model the
data were made from."""
import importlib
import json
import sys
import types

import inventory
import norm
import repo
import tries
from props import numeric_of_word, same_number
from vh import Check, fail

TOP = 0x110000
CORNERS = [0, 0x41, 0x7F, 0x80, 0xFF, 0x7FF, 0x800, 0xFFF, 0x1000, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFF, 0x10000,
           0x10FFFF, 0x130, 0x587]


class Generated(Check):
    """Cases that replace data modules by generated ones, load the package afresh and ask it."""
    data_modules = ()
    assumptions = ["a data module is what module_builder makes of ICU's source: lists and numbers under ICU's names",
                   "the generated data are well-formed as ICU's builders (genprops, gennorm2) define it"]
    needs = ("packages", "lookups")

    def setup(self):
        repo.install_data()
        self.shipped = {m: {k: v for k, v in vars(repo.mod(m)).items() if not k.startswith("_")} for m in self.data_modules}
        self.consts = json.loads(repo.read_data("constants.json.xz"))

    def cases(self):
        for i in range(self.scale(self.quick, self.deep)):
            yield {"n": i}

    def load(self, module, **data):
        """module, of a package whose data modules hold `data` instead of what is shipped."""
        repo.drop_modules()
        pkg = importlib.import_module("UnicodeData")
        for name, values in data.items():
            m = types.ModuleType("UnicodeData." + name)
            vars(m).update(self.shipped[name])
            vars(m).update(values)
            sys.modules[m.__name__] = m
            setattr(pkg, name, m)
        return repo.mod(module)

    def trie(self, prefix, index, runs, rng, error=0):
        """The values a data module holds for a UTrie2 with the given runs."""
        k = tries.encode_utrie2(tries.Runs(runs), rng, initial=0, error=error,
                                share=rng.choice(["same", "same", "overlap"]), use_null=rng.random() < .8, late_high=rng.random() < .3)
        out = {index: k["index"]}
        for a, b in (("index_length", "indexLength"), ("index_2_null_offset", "index2NullOffset"),
                     ("data_null_offset", "dataNullOffset"), ("high_start", "highStart"), ("high_value_index", "highValueIndex")):
            out[f"{prefix}_{a}"] = k[b]
        return out

    def run(self, case, obs):
        rng = self.rng("generated", case["n"])
        for _ in range(50):
            try:
                return self.generated(rng, obs)
            except OverflowError:
                pass
        raise RuntimeError("no generated data fit")

    def runs_of(self, words, default):
        """[(start, value)] of a map given for single code points."""
        out = [(0, default)]
        for c in sorted(words):
            if out[-1][0] == c:
                out.pop()
            out.append((c, words[c]))
            if c + 1 < TOP and c + 1 not in words:
                out.append((c + 1, default))
        return out

    def place(self, rng, used):
        while True:
            k = rng.random()
            if k < .1:
                c = rng.choice(CORNERS)
            elif k < .5:
                c = rng.choice([0x40, 0xC0, 0x370, 0x1C80, 0x1E00, 0xA640, 0xFB00, 0x10400, 0x1E900, 0x10FF00]) + rng.randrange(0xC0)
            elif k < .8:
                c = rng.randrange(0x3000)
            else:
                c = rng.randrange(TOP)
            if c not in used:
                return c

    def questions(self, rng, points, extra=200):
        pts = list(points)
        pts += [min(TOP - 1, max(0, c + rng.choice([-1, 1]))) for c in pts]
        pts += CORNERS + [rng.randrange(TOP) for _ in range(extra)]
        rng.shuffle(pts)
        return pts


# --------------------------------------------------------------------------------------------------------------- case

LOWER, FOLD, UPPER, TITLE, DELTA, RESERVED, CLOSURE, FULL = range(8)


class C34(Generated):
    id = "C34"
    data_modules = ("CasePropsData",)
    quick, deep = 320, 6000
    needs = Generated.needs + ("exceptions", "double_slots", "full_mappings", "deltas")
    rule = ("generated case data: characters of all types, runs with small deltas, exception records with every combination of slots, "
            "of one and two units each, large deltas of both signs, full mappings of 0 to 15 units with folding and closure strings "
            "among them, conditional mappings, shared records; all six mappings at every character that has data, its "
            "neighbours, border and random code points; a state is a distinct (kind of record, mapping)")

    def string(self, rng, n):
        s = []
        while len(s) < n:
            if n - len(s) > 1 and rng.random() < .15:
                s += norm.units(chr(rng.randrange(0x10000, TOP)))
            else:
                c = rng.randrange(1, 0x10000) if rng.random() < .5 else rng.randrange(0x61, 0x600)
                if not 0xD800 <= c < 0xE000:
                    s.append(c)
        return s

    def target(self, rng, c):
        k = rng.random()
        while True:
            t = c + rng.randrange(-300, 300) if k < .4 else rng.randrange(0x20, 0x3000) if k < .8 else rng.randrange(TOP)
            if 0 <= t < TOP and not 0xD800 <= t < 0xE000:
                return t
            k = rng.random()

    def record(self, rng, chars, kind, small):
        """An exception record for characters of one type; -> (units, mapping of a character, description)"""
        lo = 0xFFFF if small else TOP - 1
        slots = {}
        many = rng.random() < .12                       # nearly all slots
        word = rng.choice([0, 0, 0x200, 0x800, 0x1000, 0x3000, 0x8000])
        delta = 0
        if many or rng.random() < .45:
            for _ in range(20):
                delta = rng.choice([rng.randrange(1, 300), rng.randrange(1, 0x10000), rng.randrange(1, TOP)]) * rng.choice([1, -1])
                if abs(delta) <= lo and all(0 <= c + delta < TOP and not 0xD800 <= c + delta < 0xE000 for c in chars):
                    slots[DELTA] = abs(delta)
                    word |= 0x400 if delta < 0 else 0
                    break
        for s in (LOWER, FOLD, UPPER, TITLE):
            if rng.random() < (.9 if many else .4):
                t = self.target(rng, chars[0])
                slots[s] = t if t <= lo else rng.randrange(0x20, 0xD800)
        if rng.random() < (.8 if many else .05):
            slots[RESERVED] = rng.randrange(0x10000)
        strings = None
        if many or rng.random() < .5:
            lens = [rng.choice([0, 0, 1, 2, 3, 15, rng.randrange(16)]) for _ in range(4)]       # lower, folding, upper, title
            strings = [self.string(rng, n) for n in lens]
            slots[FULL] = lens[0] | lens[1] << 4 | lens[2] << 8 | lens[3] << 12
        closure = []
        if rng.random() < (.9 if many else .3):
            closure = self.string(rng, rng.randrange(1, 16))
            slots[CLOSURE] = len(closure)
        conditional = rng.random() < .15
        if conditional:
            word |= 0x4000
        double = any(v > 0xFFFF for v in slots.values()) or rng.random() < .1
        if double:
            word |= 0x100
        units = [0]
        for s in sorted(slots):
            word |= 1 << s
            units += [slots[s] >> 16, slots[s] & 0xFFFF] if double else [slots[s]]
        units[0] = word
        for s in strings or []:
            units += s
        units += closure
        text = [None if not s else b"".join(u.to_bytes(2, "little") for u in s).decode("utf-16-le", "surrogatepass")
                for s in strings or [[]] * 4]

        def mapping(c):
            by_delta = c + delta if DELTA in slots else None
            lower = by_delta if by_delta is not None and kind in (2, 3) else slots.get(LOWER, c)
            upper = by_delta if by_delta is not None and kind == 1 else slots.get(UPPER, c)
            title = by_delta if by_delta is not None and kind == 1 else slots.get(TITLE, slots.get(UPPER, c))
            simple = [lower, upper, title]
            if conditional:
                full = [chr(x) for x in simple]
                if c == 0x130:
                    full[0] = "i\u0307"
                elif c == 0x587:
                    full[1:] = ["\u0535\u0552", "\u0535\u0582"]
            else:
                full = [text[i] or chr(x) for i, x in zip((0, 2, 3), simple)]
            return simple + full
        return units, mapping, (kind, tuple(sorted(slots)), double, conditional, delta < 0)

    def generated(self, rng, obs):
        data, ask = self.make(rng, obs)
        m = self.load("CaseProps", CasePropsData=data)
        obs.n("packages")
        ask(m)

    def make(self, rng, obs):
        """-> values of CasePropsData, and what asks a CaseProps with them"""
        words, want, kinds = {}, {}, {}
        # records without exceptions
        for _ in range(rng.randrange(2, 25)):
            kind = rng.randrange(4)
            n = rng.choice([1, 1, 2, 26, 40])
            start = self.place(rng, words)
            delta = 0 if kind == 0 else rng.choice([0, 1, -1, 32, -32, 80, 255, -256, rng.randrange(-256, 256)])
            step = rng.choice([1, 1, 2])
            for c in range(start, min(TOP, start + n * step), step):
                if c in words or not 0 <= c + delta < TOP or 0xD800 <= c + delta < 0xE000:
                    continue
                words[c] = kind | rng.choice([0, 4, 0x10, 0x20, 0x40, 0x60]) | (delta & 0x1FF) << 7
                m = [c + delta if kind in (2, 3) else c] + [c + delta if kind == 1 else c] * 2
                want[c] = m + [chr(x) for x in m]
                kinds[c] = ("plain", kind, delta < 0, delta == 0)
                obs.n("deltas")
        exc = [rng.randrange(0x10000) for _ in range(rng.randrange(0, 4))]
        for _ in range(rng.choice([1, 20, 60, 150])):
            kind = rng.randrange(4)
            chars = [self.place(rng, words)]
            while rng.random() < .3:
                c = chars[-1] + rng.choice([1, 1, 2, 5])
                if c < TOP and c not in words:
                    chars.append(c)
            units, mapping, what = self.record(rng, chars, kind, rng.random() < .6)
            if len(exc) > 0xFFF:
                break
            for c in chars:
                words[c] = kind | rng.choice([0, 4]) | 8 | len(exc) << 4
                want[c] = mapping(c)
                kinds[c] = what
            exc += units
            obs.n("exceptions")
            obs.n("double_slots", what[2])
            obs.n("full_mappings", FULL in what[1])
        data = self.trie("ucase_props_trie", "ucase_props_trieIndex", self.runs_of(words, 0), rng)
        return dict(data, ucase_props_exceptions=exc), lambda m: self.ask(rng, obs, m, words, want, kinds)

    def ask(self, rng, obs, m, words, want, kinds):
        fns = [m.toLower, m.toUpper, m.toTitle, m.toFullLower, m.toFullUpper, m.toFullTitle]
        names = inventory.SIMPLE_CASE + inventory.FULL_CASE
        for c in self.questions(rng, words):
            w = want.get(c) or [c] * 3 + [chr(c)] * 3
            for i in rng.sample(range(6), 6):
                g = fns[i](c)
                if g != w[i]:
                    fail(f"on generated case data {names[i]}({c:#x}) should be {w[i]!r}, is {g!r} (data word "
                         f"{words.get(c, 0):#x}; type, slots, double, conditional, negative delta: {kinds.get(c)})")
            obs.n("lookups", 6)
            if c in kinds:
                obs.state(kinds[c])
        for c in (TOP, TOP + 0x61, 1 << 32):
            for i in range(3):
                if fns[i](c) != c:
                    fail(f"on generated case data {names[i]}({c:#x}) should be {c:#x}, is {fns[i](c):#x}")


# --------------------------------------------------------------------------------------------------------------- bidi

class C35(Generated):
    id = "C35"
    data_modules = ("BidiPropsData",)
    quick, deep = 280, 8000
    needs = Generated.needs + ("table_mirrors", "delta_mirrors", "joining_groups")
    rule = ("generated bidi data: words with every class, joining type, bracket type and flag, mirror images at small distances and "
            "through tables of up to 2047 entries (pairs, cycles, several characters with one image), joining group arrays at "
            "various places; all nine lookups at every character that has data, its neighbours, border and random code "
            "points; a state is a distinct (field, value)")

    def generated(self, rng, obs):
        data, ask = self.make(rng, obs)
        m = self.load("BidiProps", BidiPropsData=data)
        obs.n("packages")
        ask(m)

    def make(self, rng, obs):
        """-> values of BidiPropsData, and what asks a BidiProps with them"""
        words, mirror = {}, {}

        def word():
            return rng.randrange(32) | rng.randrange(8) << 5 | rng.randrange(4) << 8 | rng.randrange(4) << 10
        for _ in range(rng.randrange(1, 80)):
            start, n, w = self.place(rng, words), rng.choice([1, 1, 3, 40]), word() | rng.randrange(2) << 12
            for c in range(start, min(TOP, start + n)):
                words.setdefault(c, w)
        for _ in range(rng.randrange(0, 60)):
            c = self.place(rng, words)
            d = rng.randrange(-3, 4)
            if 0 <= c + d < TOP:
                words[c] = word() | 0x1000 | (d & 7) << 13
                mirror[c] = c + d
                obs.n("delta_mirrors")
        table = []
        for _ in range(rng.choice([0, 1, 5, 40, 300] * 4 + [760])):
            ring = []
            for _ in range(rng.choice([2, 2, 2, 3])):
                c = self.place(rng, words)
                words[c] = word() | 0x1000 | 4 << 13
                ring.append(c)
            for i, c in enumerate(ring):
                mirror[c] = ring[(i + 1) % len(ring)]
            if rng.random() < .2:          # another character with the same image
                c = self.place(rng, words)
                words[c] = word() | 0x1000 | 4 << 13
                mirror[c] = ring[0]
                ring.append(c)
            table += ring
        table.sort()
        if len(table) > 0x7FF:
            raise OverflowError
        at = {c: i for i, c in enumerate(table)}
        mirrors = [c | at[mirror[c]] << 21 for c in table]
        obs.n("table_mirrors", len(table))
        indexes = [16, 0, 0, len(mirrors)] + [0] * 11 + [rng.randrange(1 << 24)]
        groups = {}
        arrays = []
        for i in range(2):
            n = rng.choice([0, 1, 2, 30, 700]) if i else rng.choice([1, 2, 30, 700])
            for _ in range(100):
                start = rng.choice([0x620, 0x10AC0, 0, 0x7FF, 0xFFF0, 0x10FFFF - n + 1, rng.randrange(TOP - n)])
                if not any(c in groups for c in (start - 1, start, start + n, start + n // 2)):
                    break
            values = [rng.randrange(1, 256) for _ in range(n)]
            if any(c in groups for c in range(start, start + n)):
                n, values = 0, []
            indexes[4 + 2 * i:6 + 2 * i] = [start, start + n]
            groups.update(zip(range(start, start + n), values))
            arrays.append(values)
        error = rng.randrange(32)
        default = rng.choice([0, 0, rng.randrange(32)])
        data = self.trie("ubidi_props_trie", "ubidi_props_trieIndex", self.runs_of(words, default), rng, error)
        data.update(ubidi_props_mirrors=mirrors, ubidi_props_indexes=indexes, ubidi_props_jgArray=arrays[0],
                    ubidi_props_jgArray2=arrays[1])
        obs.n("joining_groups", len(groups))
        return data, lambda m: self.ask(rng, obs, m, words, mirror, groups, indexes, table, default, error)

    def ask(self, rng, obs, m, words, mirror, groups, indexes, table, default, error):
        pts = list(words) + rng.sample(sorted(groups), min(len(groups), 100))
        pts += [c for i in (4, 5, 6, 7) for c in (indexes[i] - 1, indexes[i]) if 0 <= c < TOP]
        for c in self.questions(rng, pts) + [TOP, TOP + 5, 1 << 33]:
            w = words.get(c, default) if c < TOP else error
            image = mirror.get(c, c)
            for what, want in (("getCharDirection", w & 31), ("isMirrored", bool(w >> 12 & 1)), ("getMirror", image),
                               ("isBidiControl", bool(w >> 11 & 1)), ("isJoinControl", bool(w >> 10 & 1)),
                               ("getJoiningType", w >> 5 & 7), ("getJoiningGroup", groups.get(c, 0)),
                               ("getPairedBracketType", w >> 8 & 3), ("getPairedBracket", image if w >> 8 & 3 else c)):
                g = getattr(m, what)(c)
                if g != want:
                    fail(f"on generated bidi data {what}({c:#x}) should be {want!r}, is {g!r} (data word {w:#x}, "
                         f"{len(table)} mirrors in the table)")
                if what != "getMirror" and what != "getPairedBracket":
                    obs.state(what, want)
            obs.n("lookups", 9)


# ------------------------------------------------------------------------------------------------------------- general

(CN, LU, LL, LT, LM, LO, MN, ME, MC, ND, NL, NO, ZS, ZL, ZP, CC, CF, CO, CS, PD, PS, PE, PC, PO, SM, SC, SK, SO, PI, PF) = range(30)
L, Z, N = {LU, LL, LT, LM, LO}, {ZS, ZL, ZP}, {ND, NL, NO}
P = {PD, PS, PE, PC, PO, PI, PF}


def predicates(c, gc, alphabetic, white):
    """ICU's character predicates, from uchar.h's descriptions of them."""
    iso = c <= 0x1F or 0x7F <= c <= 0x9F
    ascii_space = 9 <= c <= 13 or 0x1C <= c <= 0x1F
    ignorable = iso and not ascii_space if c <= 0x9F else gc == CF
    return {
        "isLower": gc == LL, "isUpper": gc == LU, "isTitle": gc == LT, "isDigit": gc == ND,
        "isHexDigit": gc == ND or any(a <= c <= a + 5 for a in (0x41, 0x61, 0xFF21, 0xFF41)),
        "isalpha": gc in L, "isAlphabetic": alphabetic, "isalnum": gc in L or gc == ND, "isalnumPOSIX": alphabetic or gc == ND,
        "isDefined": gc != CN, "isbase": gc in L | N | {MC, ME}, "iscntrl": gc in {CC, CF, ZL, ZP}, "isISOControl": iso,
        "isspace": gc in Z or ascii_space or c == 0x85, "isJavaSpaceChar": gc in Z,
        "isWhiteSpace": gc in Z and c not in (0xA0, 0x2007, 0x202F) or ascii_space,
        "isBlank": c in (9, 0x20) if c <= 0x9F else gc == ZS, "isUWhiteSpace": white,
        "isPrint": gc not in {CN, CC, CF, CO, CS}, "isgraph": gc not in {CN, CC, CF, CS} | Z,
        "isGraphPOSIX": gc not in {CN, CC, CS} | Z, "isPrintPOSIX": gc == ZS or gc not in {CN, CC, CS} | Z,
        "ispunct": gc in P, "isIDStart": gc in L or gc == NL, "isIDIgnorable": ignorable,
        "isIDPart": gc in L | {ND, NL, PC, MC, MN} or ignorable, "isJavaIDStart": gc in L | {SC, PC},
        "isJavaIDPart": gc in L | {ND, NL, SC, PC, MC, MN} or ignorable}


class C36(Generated):
    id = "C36"
    data_modules = ("CharPropsData",)
    quick, deep = 160, 3000
    needs = Generated.needs + ("predicates", "extensions", "enumerated", "binary")
    rule = ("generated property data: words with every category and numeric value, vectors of 3 to 5 columns with random words in "
            "them, scripts given directly and through script extensions; every lookup of CharProps at border and random code "
            "points, and enumerations of both tries with the decoders; a state is a distinct (lookup, value)")

    def generated(self, rng, obs):
        data, ask = self.make(rng, obs)
        m = self.load("CharProps", CharPropsData=data)
        obs.n("packages")
        ask(m)

    def make(self, rng, obs):
        """-> values of CharPropsData, and what asks a CharProps with them"""
        props = tries.random_runs(rng, rng.choice([3, 20, 60]), 29, rng.choice(["sparse", "medium", "dense"]))
        error = rng.randrange(30) | rng.randrange(0x34C) << 6
        props = {c: v | (rng.randrange(0x34C) if rng.random() < .7 else 0) << 6 | rng.randrange(2) << 5 for c, v in props.items()}
        cols = rng.choice([3, 3, 3, 4, 5])
        nrows = rng.randint(2, 60)
        ext = [rng.randrange(0x3FF) | rng.randrange(2) << 15 for _ in range(rng.randint(4, 0x3FF))]
        scripts = [rng.choice([rng.randrange(200), rng.randrange(0x400)]) for _ in ext]
        rows = []
        for _ in range(nrows):
            row = [rng.randrange(1 << 32) for _ in range(cols)]
            code = rng.choice([rng.randrange(200), rng.randrange(200, 0x400), rng.randrange(256)])
            how = rng.randrange(4)
            if how:
                code = rng.randrange(len(ext))
                if how == 3:
                    ext[code] = scripts[code]
            row[0] = row[0] & ~0xF000FF | how << 22 | (code >> 8) << 20 | code & 0xFF
            rows.append((row, (code, 0, 1, scripts[code] if how == 3 else None)[how]))
            obs.n("extensions", how == 3)
        vecs = tries.random_runs(rng, rng.choice([3, 20, 60]), nrows - 1, rng.choice(["sparse", "medium"]))
        pm, vm = tries.Runs(props.items()), tries.Runs(vecs.items())
        erow = rng.randrange(nrows)
        data = self.trie("propsTrie", "propsTrie_index", pm.runs, rng, error)
        data.update(self.trie("propsVectorsTrie", "propsVectorsTrie_index", [(s, v * cols) for s, v in vm.runs], rng, erow * cols))
        data.update(propsVectors=[w for r, _ in rows for w in r], propsVectorsColumns=cols, scriptExtensions=ext)
        return data, lambda m: self.ask(rng, obs, m, pm, vm, rows, cols, error, erow)

    def ask(self, rng, obs, m, pm, vm, rows, cols, error, erow):
        bits1 = [(b, self.consts["uprops_h"]["UPROPS_" + b]) for b in inventory.BINARY1]
        bits2 = [(b, self.consts["uprops_h"]["UPROPS_2_" + b]) for b in inventory.BINARY2]
        emoji = {"isExtendedPictograph": "EXTENDED_PICTOGRAPHIC", "isEmojiComponent": "EMOJI_COMPONENT", "isEmoji": "EMOJI",
                 "isEmojiPresentation": "EMOJI_PRESENTATION", "isEmojiModifier": "EMOJI_MODIFIER",
                 "isEmojiModifierBase": "EMOJI_MODIFIER_BASE"}
        number = dict(bits2)
        pts = rng.sample(pm.interesting(), min(120, len(pm.interesting()))) + rng.sample(vm.interesting(), min(120, len(vm.interesting())))
        ask = self.questions(rng, pts, 100) + [0xA0, 0x85, 0x2007, 0x202F, 9, 13, 14, 0x1B, 0x1C, 0x1F, 0x20, 0x47, 0x66, 0x67, 0xFF26,
                                               0xFF27, 0xFF46, 0x9F] + [TOP, TOP + 0x41, 1 << 34]
        for c in ask:
            word = pm.get(c) if c < TOP else error
            row, script = rows[vm.get(c) if c < TOP else erow]
            gc, ntv = word & 31, word >> 6
            want = predicates(c, gc, bool(row[1] >> self.consts["uprops_h"]["UPROPS_ALPHABETIC"] & 1),
                              bool(row[1] >> self.consts["uprops_h"]["UPROPS_WHITE_SPACE"] & 1))
            obs.n("predicates", len(want))
            kind, value = numeric_of_word(ntv)
            want.update(getGeneralCategory=gc, getNumericType=kind, digitValue=value if kind == 1 else -1, getNumericTypeValue=ntv,
                        getScript=script if c < TOP else -1, getBlock=row[0] >> 8 & 0x1FF, getEastAsianWidth=row[0] >> 17 & 7,
                        getAge=[row[0] >> 28, row[0] >> 24 & 15, 0, 0], getLineBreak=row[2] >> 20 & 0x3F,
                        getSentenceBreak=row[2] >> 15 & 31, getWordBreak=row[2] >> 10 & 31,
                        getGraphemeClusterBreak=row[2] >> 5 & 31, getDecompType=row[2] & 31)
            want.update((f, bool(row[2] >> number[b] & 1)) for f, b in emoji.items())
            for f, w in want.items():
                g = getattr(m, f)(c)
                if g != w:
                    fail(f"on generated property data {f}({c:#x}) should be {w!r}, is {g!r} (word {word:#x}, vector "
                         f"{[hex(x) for x in row]})")
                if not f.startswith("is"):
                    obs.state(f, str(w))
            g = m.getNumericValue(c)
            if not same_number(g, value):
                fail(f"on generated property data getNumericValue({c:#x}) should be {value}, is {g} (word {word:#x})")
            for col in range(cols + 2):
                w = row[col] if col < cols else 0
                if m.getUnicodeProperties(c, col) != w:
                    fail(f"on generated property data getUnicodeProperties({c:#x}, {col}) should be {w:#x}, is "
                         f"{m.getUnicodeProperties(c, col):#x}")
            for col, bits in ((1, bits1), (2, bits2)):
                for b, bit in rng.sample(bits, 4):
                    g = m.getBinaryProp(c, bit, col)
                    if g != bool(row[col] >> bit & 1):
                        fail(f"on generated property data {b} of U+{c:04X} should be {not g}, is {g}")
                    obs.n("binary")
            obs.n("lookups", len(want))
        self.enumerate(rng, obs, m, pm, vm, rows, cols)

    def enumerate(self, rng, obs, m, pm, vm, rows, cols):
        for _ in range(6):
            a = rng.choice(pm.starts + vm.starts + [0])
            b = min(TOP, a + rng.choice([1, 40, 0x900, 0x20000, TOP]))
            trie, model, fn, f = rng.choice([
                (m.propsTrie, pm, m.generalCategoryFromProps, lambda w: w & 31),
                (m.propsTrie, pm, m.numericTypeFromProps, lambda w: numeric_of_word(w >> 6)[0]),
                (m.propsVectorTrie, vm, m.scriptFromVecIndex, lambda r: rows[r][1]),
                (m.propsVectorTrie, vm, m.blockFromVecIndex, lambda r: rows[r][0][0] >> 8 & 0x1FF),
                (m.propsVectorTrie, vm, m.lineBreakFromVecIndex, lambda r: rows[r][0][2] >> 20 & 0x3F),
                (m.propsVectorTrie, vm, m.wordBreakFromVecIndex, lambda r: rows[r][0][2] >> 10 & 31)])
            want = model.ranges(a, b, f)
            made = []
            for x in trie.enumerator(a, b, valueFunction=fn):
                made.append(x)
                if len(made) > len(want):
                    break
            if made != want:
                i = next((i for i, (x, y) in enumerate(zip(made, want)) if x != y), min(len(made), len(want)))
                fail(f"on generated property data enumerating {fn.__name__} over {a:X}-{b:X}: range {i} should be {want[i:i + 1]}, is "
                     f"{made[i:i + 1]}")
            obs.n("enumerated", len(want))


# ----------------------------------------------------------------------------------------------------------------- nfc

class C37(Generated):
    id = "C37"
    data_modules = ("Norm2NFCData",)
    quick, deep = 96, 3000
    needs = Generated.needs + ("mapped", "unmapped", "hangul")
    rule = ("generated normalization data in the built-in form, of fast code point tries (mappings of 0 to 31 units, raw mappings "
            "stored in full, shared or as one unit, algorithmic mappings at every distance, data for lead surrogates); full and raw "
            "mappings of all characters mentioned and their neighbours; a state is a distinct data set")

    def generated(self, rng, obs):
        f = norm.Norm(rng)
        t = f.trie
        data = {"norm2_nfc_data_" + k: v for k, v in dict(
            indexes=list(f.indexes), trieIndex=t["index"], trieData=t["data"], type=t["type"], valueWidth=t["valueWidth"],
            index3NullOffset=t["index3NullOffset"], dataNullOffset=t["dataNullOffset"], highStart=t["highStart"],
            shifted12HighStart=(t["highStart"] + 0xFFF) >> 12, nullValue=norm.INERT, indexLength=len(t["index"]),
            dataLength=len(t["data"]), extraData=list(f.extra)).items()}
        m = self.load("Normalizer2", Norm2NFCData=data)
        n = m.nfcTrie
        obs.n("packages")
        show = lambda s: None if s is None else [format(ord(x), "04X") for x in s]
        for c in self.questions(rng, f.points) + [rng.randrange(0xAC00, 0xD7A4) for _ in range(30)] + [0xAC00, 0xAC1C, 0xD7A3]:
            if 0xAC00 <= c <= 0xD7A3:
                full, raw = norm.hangul(c)
                obs.n("hangul")
            else:
                full, raw = f.full.get(c), f.raw.get(c)
                obs.n("unmapped" if full is None else "mapped")
            order = [(n.getDecomposition, "full", full), (n.getRawDecomposition, "raw", raw)]
            rng.shuffle(order)
            for fn, what, w in order:
                g = fn(c)
                if g != w and not (what == "raw" and w == "" and g is None):
                    fail(f"on generated built-in normalization data the {what} mapping of U+{c:04X} should be {show(w)}, is {show(g)}")
            obs.n("lookups", 2)
        obs.state(f.key)
