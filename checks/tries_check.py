"""C06-C09 and C32: the two trie formats, on tries laid out by lib/tries.py from random code point maps, and on the tries
the package ships."""
import itertools
import random

import repo
import tries
import vh
from vh import Check, fail

TOP = 0x110000
OUTSIDE = [0x110000, 0x110001, 0x11FFFF, 0x10000000, 0x7FFFFFFF, 0xFFFFFFFF]


def show(runs, n=12):
    return "{" + ", ".join(f"{s:X}:{v:X}" for s, v in runs[:n]) + ("..." if len(runs) > n else "") + "}"


def probe_points(model, rng, n):
    pts = set(model.interesting())
    if len(pts) > 3000:
        pts = set(rng.sample(sorted(pts), 3000))
    for e in (0x7F, 0x80, 0x7FF, 0x800, 0xFFF, 0x1000, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFF, 0x10000, 0x107FF,
              0x10800, 0x10FFFE, 0x10FFFF):
        pts.add(e)
    for _ in range(n):
        pts.add(rng.randrange(TOP))
        c = rng.choice(model.starts)
        pts.add(min(TOP - 1, c | rng.choice([0xF, 0x1F, 0x3F, 0x1FF, 0x7FF, 0x3FFF])))
        pts.add(min(TOP - 1, (c | rng.choice([0xF, 0x1F, 0x3F, 0x1FF, 0x7FF, 0x3FFF])) + 1))
    pts = list(pts)
    rng.shuffle(pts)
    return pts


def spans(model, rng, n):
    """start/limit pairs to enumerate: the whole space, starts and limits inside blocks and beside value changes."""
    out = [(0, TOP), (TOP - rng.choice([1, 1, 2, 3, 33]), TOP - rng.choice([0, 0, 0, 1])), (0, rng.choice([1, 1, 2, 33]))]
    pts = model.interesting()
    for _ in range(n):
        k = rng.random()
        if k < .35:
            a, b = rng.choice(pts), rng.choice(pts)
        elif k < .6:
            a = rng.choice(pts)
            b = a + rng.choice([0, 1, 2, 15, 16, 17, 31, 32, 33, 64, 511, 512, 513, 2047, 2048, 2049, 5000])
        elif k < .75:
            a = rng.choice([0xD7F0, 0xD800, 0xD805, 0xDBE0, 0xDBFF, 0xDC00, 0xDC07, 0xDFFF, 0xE000, 0xFFC0, 0xFFF0, 0xFFFF,
                            0xFC0, 0xFFF, 0x1000])
            b = rng.choice([0xD801, 0xD820, 0xDBFF, 0xDC00, 0xDC01, 0xDFFF, 0xE000, 0xE001, 0x10000, 0x10001, 0x10010, 0x1001])
        else:
            a, b = rng.randrange(TOP), rng.randrange(TOP + 1)
        a, b = min(a, b), min(max(a, b), TOP)
        if rng.random() < .1:
            b = TOP
        out.append((a, b))
    return out


def check_enumeration(made, model, start, limit, f, what, obs):
    """`made` is an iterator of (range, value): an exact partition of [start, limit) into maximal ranges."""
    want = model.ranges(start, limit, f)
    c = start
    got = []
    for item in made:
        r, v = item
        got.append((r, v))
        if r.start != c or r.stop <= r.start or r.stop > limit:
            fail(f"{what}: range {r.start:X}-{r.stop:X} follows {c:X} (limit {limit:X})")
        c = r.stop
        if len(got) > len(want) + 50:
            break
    if got != want:
        i = next((i for i, (a, b) in enumerate(itertools.zip_longest(got, want)) if a != b), 0)
        fail(f"{what}: range {i} should be {want[i:i + 2]}, is {got[i:i + 2]}")
    obs.n("enumerations")
    obs.n("ranges_observed", len(got))


class TrieCheck(Check):
    chunk = 8
    bits = 16
    assumptions = ["tries are well formed, laid out as ICU's builders lay them out (checked against libicuuc's readers by "
                   "tools/crossvalidate.py)", "code points are not negative"]

    def cases(self):
        for i in range(self.scale(self.quick_cases, self.thorough_cases)):
            yield {"n": i}

    def model(self, rng, vmax):
        style = rng.choice(["sparse", "sparse", "medium", "dense"])
        return tries.Runs(tries.random_runs(rng, rng.choice([1, 2, 5, 30]), vmax, style))


def check_siblings(self, siblings, rng, what, obs):
    """Tries of the same layout with other values, made before and after: none may be seen through another."""
    for t, m, error in siblings:
        pts = [rng.choice(m.interesting()) for _ in range(60)] + [rng.randrange(TOP) for _ in range(20)]
        for c in pts:
            if c < TOP and t.get(c) != m.get(c):
                fail(f"U+{c:04X} maps to {m.get(c)} and get() gives {t.get(c)}, in a trie like another, with other values: {what}")
        for c in OUTSIDE[:2]:
            if t.get(c) != error:
                fail(f"get({c:X}) should be the error value {error}, is {t.get(c)}, in a trie like another, with other values: {what}")
        obs.n("siblings")


TrieCheck.check_siblings = check_siblings


def make_utrie2(rng, model):
    """-> (kwargs, error value)"""
    for share in (rng.choice(["same", "same", "overlap", "none"]), "same"):
        error = rng.randrange(0x10000)
        units = None
        if rng.random() < .5:
            units = tries.Runs({0: 0, 0xD800: rng.randrange(0x10000), 0xD900: rng.randrange(0x10000), 0xDBE3: rng.randrange(0x10000)})
        elif rng.random() < .5:
            # the code units differ from the code points in one place only
            a = rng.randrange(0xD800, 0xDC00)
            b = min(0xDC00, rng.choice([a + 1, (a | 31) + 1, a + rng.randrange(1, 200)]))
            runs = {s: v for s, v in model.runs if not a <= s <= b}
            runs.update({a: rng.randrange(0x10000), b: model.get(b)})
            units = tries.Runs(runs)
        initial = rng.choice([0, 0, model.get(rng.randrange(TOP)), model.get(TOP - 1), rng.randrange(0x10000)])
        try:
            return tries.encode_utrie2(model, rng, initial=initial, error=error, units=units, share=share,
                                       use_null=rng.random() < .8, late_high=rng.random() < .3), error
        except OverflowError:
            continue
    raise vh.Inconclusive("map too large for a trie")


class UTrie2Check(TrieCheck):
    def setup(self):
        self.UTrie2 = repo.mod("Utrie2").UTrie2

    def sibling(self, rng, model, kw, error):
        """A trie of the same layout with other values -> (trie, its map, its error value)."""
        k = rng.randrange(1, 0x10000)
        n = kw["indexLength"]
        other = dict(kw, index=kw["index"][:n] + [v ^ k for v in kw["index"][n:]], initialValue=kw["initialValue"] ^ k)
        return self.UTrie2(**other), tries.Runs({s: v ^ k for s, v in model.runs}), error ^ k

    def build(self, case, obs):
        for attempt in range(20):
            rng = self.rng(case["n"], attempt)
            model = self.model(rng, 0xFFFF)
            try:
                kw, error = make_utrie2(rng, model)
                break
            except vh.Inconclusive:
                continue
        obs.state(model.runs, kw["index2NullOffset"], kw["dataNullOffset"], kw["highStart"], len(kw["index"]))
        obs.n("tries")
        obs.sample({"runs": show(model.runs), "highStart": hex(kw["highStart"]), "length": len(kw["index"])})
        return rng, model, kw, error


class C06(UTrie2Check):
    id = "C06"
    quick_cases, thorough_cases = 640, 8000
    rule = ("random code point maps (long runs, block-periodic patterns, noise, changes at block, surrogate, plane and highStart "
            "boundaries) laid out as frozen tries (null blocks or not, shared, overlapping or separate blocks, early or late "
            "highStart, lead surrogate code units with other values); lookups in random order, some maps over all code points; "
            "a state is a distinct map and layout")
    needs = ("lookups", "outside_lookups", "tries", "siblings")

    def run(self, case, obs):
        rng, model, kw, error = self.build(case, obs)
        snapshot = list(kw["index"])
        before = [self.sibling(rng, model, kw, error)] if rng.random() < .5 else []
        t = self.UTrie2(**kw)
        if case["n"] % 40 == 0:
            pts = range(TOP)
        else:
            pts = probe_points(model, rng, 150)
        if isinstance(pts, range):
            for (r, v) in model.ranges():
                for c in r:
                    if t.get(c) != v:
                        fail(f"U+{c:04X} maps to {v} and get() gives {t.get(c)}; map {show(model.runs)}")
            obs.n("lookups", TOP)
        else:
            for c in pts:
                w = model.get(c)
                g = t.get(c)
                if g != w:
                    fail(f"U+{c:04X} maps to {w} and get() gives {g}; map {show(model.runs)}, highStart {kw['highStart']:X}")
            obs.n("lookups", len(pts))
        # the code units of the lead surrogates have values of their own
        for c in rng.sample(range(0xD800, 0xDC00), 1024) if rng.random() < .5 else ():
            if t.get(c) != model.get(c):
                fail(f"U+{c:04X} maps to {model.get(c)} and get() gives {t.get(c)}; map {show(model.runs)}")
            obs.n("lookups")
        for c in OUTSIDE + [vh.beyond(rng, rng.choice(model.interesting())) for _ in range(12)]:
            if t.get(c) != error:
                fail(f"get({c:X}) should be the error value {error}, is {t.get(c)}")
            obs.n("outside_lookups")
        self.check_siblings(before, rng, f"map {show(model.runs)}", obs)
        if list(kw["index"]) != snapshot:
            fail("lookups changed the trie's data")


FUNCS = [None, ("low", 0x1F), ("low", 1), ("shift", 3), ("const", 0), ("list", 7), ("bool", 1)]


def value_function(kind):
    """-> (function, keyword arguments, the same as a one-argument function)"""
    if kind is None:
        return None, {}, None
    name, arg = kind
    if name == "low":
        return (lambda v, mask: v & mask), {"mask": arg}, (lambda v: v & arg)
    if name == "shift":
        return (lambda v: v >> arg), {}, (lambda v: v >> arg)
    if name == "const":
        return (lambda v: arg), {}, (lambda v: arg)
    if name == "list":
        return (lambda v, a, b: [v & a, b]), {"a": arg, "b": 2}, (lambda v: [v & arg, 2])
    return (lambda v: (v & arg) != 0), {}, (lambda v: (v & arg) != 0)


class C07(UTrie2Check):
    id = "C07"
    quick_cases, thorough_cases = 480, 8000
    rule = ("tries as for C06; each enumerated over the whole code space and over spans that start and end inside blocks, in "
            "the surrogates and beside value changes, with and without a value function, several enumerators interleaved; "
            "the ranges must be the maximal ranges of equal value that partition the span; a state is a distinct map and layout")
    needs = ("enumerations", "ranges_observed", "interleaved", "siblings")

    def run(self, case, obs):
        rng, model, kw, error = self.build(case, obs)
        before = [self.sibling(rng, model, kw, error)] if rng.random() < .5 else []
        t = self.UTrie2(**kw)
        base = f"map {show(model.runs)}, initial {kw['initialValue']}, highStart {kw['highStart']:X}"
        for a, b in spans(model, rng, 12):
            fn, kwargs, one = value_function(rng.choice(FUNCS) if rng.random() < .5 else None)
            if (a, b) == (0, TOP) and rng.random() < .5:
                made = t.enumerator(valueFunction=fn, **kwargs) if fn else t.enumerator()
            elif rng.random() < .5:
                made = t.enumerator(a, b, fn, **kwargs)
            else:
                made = t.enumerator(start=a, limit=b, valueFunction=fn, **kwargs)
            check_enumeration(made, model, a, b, one, f"enumerator({a:X}, {b:X}, {'f' if fn else None}) of {base}", obs)
        # interleaved enumerators and lookups
        one, two = t.enumerator(), t.enumerator(0x20, TOP)
        w1, w2 = model.ranges(), model.ranges(0x20, TOP)
        g1, g2 = [], []
        for _ in range(len(w1) + len(w2) + 4):
            if rng.random() < .5:
                g1 += list(itertools.islice(one, 1))
            else:
                g2 += list(itertools.islice(two, 1))
            c = rng.randrange(TOP)
            if t.get(c) != model.get(c):
                fail(f"get({c:X}) while enumerating: {base}")
        g1 += list(one)
        g2 += list(two)
        if g1 != w1 or g2 != w2:
            fail(f"interleaved enumerators disturb each other: {base}")
        obs.n("interleaved")
        for other, m, _ in before:
            check_enumeration(other.enumerator(), m, 0, TOP, None, f"enumerator() of a trie like another, with other values: {base}", obs)
            obs.n("siblings")


def make_cptrie(rng, model, width):
    for share in (rng.choice(["same", "same", "overlap"]), "same"):
        nv = rng.choice([None, 0, model.get(rng.randrange(TOP)), model.get(TOP - 1)])
        fast = rng.random() < .5
        pad = rng.choice([0] * 6 + [66000, 140000])
        wide = rng.random() < .2
        total = rng.choice([0] * 25 + [0x3FFFF, 0x40000, 0x40001, 0x40002, 0x40010])
        error = rng.randrange(1 << width)
        try:
            return tries.encode_cptrie(model, rng, fast=fast, width=width, null_value=nv, error=error, share=share, wide=wide,
                                       late_high=rng.random() < .3, pad=pad, total=total), error
        except OverflowError:
            continue
    raise vh.Inconclusive("map too large for a trie")


class CPTrieCheck(TrieCheck):
    def setup(self):
        self.CPTrie = repo.mod("CPTrie").CPTrie

    def sibling(self, rng, model, t, error):
        """A trie of the same layout with other values -> (trie, its map, its error value)."""
        k = rng.randrange(1, 1 << {0: 16, 1: 32, 2: 8}[t["valueWidth"]])
        other = dict(t, data=[v ^ k for v in t["data"]])
        trie = self.CPTrie.createFromData(tries.serialize_cptrie(other) + self.extra)
        return trie, tries.Runs({s: v ^ k for s, v in model.runs}), error ^ k

    def build(self, case, obs):
        for attempt in range(20):
            rng = self.rng(case["n"], attempt)
            width = rng.choice([8, 16, 16, 32])
            model = self.model(rng, (1 << width) - 1)
            try:
                t, error = make_cptrie(rng, model, width)
                break
            except vh.Inconclusive:
                continue
        binary = tries.serialize_cptrie(t)
        self.siblings = []
        if rng.random() < .3:
            trie = self.CPTrie(t["index"], t["data"], t["type"], t["valueWidth"], t["index3NullOffset"], t["dataNullOffset"],
                               t["highStart"], (t["highStart"] + 0xFFF) >> 12)
            how = "from arrays"
        else:
            # the trie is followed by whatever comes next in its file
            self.extra = extra = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 16, 100])))
            before = [self.sibling(rng, model, t, error)] if rng.random() < .5 else []
            trie = self.CPTrie.createFromData(binary + extra)
            if rng.random() < .3:
                before.append(self.sibling(rng, model, t, error))
            self.siblings = before
            how = "from binary"
        obs.state(model.runs, t["type"], width, t["index3NullOffset"], t["dataNullOffset"], t["highStart"], len(t["data"]))
        obs.n("tries")
        obs.n(("small", "fast")[t["type"] == 0] + "_" + str(width) + "_bit")
        if len(t["data"]) > 0x10000:
            obs.n("tries_with_18_bit_offsets")
        what = (f"{'fast' if t['type'] == 0 else 'small'} {width}-bit trie {how}, map {show(model.runs)}, highStart "
                f"{t['highStart']:X}, null {t['dataNullOffset']:X}")
        obs.sample(what)
        return rng, model, trie, error, what


class C08(CPTrieCheck):
    id = "C08"
    quick_cases, thorough_cases = 480, 8000
    rule = ("random code point maps laid out as fast and small tries of 8, 16 and 32 bits (with and without null blocks, "
            "overlapping data, 18-bit index entries, data beyond 64K, late highStart), read from their binary form or "
            "constructed; lookups in random order, some over all code points; a state is a distinct map and layout")
    needs = ("lookups", "outside_lookups", "fast_8_bit", "fast_16_bit", "fast_32_bit", "small_8_bit", "small_16_bit",
             "small_32_bit", "tries_with_18_bit_offsets", "siblings")

    def run(self, case, obs):
        rng, model, t, error, what = self.build(case, obs)
        if case["n"] % 40 == 0:
            for (r, v) in model.ranges():
                for c in r:
                    if t.get(c) != v:
                        fail(f"U+{c:04X} maps to {v} and get() gives {t.get(c)}; {what}")
            obs.n("lookups", TOP)
        else:
            for c in probe_points(model, rng, 150):
                g = t.get(c)
                if g != model.get(c):
                    fail(f"U+{c:04X} maps to {model.get(c)} and get() gives {g}; {what}")
                obs.n("lookups")
        for c in OUTSIDE + [vh.beyond(rng, rng.choice(model.interesting())) for _ in range(12)]:
            if t.get(c) != error:
                fail(f"get({c:X}) should be the error value {error}, is {t.get(c)}; {what}")
            obs.n("outside_lookups")
        self.check_siblings(self.siblings, rng, what, obs)


class C09(CPTrieCheck):
    id = "C09"
    quick_cases, thorough_cases = 480, 8000
    rule = ("tries as for C08; each enumerated over the whole code space and over spans that start and end inside blocks, at "
            "the boundary between block lengths and beside value changes, enumerators interleaved with each other and with "
            "lookups; the ranges must be the maximal ranges of equal value that partition the span")
    needs = ("enumerations", "ranges_observed", "interleaved", "siblings")

    def run(self, case, obs):
        rng, model, t, error, what = self.build(case, obs)
        for a, b in spans(model, rng, 12):
            made = t.enumerator() if (a, b) == (0, TOP) else rng.choice(
                [lambda: t.enumerator(a, b), lambda: t.enumerator(start=a, limit=b)])()
            check_enumeration(made, model, a, b, None, f"enumerator({a:X}, {b:X}) of {what}", obs)
        one, two = t.enumerator(), t.enumerator(0x20, TOP)
        w1, w2 = model.ranges(), model.ranges(0x20, TOP)
        g1, g2 = [], []
        for _ in range(len(w1) + len(w2) + 4):
            if rng.random() < .5:
                g1 += list(itertools.islice(one, 1))
            else:
                g2 += list(itertools.islice(two, 1))
            c = rng.randrange(TOP)
            if t.get(c) != model.get(c):
                fail(f"get({c:X}) while enumerating: {what}")
        g1 += list(one)
        g2 += list(two)
        if g1 != w1 or g2 != w2:
            fail(f"interleaved enumerators disturb each other: {what}")
        obs.n("interleaved")
        for other, m, _ in self.siblings:
            check_enumeration(other.enumerator(), m, 0, TOP, None, f"enumerator() of a trie like another, with other values: {what}", obs)
            obs.n("siblings")
