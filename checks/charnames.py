"""C20, C21: character names, on ICU's own data and on synthetic data packages."""
import bisect
import collections
import itertools
import json
import sys

import names
import props
import repo
from vh import Check, beyond, fail

TOP = 0x110000
ABSENT = 0xFFFFFFFF
CATEGORIES = ("unassigned;uppercase letter;lowercase letter;titlecase letter;modifier letter;other letter;non spacing mark;"
              "enclosing mark;combining spacing mark;decimal digit number;letter number;other number;space separator;"
              "line separator;paragraph separator;control;format;private use area;surrogate;dash punctuation;"
              "start punctuation;end punctuation;connector punctuation;other punctuation;math symbol;currency symbol;"
              "modifier symbol;other symbol;initial punctuation;final punctuation").split(";")


def category_name(c):
    if 0xFDD0 <= c <= 0xFDEF or c & 0xFFFE == 0xFFFE:
        return "noncharacter"
    if 0xD800 <= c <= 0xDBFF:
        return "lead surrogate"
    if 0xDC00 <= c <= 0xDFFF:
        return "trail surrogate"
    return CATEGORIES[props.tables()["getGeneralCategory"].get(c)]


def fresh(package=None):
    """CharNames, loaded anew on the given data package."""
    repo.install_data(package)
    for m in ("UnicodeData.CharNames", "UnicodeData.ICUDataFile"):
        sys.modules.pop(m, None)
    return repo.mod("CharNames").CharNames


class NamesCheck(Check):
    assumptions = ["ICU 74's unames.icu (names of Unicode 15.1) as the data file, and files laid out as ICU's gennames does; "
                   "reference names from Python's unicodedata and ICU (tools/crossvalidate.py)"]
    chunk = 4

    def setup(self):
        props.tables()
        self.real = fresh()
        self.names = {0: {}, 3: {}}
        for line in repo.read_data("names.txt.xz").decode().splitlines():
            h, n, a = line.split(";")
            c = int(h, 16)
            if n:
                self.names[0][c] = n
            if a:
                self.names[3][c] = a
        self.order = {k: sorted(v.items()) for k, v in self.names.items()}
        self.unnamed_alias = sorted(self.names[3])
        self.by_name = {}
        for c, n in self.order[0]:
            self.by_name.setdefault(n, c)

    def synthetic(self, case, obs):
        rng = self.rng(case["n"])
        while True:
            spec = names.random_spec(rng)
            try:
                it = names.encode(spec, rng, tokens=rng.random() < .8, doubles=rng.random() < .7,
                                  extra_groups=[rng.randrange(0x8800) for _ in range(rng.choice([0, 0, 3]))])
                break
            except OverflowError:
                continue
        others = {"aaa.bin": b"xyz", "zone/x.res": bytes(range(40))}
        package = repo.build_package({"unames.icu": it, **others}, align=rng.choice([1, 4, 16]))
        obs.n("synthetic_files")
        obs.state(sorted(spec.fields.items()), spec.algs)
        obs.sample({"names": len(spec.fields), "algorithmic": [(hex(a[0]), hex(a[1]), a[2], a[5]) for a in spec.algs]})
        return rng, spec, fresh(package)


class C20(NamesCheck):
    id = "C20"
    needs = ("names", "algorithmic", "extended", "synthetic_files", "mixed")
    rule = ("the name and alias of every code point of the real data file; the extended name of every code point that has no "
            "name; mixtures of all choices in random order; and random synthetic files (one- and two-byte tokens, literals, "
            "long and empty names, extra fields, algorithmic ranges of both kinds anywhere) queried in and around every named "
            "code point and range; a state is a distinct synthetic file or name")

    def cases(self):
        for i in range(self.scale(160, 6000)):
            yield {"mode": "synthetic", "n": i}
        for a in range(0, TOP, 0x11000):
            yield {"mode": "real", "start": a}
        for i in range(self.scale(16, 200)):
            yield {"mode": "mix", "n": i}

    def run(self, case, obs):
        getattr(self, "do_" + case["mode"])(case, obs)

    def check_extended(self, g, c, name, algorithmic, obs):
        synth = f"<{category_name(c)}-{c:04X}>"
        ok = g == name if algorithmic else g in ((synth, name) if name else (synth,))
        if not ok:
            fail(f"the extended name of U+{c:04X} should be {name if algorithmic else synth!r}, is {g!r}")
        obs.n("extended")

    def do_real(self, case, obs):
        f = self.real.getCharName
        for c in range(case["start"], case["start"] + 0x11000):
            w = self.names[0].get(c, "")
            if f(c) != w:
                fail(f"the name of U+{c:04X} should be {w!r}, is {f(c)!r}")
            w3 = self.names[3].get(c, "")
            if f(c, 3) != w3:
                fail(f"the name alias of U+{c:04X} should be {w3!r}, is {f(c, 3)!r}")
            if w:
                obs.n("names")
            if c % 5 == 0 or not w and category_name(c) not in ("unassigned", "private use area"):
                self.check_extended(f(c, 2), c, w, 0x4E00 <= c <= 0x9FFC or 0xAC00 <= c <= 0xD7A3, obs)
        obs.state("real", case["start"])

    def do_mix(self, case, obs):
        rng = self.rng(case["n"])
        f = self.real.getCharName
        named = self.order[0]
        c = 0
        for _ in range(3000):
            k = rng.random()
            if k < .4:
                c = rng.choice(named)[0]
            elif k < .6:
                c = max(0, min(TOP - 1, c + rng.choice([-1, 1, 32, -32])))
            elif k < .7:
                c = rng.randrange(TOP)
            elif k < .8:
                c = rng.choice(self.unnamed_alias)
            if k < .06:
                choice = rng.choice([0, 0, 3])
                g = f(beyond(rng, c), choice)
                if g != "":
                    fail(f"the name (choice {choice}) of {c:#x} plus a large power of two, past the code space, is {g!r}")
                obs.n("outside")
            choice = rng.choice([0, 0, 3, 2, 1])
            g = f(c, choice) if rng.random() < .5 else f(c, nameChoice=choice)
            if choice == 2:
                w = self.names[0].get(c, "")
                self.check_extended(g, c, w, 0x4E00 <= c <= 0x9FFC or 0xAC00 <= c <= 0xD7A3, obs)
            elif g != self.names.get(choice, {}).get(c, ""):
                fail(f"name choice {choice} of U+{c:04X} should be {self.names.get(choice, {}).get(c, '')!r}, is {g!r}")
        obs.n("mixed", 3000)

    def do_synthetic(self, case, obs):
        rng, spec, cn = self.synthetic(case, obs)
        pts = set(spec.fields)
        for c in list(pts):
            pts |= {c - 1, c + 1, c ^ 32, c + 0x10000, c | 31, c & ~31}
        for a in spec.algs:
            pts |= {a[0] - 1, a[0], a[1], a[1] + 1} | {rng.randint(a[0], a[1]) for _ in range(20)}
            if a[1] - a[0] < 800:
                pts |= set(range(a[0], a[1] + 1))
        pts = [c for c in pts if 0 <= c < TOP]
        for c in rng.sample(pts, min(12, len(pts))):
            for choice in (0, 3):
                g = cn.getCharName(beyond(rng, c), choice)
                if g != "":
                    fail(f"the name (choice {choice}) of {c:#x} plus a large power of two, past the code space, is {g!r}")
            obs.n("outside")
        rng.shuffle(pts)
        for c in pts:
            alg = any(a[0] <= c <= a[1] for a in spec.algs)
            for choice in rng.sample([0, 1, 2, 3], 4):
                g = cn.getCharName(c, choice)
                if choice == 2:
                    self.check_extended(g, c, spec.name(c), alg, obs)
                    continue
                w = spec.name(c, choice)
                if g != w:
                    fail(f"name choice {choice} of U+{c:04X} should be {w!r}, is {g!r}")
                obs.n("algorithmic" if alg else "names")
            if cn.getCharName(c) != spec.name(c):
                fail(f"the name of U+{c:04X} should be {spec.name(c)!r}, is {cn.getCharName(c)!r}")


def distorted(rng, name, code):
    """Something like the name of a character, which most often is none."""
    digits = len(name) - len(name.rstrip("0123456789ABCDEF"))
    stem = name[:len(name) - digits] if "-" in name and digits > 3 else name
    tail = name[len(stem):]
    i = rng.randrange(len(name) + 1)
    return rng.choice([name.lower(), name.lower(), name.title(), name.swapcase(), name.upper(), " " + name, name + " ", name + "X", name + "\0",
                       name[:-1], name[1:], name[:-1] + "\0", name[:i] + " " + name[i:], name[:i] + "-" + name[i:], name.replace(" ", "  "),
                       name.replace(" ", "_"), name.replace(" ", ""), name.replace("-", " "), name.replace(" ", "-"), name.replace("-", ""),
                       stem + tail.lower(), stem + "0" + tail, stem + "+" + tail, stem + "0X" + tail, stem + " " + tail, stem + tail[:-1],
                       f"{code:04X}", f"U+{code:04X}", f"<{name}>", f"<control-{code:04X}>", f"<{code:04X}>", chr(code), name.encode().hex(),
                       "NO SUCH CHARACTER", name + ";" + name, f"{name}-{code:04X}", name[::-1], ""])


class C21(NamesCheck):
    id = "C21"
    needs = ("iterated", "found", "shared_names", "absent", "synthetic_files", "interleaved")
    rule = ("full iterations over the real data file for names and for aliases, several iterators advanced in turn with lookups "
            "between; characters found from names (real ones sampled, with near misses); random synthetic files iterated "
            "completely and searched for every name; a state is a distinct synthetic file or searched name")

    def cases(self):
        for i in range(self.scale(8, 16)):
            yield {"mode": "real", "choice": (0, 3)[i % 2], "n": i}
        for i in range(self.scale(16, 300)):
            yield {"mode": "find", "n": i}
        for i in range(self.scale(120, 5000)):
            yield {"mode": "synthetic", "n": i}

    def run(self, case, obs):
        getattr(self, "do_" + case["mode"])(case, obs)

    def compare(self, made, want, what, obs):
        for g, w in itertools.zip_longest(made, want):
            if g is None or w is None or tuple(g) != tuple(w):
                fail(f"{what}: {w!r} expected, {g!r} found")
        obs.n("iterated", len(want))

    def do_real(self, case, obs):
        rng = self.rng(case["n"])
        choice, want = case["choice"], self.order[case["choice"]]
        cn = self.real
        if case["n"] < 2:
            it = cn.nameIterator() if choice == 0 else cn.nameIterator(choice)
            self.compare(it, want, f"iteration over names, choice {choice}", obs)
            return
        its = [[cn.nameIterator(k), 0, k] for k in (0, 3, 0)]
        n = 0
        while n < 60000:
            it = rng.choice(its)
            k = rng.choice([1, 5, 100, 2000])
            got = list(itertools.islice(it[0], k))
            w = self.order[it[2]][it[1]:it[1] + k]
            if [tuple(g) for g in got] != w:
                d = next((a, b) for a, b in itertools.zip_longest(got, w) if a is None or tuple(a) != b)
                fail(f"interleaved iterations over names: {d[1]!r} expected, {d[0]!r} found")
            it[1] += k
            n += k
            c = rng.choice(self.order[0])[0]
            if cn.getCharName(c) != self.names[0][c]:
                fail(f"name of U+{c:04X} while iterating: {cn.getCharName(c)!r}")
        obs.n("interleaved", n)
        obs.n("iterated", n)
        obs.state("interleaved", case["n"])

    def do_find(self, case, obs):
        rng = self.rng(case["n"])
        cn = self.real
        for _ in range(4):
            c, n = rng.choice(self.order[0])
            w = self.by_name[n]
            g = cn.charFromName(n)
            if g != w:
                fail(f"charFromName({n!r}) should be {w:X}, is {g:X}")
            obs.n("found")
            obs.state(n)
        c, n = rng.choice(self.order[3])
        if cn.charFromName(n, 3) != next(k for k, v in self.order[3] if v == n):
            fail(f"charFromName({n!r}, 3) is {cn.charFromName(n, 3):X}, should be {c:X}")
        for bad in (distorted(rng, n, c), distorted(rng, *rng.choice(self.order[0])[::-1])):
            if bad in self.by_name:
                continue
            if cn.charFromName(bad) != ABSENT:
                fail(f"charFromName({bad!r}) should be {ABSENT:X}, is {cn.charFromName(bad):X}")
            obs.n("absent")

    def do_synthetic(self, case, obs):
        rng, spec, cn = self.synthetic(case, obs)
        for choice in (0, 3, 1):
            want = spec.iterate(choice)
            it = cn.nameIterator(choice) if choice or rng.random() < .5 else cn.nameIterator()
            self.compare(it, want, f"iteration over names, choice {choice}", obs)
            first = {}
            for c, n in want:
                first.setdefault(n, c)
            shared = {n for n, k in collections.Counter(n for _, n in want).items() if k > 1}
            for n, c in rng.sample(sorted(first.items()), min(len(first), 25)) + [(n, first[n]) for n in sorted(shared)[:20]]:
                g = cn.charFromName(n, choice)
                if g != c:
                    fail(f"charFromName({n!r}, {choice}) should be {c:X}, is {g:X}")
                obs.n("found")
                obs.n("shared_names", n in shared)
            some = sorted(first.items())
            for n in ["NO SUCH", "", "Q"] + [distorted(rng, *rng.choice(some)) for _ in range(12) if some]:
                if n not in first:
                    if cn.charFromName(n, choice) != ABSENT:
                        fail(f"charFromName({n!r}, {choice}) should be {ABSENT:X}, is {cn.charFromName(n, choice):X}")
                    obs.n("absent")
        a, b = cn.nameIterator(), cn.nameIterator()
        w = spec.iterate()
        ga, gb = [], []
        for _ in range(len(w) + 5):
            ga += itertools.islice(a, 1)
            if rng.random() < .5:
                gb += itertools.islice(b, 2)
        gb += b
        if [tuple(x) for x in ga] != w or [tuple(x) for x in gb] != w:
            fail("two iterations advanced in turn disturb each other")
        obs.n("interleaved")
