"""C23, C24: decomposition mappings, on ICU's data and on synthetic data files.  (C22, layout, is in props.py; synthetic
layout files are in icupackage.py.)"""
import json
import sys
import unicodedata

import norm
import repo
from vh import Check, beyond, fail

TOP = 0x110000
SAMPLE = ("nfc", "nfkc", "nfkc_cf")


class NormCheck(Check):
    chunk = 1
    tables = ()
    needs = ("mapped", "unmapped", "mixed", "hangul", "closed")
    assumptions = ["ICU 74's nfkc.nrm and nfkc_cf.nrm as the data files; reference mappings from ICU 74 and Python's unicodedata "
                   "(tools/crossvalidate.py)", "the raw mapping of a character that maps to nothing is not specified"]
    rule = ("the full and the raw mapping of every code point, mixtures of the tables and of both mappings in random order, "
            "the raw mapping applied until nothing changes against the full mapping, and all Hangul syllables against the "
            "standard's arithmetic; a state is a distinct (table, mapping)")

    def setup(self):
        repo.install_data()
        m = repo.mod("Normalizer2")
        self.norm = {"nfc": m.nfcTrie, "nfkc": m.nfkcTrie, "nfkc_cf": m.nfkc_cfTrie}
        ref = json.loads(repo.read_data("norm.json.xz"))
        self.ref = {}
        for t, d in ref.items():
            self.ref[t] = {int(k, 16): tuple(v) for k, v in d.items()}
            for c in range(0xAC00, 0xD7A4):
                self.ref[t][c] = norm.hangul(c)

    def cases(self):
        for t in self.tables:
            for a in range(0, TOP, 0x22000):
                yield {"mode": "scan", "table": t, "start": a}
            yield {"mode": "closure", "table": t}
        for i in range(self.scale(24, 600)):
            yield {"mode": "mix", "n": i}

    def run(self, case, obs):
        getattr(self, "do_" + case["mode"])(case, obs)

    def ask(self, t, c, raw, obs, how=""):
        n = self.norm[t]
        want = self.ref[t].get(c, (None, None))[raw]
        if raw and want == "":
            want = None if n.getRawDecomposition(c) is None else ""
        g = n.getRawDecomposition(c) if raw else n.getDecomposition(c)
        if g != want:
            show = lambda s: None if s is None else [format(ord(x), "04X") for x in s]
            fail(f"the {'raw' if raw else 'full'} {t} mapping of U+{c:04X}{how} should be {show(want)}, is {show(g)}")
        return want

    def do_scan(self, case, obs):
        t = case["table"]
        for c in range(case["start"], case["start"] + 0x22000):
            w = self.ask(t, c, 0, obs)
            w2 = self.ask(t, c, 1, obs)
            if w is None:
                obs.n("unmapped")
            else:
                obs.n("mapped")
                if c < 0xAC00 or c > 0xD7A3:
                    obs.state(t, c, w, w2)
                else:
                    obs.n("hangul")

    def do_mix(self, case, obs):
        rng = self.rng(case["n"])
        keys = {t: sorted(self.ref[t]) for t in self.tables}
        c = rng.randrange(TOP)
        for _ in range(3000):
            t = rng.choice(self.tables)
            k = rng.random()
            if k < .4:
                c = rng.choice(keys[t])
            elif k < .6:
                c = (c + rng.choice([-1, 1, 28, -28, 64, 0x10000])) % TOP
            elif k < .75:
                c = rng.randrange(TOP)
            elif k < .85:
                c = rng.choice([0xAC00, 0xAC01, 0xAC1B, 0xAC1C, 0xD7A3, 0xD7A4, 0xABFF, 0xD788, rng.randrange(0xAC00, 0xD7A4),
                                rng.randrange(0xD800, 0xE000)])
            self.ask(t, c, rng.randrange(2), obs, " (in a mixture)")
            if k < .05:
                self.ask(t, beyond(rng, c), rng.randrange(2), obs, " (past the code space)")
                obs.n("outside")
        obs.n("mixed", 3000)

    def do_closure(self, case, obs):
        """Raw mappings applied until nothing changes give the full mapping, whose characters have no mapping."""
        t = case["table"]
        n = self.norm[t]
        for c in self.ref[t]:
            full = n.getDecomposition(c)
            for ch in full:
                if n.getDecomposition(ord(ch)) is not None:
                    fail(f"the full {t} mapping of U+{c:04X} contains U+{ord(ch):04X}, which has a mapping")
            if full == "":
                continue
            s = chr(c)
            for _ in range(20):
                s2 = "".join(x if n.getDecomposition(ord(x)) is None else
                             "" if n.getDecomposition(ord(x)) == "" else n.getRawDecomposition(ord(x)) for x in s)
                if s2 == s:
                    break
                s = s2
            else:
                fail(f"the raw {t} mappings of U+{c:04X} do not come to an end")
            # a folding may leave the marks in another order than the full mapping, which is ordered
            if s != full and unicodedata.normalize("NFD", s) != unicodedata.normalize("NFD", full):
                fail(f"the raw {t} mappings of U+{c:04X} lead to {s!r}, its full mapping is {full!r}")
            obs.n("closed")


class C23(NormCheck):
    id = "C23"
    tables = ("nfc",)


class C24(NormCheck):
    id = "C24"
    tables = ("nfkc", "nfkc_cf")
    needs = NormCheck.needs + ("files", "generated_mapped", "generated_unmapped", "siblings")
    rule = NormCheck.rule + ("; and generated files (mappings of 0 to 31 units, raw mappings stored in full, shared or as one unit, "
                             "algorithmic mappings at every distance, lead surrogates with data), asked about all characters they "
                             "mention and their neighbours")

    def cases(self):
        yield from super().cases()
        for i in range(self.scale(96, 4000)):
            yield {"mode": "generated", "n": i}

    def do_generated(self, case, obs):
        rng = self.rng("generated", case["n"])
        files = {n: norm.Norm(rng) for n in ("nfkc", "nfkc_cf", "custom")}
        if rng.random() < .4:
            # two of them differ in the characters of their mappings only
            a, b = rng.sample(sorted(files), 2)
            files[b] = files[a].sibling(rng.randrange(1, 64))
            obs.n("siblings")
        items = {n + ".nrm": f.item for n, f in files.items()}
        items.update({"unames.icu": b"?" * 40, "zone.res": b"x" * rng.randrange(100)})
        repo.install_data(repo.build_package(items, align=rng.choice([4, 16])))
        for m in ("UnicodeData.Normalizer2", "UnicodeData.ICUDataFile"):
            sys.modules.pop(m, None)
        m = repo.mod("Normalizer2")
        made = {"nfkc": m.nfkcTrie, "nfkc_cf": m.nfkc_cfTrie, "custom": m.Normalizer2.createFromFileData("custom")}
        questions = []
        for t, f in files.items():
            for c in f.points:
                questions.append((t, c))
                questions.append((t, min(TOP - 1, c + rng.choice([-1, 1, 1]))))
            for c in [0, 0x7F, 0xAC00, 0xAC1C, 0xD7A3, 0xD7A4, TOP - 1] + [rng.randrange(0xAC00, 0xD7A4) for _ in range(20)]:
                questions.append((t, c))
            for c in rng.sample(sorted(f.points), min(12, len(f.points))) + [rng.randrange(0xAC00, 0xD7A4)]:
                questions.append((t, beyond(rng, c)))
        rng.shuffle(questions)
        show = lambda s: None if s is None else [format(ord(x), "04X") for x in s]
        for t, c in questions:
            f = files[t]
            full, raw = norm.hangul(c) if 0xAC00 <= c <= 0xD7A3 else (f.full.get(c), f.raw.get(c))
            g = made[t].getDecomposition(c)
            if g != full:
                fail(f"a generated file maps U+{c:04X} to {show(full)}; its full mapping is {show(g)}")
            g = made[t].getRawDecomposition(c)
            if g != raw and not (raw == "" and g is None):
                fail(f"a generated file maps U+{c:04X} to {show(raw)} in one step; its raw mapping is {show(g)}")
            obs.n("generated_unmapped" if full is None else "generated_mapped")
        for t, f in files.items():
            obs.n("files")
            obs.state(t, f.key)
