"""C18: the tables of names and aliases, and the constants."""
import json

import inventory
import repo
from vh import Check, fail


class C18(Check):
    id = "C18"
    chunk = 1
    needs = ("names", "constants", "round_trips", "named_values")
    assumptions = ["the recorded names and numbers are those of Unicode 13.0.0's PropertyValueAliases and of ICU's headers as "
                   "evaluated by a C compiler (tools/crossvalidate.py)"]
    rule = ("every dictionary of every module entry by entry in both directions, every constant of the generated and "
            "hand-written modules, the agreement of the modules with each other, and that the values the lookups give on all "
            "code points have names; repeated after lookups ran; a state is a distinct entry")

    def setup(self):
        self.dicts = json.loads(repo.read_data("dictionaries.json.xz"))
        self.consts = json.loads(repo.read_data("constants.json.xz"))
        for m in set(inventory.DICT_MODULES) | set(inventory.CONST_MODULES):
            repo.mod(m)
        self.cp = repo.mod("CharProps")
        self.bp = repo.mod("BidiProps")

    def cases(self):
        for d in sorted(self.dicts):
            yield {"mode": "dict", "name": d}
        for m in sorted(self.consts):
            yield {"mode": "const", "name": m}
        for i in range(len(self.NAMED)):
            yield {"mode": "values", "n": i}

    def run(self, case, obs):
        getattr(self, "do_" + case["mode"])(case, obs)

    def do_dict(self, case, obs):
        module, name = case["name"].split(".")
        d = getattr(repo.mod(module), name)
        want = [(tuple(k) if isinstance(k, list) else k, tuple(v) if isinstance(v, list) else v)
                for k, v in self.dicts[case["name"]]]
        for k, v in want:
            if k not in d:
                fail(f"{case['name']} has no entry for {k!r}, which should be {v!r}")
            g = d[k]
            if (tuple(g) if isinstance(g, list) else g) != v:
                fail(f"{case['name']}[{k!r}] should be {v!r}, is {g!r}")
            obs.n("names")
            obs.state(case["name"], k)
        extra = set(d) - {k for k, _ in want}
        if extra:
            fail(f"{case['name']} has entries no property value has: {sorted(map(repr, extra))[:5]}")
        # a value reached from a name leads back to that name's value
        values = [v for _, v in want]
        if all(isinstance(v, str) for v in values) and len(set(values)) == len(values):
            back = {v: k for k, v in d.items()}
            for k, v in want:
                if back[v] != k:
                    fail(f"{case['name']}: {v!r} names both {k!r} and {back[v]!r}")
                obs.n("round_trips")

    def do_const(self, case, obs):
        m = repo.mod(case["name"])
        for k, v in self.consts[case["name"]].items():
            if not hasattr(m, k):
                if k.startswith("_"):
                    continue    # a private name may go, as long as no other number takes its place
                fail(f"{case['name']} does not define {k}")
            g = getattr(m, k)
            if g != v or not isinstance(g, int):
                fail(f"{case['name']}.{k} should be {v!r}, is {g!r}")
            obs.n("constants")
            obs.state(case["name"], k)

    NAMED = [("getGeneralCategory", "CharProps", "generalCategoryNames"), ("getScript", "CharProps", "scriptNames"),
             ("getBlock", "CharProps", "blockNames"), ("getCharDirection", "BidiProps", "bidiClassNames"),
             ("getJoiningType", "BidiProps", "joiningTypeNames"), ("getJoiningGroup", "BidiProps", "joiningGroupNames"),
             ("getLineBreak", "CharProps", "lineBreakNames"), ("getWordBreak", "CharProps", "wordBreakNames"),
             ("getSentenceBreak", "CharProps", "sentenceBreakNames"), ("getNumericType", "CharProps", "numberTypeNames"),
             ("getGraphemeClusterBreak", "CharProps", "graphemeClusterBreakNames"),
             ("getEastAsianWidth", "CharProps", "eastAsianWidthNames"), ("getDecompType", "CharProps", "decompositionTypeNames")]

    def do_values(self, case, obs):
        """Every value a lookup gives, on any code point or outside the code space, has a name."""
        fn, m, dname = self.NAMED[case["n"]]
        d = getattr(repo.mod("UCDTypeDictionaries"), dname)
        f = getattr(repo.mod(m), fn)
        seen = set(map(f, range(0x110000)))
        for v in seen:
            if v not in d:
                fail(f"{fn} gives {v!r}, which {dname} does not name")
            obs.state(fn, v)
        obs.n("named_values", len(seen))
        obs.sample({fn: f"{len(seen)} values, all named"})
