"""C01-C05: UnicodeSet under long random histories, against a model that is a Python integer used as a bit set.

The model works on the atoms between the cut points of a case, so every answer is exact.  It shares nothing with the
code under test, and only the public interface of UnicodeSet is used."""
import bisect
import io
import itertools
import re
import contextlib

import repo
from vh import Check, fail

TOP = 0x110000
EDGES = [0, 1, 2, 0x41, 0x5B, 0x7F, 0x80, 0xFF, 0x100, 0x7FF, 0x800, 0xFFF, 0x1000, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF,
         0xE000, 0xFDD0, 0xFFFE, 0xFFFF, 0x10000, 0x1FFFF, 0x20000, 0xFFFFF, 0x100000, 0x10FFFD, 0x10FFFE, 0x10FFFF]
FAR = [-1, -2, -0x110000, -(1 << 40), 0x110000, 0x110001, 0x7FFFFFFF, 0xFFFFFFFF, 1 << 40]


def make_cuts(rng, style):
    pts = {0, 1, 0x10FFFF, TOP}
    if style == "tiny":
        b = rng.choice([0, 0x40, 0xD7FA, 0xFFFA, 0x10FFF0, rng.randrange(0, 0x10FF00)])
        pts.update(range(b, min(b + 14, TOP)))
    elif style == "edges":
        for e in rng.sample(EDGES, rng.randrange(5, 16)):
            pts.update((max(0, e - 1), e, e + 1))
    elif style == "wide":
        for _ in range(rng.randrange(4, 25)):
            c = rng.randrange(0, 0x10FFFE)
            pts.update((c, c + 1))
            if rng.random() < .5:
                pts.add(c + 2)
    elif style == "huge":   # thousands of ranges
        step, n = rng.choice([(2, 2000), (2, 8000), (3, 5000), (64, 4000), (100, 9000), (7, 30000)])
        b = rng.choice([0, rng.randrange(0, TOP - n * step), TOP - n * step])
        pts.update(range(b, b + n * step, step))
        pts.update(range(b + 1, b + n * step, step))
    else:   # many
        step = rng.choice([2, 3, 64, 700])
        b = rng.randrange(0, TOP - 1500 * step)
        pts.update(range(b, b + 600 * step, step))
        if step > 3:
            pts.update(range(b + 1, b + 600 * step + 1, step))
    return sorted(p for p in pts if 0 <= p <= TOP)


class Model:
    def __init__(self, cuts):
        self.cuts = cuts
        self.pos = {c: i for i, c in enumerate(cuts)}
        self.n = len(cuts) - 1
        self.all = (1 << self.n) - 1

    @staticmethod
    def pin(c):
        return 0 if c < 0 else 0x10FFFF if c > 0x10FFFF else c

    def mask(self, start, end):
        """start..end inclusive, pinned; 0 if start > end"""
        if start > end:
            return 0
        a, b = self.pos[self.pin(start)], self.pos[self.pin(end) + 1]
        return (1 << b) - (1 << a)

    def ranges(self, m):
        edges = bin(m ^ m << 1)[:1:-1]
        at = []
        i = edges.find("1")
        while i >= 0:
            at.append(self.cuts[i])
            i = edges.find("1", i + 1)
        return list(zip(at[::2], at[1::2]))

    def comb(self, first, last, stride):
        """-> (mask, [(start, limit)]): every stride-th atom from first to last"""
        atoms = range(first, last, stride)
        bits = bytearray(b"0" * self.n)
        for i in atoms:
            bits[self.n - 1 - i] = 0x31
        return int(bits, 2), [(self.cuts[i], self.cuts[i + 1]) for i in atoms]

    def has(self, m, c):
        if c < 0 or c >= TOP:
            return False
        return m >> (bisect.bisect_right(self.cuts, c) - 1) & 1 == 1

    def has_all(self, m, start, end):
        if start < 0 or end >= TOP:
            return False
        a = bisect.bisect_right(self.cuts, start) - 1
        b = bisect.bisect_right(self.cuts, end) - 1
        w = (1 << b + 1) - (1 << a)
        return m & w == w


def describe(ranges):
    s = " ".join(f"{a:X}-{b - 1:X}" for a, b in ranges[:40])
    return "{" + s + (" ..." if len(ranges) > 40 else "") + "}"


def observe(s):
    """The ranges a set reports, as (start, limit)."""
    return [(r.start, r.stop) for r in s.getRanges()]


# operation -> argument kinds: c = code point, r = start and end, s = another set
MUTATORS = {"add": "c", "addRange": "r", "addAll": "s", "remove": "c", "removeRange": "r", "removeAll": "s", "retain": "c",
            "retainRange": "r", "retainAll": "s", "complement": "", "complement1": "c", "complementR": "r",
            "complementRange": "r", "complementAll": "s", "clear": "", "|=": "s", "&=": "s", "-=": "s", "^=": "s"}
MAKERS = {"union": "s", "intersection": "s", "difference": "s", "symmetric_difference": "s", "|": "s", "&": "s", "-": "s",
          "^": "s", "copy": "", "new": "", "newc": "c", "newr": "r"}
WEIGHTS = {"clear": 0.15, "retain": 0.2, "retainRange": 0.5, "retainAll": 0.5, "&=": 0.5, "new": 0.3, "newc": 0.5, "add": 3,
           "addRange": 3, "remove": 2, "complement1": 1.5, "intersection": 0.7, "&": 0.7}
KEYS = {"|": "or", "&": "and", "-": "sub", "^": "xor"}


class Machine:
    """Applies an operation to the real pool and to the model pool."""

    def __init__(self, cls, cuts, pool=4):
        self.cls = cls
        self.model = Model(cuts)
        self.real = [cls() for _ in range(pool)]
        self.mask = [0] * pool

    def set_result(self, op, x, y):
        m = self.model
        k = op.rstrip("=")
        if k in ("addAll", "union", "|"):
            return x | y
        if k in ("removeAll", "difference", "-"):
            return x & ~y & m.all
        if k in ("retainAll", "intersection", "&"):
            return x & y
        return x ^ y

    def expected(self, op, x, args):
        m = self.model
        if op == "complement":
            return m.all ^ x
        if op in ("clear", "new"):
            return 0
        if op == "copy":
            return x
        a = args[0]
        b = args[1] if len(args) > 1 else a
        r = m.mask(a, b)
        if op in ("add", "addRange"):
            return x | r
        if op in ("remove", "removeRange"):
            return x & ~r
        if op in ("retain", "retainRange"):
            return x & r
        if op in ("newc", "newr"):
            return r
        return x ^ r   # complement1, complementR, complementRange

    def call(self, op, s, args):
        """-> what the operation returned (for op= operators: the object the name is bound to afterwards)"""
        cls = self.cls
        if op == "|=":
            s |= args[0]
            return s
        if op == "&=":
            s &= args[0]
            return s
        if op == "-=":
            s -= args[0]
            return s
        if op == "^=":
            s ^= args[0]
            return s
        if op == "|":
            return s | args[0]
        if op == "&":
            return s & args[0]
        if op == "-":
            return s - args[0]
        if op == "^":
            return s ^ args[0]
        if op == "copy":
            return cls(s)
        if op == "new":
            return cls()
        if op == "newc":
            return cls(args[0])
        if op == "newr":
            return cls(range(args[0], args[1] + 1))
        if op == "complement1":
            return s.complement(args[0])
        if op == "complementR":
            return s.complement(range(args[0], args[1] + 1))
        return getattr(s, op)(*args)

    def step(self, step):
        """-> (kind, target index, returned object)"""
        op, t, args = step[0], step[1], list(step[2:])
        if op == "fill":   # first atom, last atom, stride, route
            mask, spans = self.model.comb(*args[:3])
            s = self.real[t]
            if args[3] == "add" and all(b - a == 1 for a, b in spans):
                for a, b in spans:
                    s.add(a)
            else:   # unions of neighbours, then of those, ...
                sets = [self.cls(range(a, b)) for a, b in spans]
                while len(sets) > 1:
                    sets = [x.addAll(y[0]) if y else x for x, *y in (sets[i:i + 2] for i in range(0, len(sets), 2))]
                if sets:
                    s.addAll(sets[0])
            self.mask[t] |= mask
            return "mutate", t, s
        if op in MUTATORS:
            if MUTATORS[op] == "s":
                new = self.set_result(op, self.mask[t], self.mask[args[0]])
                ret = self.call(op, self.real[t], [self.real[args[0]]])
            else:
                new = self.expected(op, self.mask[t], args)
                ret = self.call(op, self.real[t], args)
            self.mask[t] = new
            return "mutate", t, ret
        # a maker: its result goes into slot d
        d = args.pop()
        if MAKERS[op] == "s":
            new = self.set_result(op, self.mask[t], self.mask[args[0]])
            ret = self.call(op, self.real[t], [self.real[args[0]]])
        else:
            new = self.expected(op, self.mask[t], args)
            ret = self.call(op, self.real[t], args)
        return "make", d, (ret, new)


def gen_history(rng, cuts, length, pool, far=False, empties=True):
    singles = [c for c, d in zip(cuts, cuts[1:]) if d == c + 1]
    ops = list(MUTATORS) + list(MAKERS)
    weights = [WEIGHTS.get(o, 1) for o in ops]
    limits = cuts[1:]
    hist = []
    recent = []

    def point():
        if far and rng.random() < 0.3:
            return rng.choice(FAR)
        if recent and rng.random() < 0.3:
            i = bisect.bisect_left(singles, rng.choice(recent)) + rng.choice([-1, 0, 1])
            return singles[max(0, min(len(singles) - 1, i))]
        return rng.choice(singles)

    def span():
        if far and rng.random() < 0.35:
            a = rng.choice(FAR + singles[:3] + singles[-3:])
            b = rng.choice(FAR + singles[:3] + singles[-3:])
            if a in singles or b in singles or rng.random() < 0.7:
                a, b = min(a, b), max(a, b)
            return a, b
        if rng.random() < 0.15:
            a = point()
            return a, a
        if rng.random() < 0.25:
            i = rng.randrange(len(cuts) - 1)
            j = min(len(cuts) - 1, i + rng.choice([1, 1, 2, 3]))
            return cuts[i], cuts[j] - 1
        a, b = rng.choice(cuts[:-1]), rng.choice(limits) - 1
        if a > b:
            if empties and rng.random() < 0.15:
                return a, b           # an empty range
            a, b = min(a, b + 1), max(a, b + 1) - 1
        return a, b

    for _ in range(length):
        op = rng.choices(ops, weights)[0]
        kind = MUTATORS.get(op, MAKERS.get(op))
        t = rng.randrange(pool)
        step = [op, t]
        if kind == "c":
            step.append(point())
        elif kind == "r":
            step += span()
        elif kind == "s":
            # a set with itself, sometimes
            step.append(rng.randrange(pool))
        if op in MAKERS:
            step.append(rng.randrange(pool))
        if kind in ("c", "r"):
            recent.append(step[2])
            del recent[:-6]
        hist.append(step)
    return hist


class SetCheck(Check):
    far = False
    chunk = 16
    styles = ["tiny", "tiny", "edges", "wide", "many"]
    quick_cases, thorough_cases = 960, 16000
    length = (30, 90)
    needs = ("operations",)
    assumptions = ["only the public interface is observed",
                   "ranges with a step other than 1 are not used"]

    def setup(self):
        self.cls = repo.mod("UnicodeSet").UnicodeSet

    def cases(self):
        for i in range(self.scale(self.quick_cases, self.thorough_cases)):
            rng = self.rng(i)
            style = rng.choice(self.styles)
            cuts = make_cuts(rng, style)
            n = rng.randrange(*self.length) * (1 if not self.thorough or i % 7 else 5)
            if i % 40 == 39:
                yield self.huge_case(rng, i)
                continue
            yield {"cuts": cuts, "ops": gen_history(rng, cuts, n if style != "many" else n // 2, 4, self.far), "probe": i}

    def huge_case(self, rng, i):
        """Sets of thousands of ranges, and sets that differ from them in one member."""
        cuts = make_cuts(rng, "huge")
        n = len(cuts) - 1
        singles = [c for j, c in enumerate(cuts[:-1]) if cuts[j + 1] == c + 1]
        late = singles[len(singles) * 9 // 10:]
        route = rng.choice(["add", "unions"])
        ops = [["fill", 0, rng.randrange(5), n, rng.choice([2, 2, 2, 4, 3]), route], ["copy", 0, 1],
               ["complement1", 1, rng.choice(late)], ["fill", 2, rng.randrange(5), n, rng.choice([2, 3, 5]), route]]
        for op in rng.sample(["|", "&", "-", "^", "union", "intersection", "difference", "symmetric_difference"], 3):
            ops.append([op, rng.randrange(3), rng.randrange(3), 3])
        ops += gen_history(rng, cuts, 4, 4, self.far)
        ops += [["copy", 2, 0], [rng.choice(["add", "remove"]), 0, rng.choice(late)]]
        ops += [["addAll", 1, 2], ["complement", 1], ["retainAll", 2, 0]]
        return {"cuts": cuts, "ops": ops, "probe": i}

    def shrink(self, case):
        ops = case["ops"]
        for size in (len(ops) // 2, len(ops) // 4, len(ops) // 8, 4, 2, 1):
            if size < 1:
                continue
            for i in range(0, len(ops), size):
                yield dict(case, ops=ops[:i] + ops[i + size:])

    def run(self, case, obs):
        rng = self.rng("probe", case["probe"])
        mach = Machine(self.cls, case["cuts"])
        done = []
        for step in case["ops"]:
            done.append(step)
            try:
                self.one(mach, step, rng, obs)
            except Exception as e:
                if type(e).__name__ == "Violation":
                    fail(f"after {len(done)} operations, the last being {step}: {e}\n  history: {done[-12:]}")
                raise
            obs.n("operations")
            obs.state(step[0], case["probe"], hex(mach.mask[step[1]]))
        self.at_end(mach, rng, obs)
        if len(case["ops"]) <= 12 or case["probe"] == 1:
            obs.sample({"ops": case["ops"][:8], "final": [describe(mach.model.ranges(m)) for m in mach.mask]})

    def one(self, mach, step, rng, obs):
        kind, t, ret = mach.step(step)
        if kind == "make":
            ret, mask = ret
            mach.real[t], mach.mask[t] = ret, mask
        self.look(mach, t, rng, obs)

    def look(self, mach, t, rng, obs):
        raise NotImplementedError

    def at_end(self, mach, rng, obs):
        for t in range(len(mach.real)):
            self.look(mach, t, rng, obs)


def membership(mach, t, rng, obs, probes=6):
    """The members a set reports (by ranges and by containment) are those of the model."""
    m, s, x = mach.model, mach.real[t], mach.mask[t]
    want = m.ranges(x)
    got = observe(s)
    members = []
    for a, b in sorted(got):
        if not (0 <= a < b <= TOP):
            fail(f"set {t} reports the range {a:X}..{b - 1:X}")
        if members and a <= members[-1][1]:
            members[-1] = (members[-1][0], max(b, members[-1][1]))
        else:
            members.append((a, b))
    if members != want:
        fail(f"set {t} should be {describe(want)} and is {describe(members)}")
    for _ in range(probes):
        c = rng.choice(m.cuts) + rng.choice([-1, 0, 0, 1])
        if 0 <= c < TOP:
            w = m.has(x, c)
            if s.contains(c) is not w or (c in s) is not w:
                fail(f"set {t} = {describe(want)}: containment of {c:X} should be {w}, is {s.contains(c)}/{c in s}")
            obs.n("containment_probes")
            d = min(TOP - 1, c + rng.choice([0, 1, 2, 5, 0x1000]))
            if rng.random() < .5 and want:
                a, b = rng.choice(want)
                c, d = a, b - 1 + rng.choice([0, 0, 1])
                d = min(d, TOP - 1)
            w = m.has_all(x, c, d)
            if s.contains(range(c, d + 1)) is not w or (range(c, d + 1) in s) is not w:
                fail(f"set {t} = {describe(want)}: containment of {c:X}-{d:X} should be {w}")
            obs.n("range_containment_probes")
    c = beyond(m, rng)
    if s.contains(c) is not False or (c in s) is not False:
        fail(f"set {t} = {describe(want)} contains {c:X}")


def beyond(m, rng):
    """An integer outside the code space whose low bits are those of a code point that may well be a member."""
    return rng.choice(m.cuts[:-1]) + rng.choice([-1, 1, 1, 1]) * (1 << rng.choice([21, 24, 31, 32, 32, 63, 64, 64, 100]))


def canonical(mach, t, obs):
    """Ranges are exactly the maximal runs of members, in order; all views of them agree."""
    m, s, x = mach.model, mach.real[t], mach.mask[t]
    want = m.ranges(x)
    got = observe(s)
    if got != want:
        fail(f"the ranges of set {t} should be {describe(want)} and are {describe(got)}")
    if s.getRangeCount() != len(want):
        fail(f"set {t} has {len(want)} ranges and reports {s.getRangeCount()}")
    for i, (a, b) in enumerate(want):
        if 60 < i < len(want) - 60 and i % 13:
            continue
        if s.getRangeStart(i) != a or s.getRangeEnd(i) != b - 1:
            fail(f"range {i} of set {t} should be {a:X}..{b - 1:X} and is {s.getRangeStart(i):X}..{s.getRangeEnd(i):X}")
    if s.size() != sum(b - a for a, b in want):
        fail(f"the size of set {t} should be {sum(b - a for a, b in want)} and is {s.size()}")
    text = str(s)
    nums = [int(h, 16) for h in re.findall(r"0x([0-9A-Fa-f]+)", text)]
    flat = [v for r in want for v in r]
    if flat[-1:] != [TOP]:
        flat.append(TOP)
    if nums != flat:
        fail(f"the string of set {t} = {describe(want)} is {text[:200]}")
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        s.dump()
    if out.getvalue() != text + "\n":
        fail(f"dump() of set {t} = {describe(want)} prints {out.getvalue()[:200]!r}")
    obs.n("canonical_observations")


class C01(SetCheck):
    id = "C01"
    rule = ("histories of 30-450 random operations on a pool of four sets over cut points clustered at block, surrogate, "
            "plane and U+10FFFF boundaries; a state is a distinct (operation, set it left) of a case; after every operation the changed "
            "set is compared with a bit-set model")
    needs = ("operations", "containment_probes", "range_containment_probes")

    def look(self, mach, t, rng, obs):
        membership(mach, t, rng, obs)


class C02(SetCheck):
    id = "C02"
    rule = ("as C01; after every operation the ranges, count, size and string of the changed set must be the canonical ones "
            "of the model, and equality must coincide with having the same members, also against a set built afresh by "
            "another route")
    needs = ("operations", "canonical_observations", "equality_true", "equality_false")

    def look(self, mach, t, rng, obs):
        canonical(mach, t, obs)
        m = mach.model
        s, x = mach.real[t], mach.mask[t]
        u = rng.randrange(len(mach.real))
        same = x == mach.mask[u]
        o = mach.real[u]
        for a, b in ((s, o), (o, s)):
            if (a == b) is not same or (a != b) is same:
                fail(f"{describe(m.ranges(x))} == {describe(m.ranges(mach.mask[u]))} is {a == b}, != is {a != b}")
        obs.n("equality_true" if same else "equality_false")
        if same and getattr(type(s), "__hash__", None) is not None and hash(s) != hash(o):
            fail(f"two sets {describe(m.ranges(x))} are equal but their hashes differ")
        want = m.ranges(x)
        if want and len(want) <= 60 and rng.random() < .25:
            # a set that differs in little: by a few borders moved, often so that size, starts or ends are the same
            near = [list(r) for r in want]
            if rng.random() < .5 and len(near) > 1:
                # what one range gains another loses
                k, d = rng.randrange(2), rng.choice([1, 1, 2, 5])
                for r, move in zip(rng.sample(near, 2), (d, -d)):
                    r[k] += move
            else:
                for _ in range(rng.choice([1, 1, 2, 3])):
                    rng.choice(near)[rng.randrange(2)] += rng.choice([-1, 1]) * rng.choice([1, 1, 2, 7])
            r, merged = self.cls(), []
            for a, b in sorted((max(a, 0), min(b, TOP)) for a, b in near):
                if a >= b:
                    continue
                r.addRange(a, b - 1)
                if merged and a <= merged[-1][1]:
                    merged[-1] = (merged[-1][0], max(b, merged[-1][1]))
                else:
                    merged.append((a, b))
            same = merged == [tuple(w) for w in want]
            if (r == s) is not same or (s == r) is not same or (r != s) is same:
                fail(f"{describe(merged)} == {describe(want)} is {r == s}, {s == r} the other way round")
            obs.n("equality_true" if same else "equality_false")
        if rng.random() < .25:
            if len(want) <= 60:
                route = rng.randrange(4)
                r = self.cls()
                if route == 0:
                    for a, b in rng.sample(want, len(want)):
                        r.addRange(a, b - 1)
                elif route == 1:
                    r = self.cls(range(0, TOP))
                    prev = 0
                    for a, b in want + [(TOP, TOP)]:
                        if prev < a:
                            r.removeRange(prev, a - 1)
                        prev = b
                elif route == 2:
                    for a, b in rng.sample(want, len(want)):
                        r |= self.cls(range(a, b))
                else:
                    for a, b in want:
                        mid = (a + b) // 2
                        r.addRange(mid, b - 1)
                        if a < mid:
                            r.addRange(a, mid - 1)
                if not (r == s) or r != s or observe(r) != want or str(r) != str(s):
                    fail(f"{describe(want)} built by route {route} differs: {describe(observe(r))} against {describe(observe(s))}")
                obs.n("equality_true")


class C03(SetCheck):
    id = "C03"
    rule = ("as C01; after every operation: what it returned is the set itself (operations that change it) or a new object "
            "(operations that combine), and no other set of the pool changed; afterwards results and operands are changed "
            "and re-observed")
    needs = ("operations", "bystanders_unchanged", "returned_self", "returned_new")

    def one(self, mach, step, rng, obs):
        before = list(mach.real)
        kind, t, ret = mach.step(step)
        if kind == "mutate":
            if ret is not before[t]:
                fail(f"{step[0]} returned {type(ret).__name__} instead of the set itself")
            obs.n("returned_self")
            self.unchanged(mach, t, rng, obs)
        else:
            ret, mask = ret
            if type(ret) is not self.cls:
                fail(f"{step[0]} returned a {type(ret).__name__}")
            if any(ret is b for b in before):
                fail(f"{step[0]} returned one of its operands instead of a new set")
            obs.n("returned_new")
            self.unchanged(mach, None, rng, obs)
            # neither the operands nor the result see later changes of the other
            if rng.random() < .5:
                m = mach.model
                c = rng.choice([0, 0x10FFFF])
                probe = self.cls(ret)
                probe.complement(c)
                if observe(ret) != m.ranges(mask):
                    fail(f"changing a copy of the result of {step[0]} changed the result")
                ret.complement(c)
                mask ^= m.mask(c, c)
                self.unchanged(mach, None, rng, obs)
            mach.real[t], mach.mask[t] = ret, mask
        if rng.random() < .3:
            r = mach.real[t].getRanges()
            r.clear()
            self.unchanged(mach, None, rng, obs)

    def unchanged(self, mach, t, rng, obs):
        for i, s in enumerate(mach.real):
            want = mach.model.ranges(mach.mask[i])
            got = observe(s)
            if i != t and got != want:
                fail(f"set {i} was {describe(want)}, was not the target, and is now {describe(got)}")
            if i == t and got != want:
                fail(f"set {i} should be {describe(want)} and is {describe(got)}")
            obs.n("bystanders_unchanged")

    def at_end(self, mach, rng, obs):
        self.unchanged(mach, None, rng, obs)


class C04(SetCheck):
    id = "C04"
    far = True
    styles = ["tiny", "edges", "wide"]
    rule = ("as C01, with a third of the arguments outside U+0000..U+10FFFF (they act as the nearest code point), empty "
            "ranges, probes outside the code space and arguments of the wrong type, which must raise TypeError and change "
            "nothing")
    needs = ("operations", "outside_probes", "type_errors", "canonical_observations")

    def look(self, mach, t, rng, obs):
        membership(mach, t, rng, obs, probes=2)
        canonical(mach, t, obs)
        m, s, x = mach.model, mach.real[t], mach.mask[t]
        for _ in range(2):
            c = rng.choice(FAR)
            if s.contains(c) is not False or (c in s) is not False:
                fail(f"a set contains {c}")
            if s.indexOf(c) is not None:
                fail(f"indexOf({c}) is {s.indexOf(c)}")
            a, b = rng.choice([(0x10FFFF, 0x110000), (0x10FFFE, 0x110005), (0, 0x110000), (0x110000, 0x110001), (-1, 0),
                               (-5, 0x10FFFF), (-3, -1)])
            if s.contains(range(a, b + 1)) is not False:
                fail(f"{describe(m.ranges(x))} contains range({a}, {b + 1})")
            obs.n("outside_probes")
        if rng.random() < .3:
            bad = rng.choice(["A", 1.5, b"x", [1], (1, 2), {1}, "", 0.0, b"", [], (), set(), {}, slice(1, 3), {1: 2}])
            for what, call in (("complement", lambda: s.complement(bad)), ("contains", lambda: s.contains(bad)),
                               ("in", lambda: bad in s), ("the constructor", lambda: self.cls(bad))):
                try:
                    call()
                except TypeError:
                    pass
                else:
                    fail(f"{what} accepted {bad!r}")
                obs.n("type_errors")
            for other in (None, 5, "x", [0x41], range(5), object()):
                if (s == other) is not False or (s != other) is not True:
                    fail(f"a set equals {other!r}")
            canonical(mach, t, obs)


class C05(SetCheck):
    id = "C05"
    rule = ("as C01; after every operation the changed set's size, indexing in both directions and iteration (also two "
            "interleaved iterators) are compared with the sorted members of the model")
    needs = ("operations", "index_probes", "members_iterated")
    quick_cases, thorough_cases = 640, 10000

    def look(self, mach, t, rng, obs):
        m, s, x = mach.model, mach.real[t], mach.mask[t]
        want = m.ranges(x)
        size = sum(b - a for a, b in want)
        if s.size() != size:
            fail(f"the size of {describe(want)} should be {size} and is {s.size()}")
        base = []
        n = 0
        for a, b in want:
            base.append(n)
            n += b - a
        for i in (-1, -2, -size, size, size + 1, size + 1000, 1 << 40):
            if (i < 0 or i >= size) and s.charAt(i) is not None:
                fail(f"charAt({i}) of {describe(want)} (size {size}) is {s.charAt(i)}")
        picks = set()
        if want:
            for _ in range(5):
                k = rng.randrange(len(want))
                a, b = want[k]
                for c in (a, b - 1, rng.randrange(a, b)):
                    picks.add((c, base[k] + c - a))
        for c, i in picks:
            if s.charAt(i) != c or s.indexOf(c) != i:
                fail(f"{describe(want)}: member {i} is {c:X}; charAt gives {s.charAt(i)}, indexOf gives {s.indexOf(c)}")
            obs.n("index_probes")
        for _ in range(4):
            c = rng.choice(m.cuts[:-1]) + rng.choice([-1, 0, 1])
            if 0 <= c < TOP and not m.has(x, c) and s.indexOf(c) is not None:
                fail(f"{describe(want)} does not contain {c:X} but indexOf gives {s.indexOf(c)}")
        c = beyond(m, rng)
        if s.indexOf(c) is not None:
            fail(f"{describe(want)} does not contain {c:X} but indexOf gives {s.indexOf(c)}")
        i = rng.choice([0, 1, size - 1, size // 2]) + rng.choice([-1, 1, 1]) * (1 << rng.choice([21, 24, 31, 32, 32, 63, 64, 64, 100]))
        if s.charAt(i) is not None:
            fail(f"charAt({i}) of {describe(want)} (size {size}) is {s.charAt(i)}")
        if rng.random() < (.5 if size < 300 else .1):
            lim = min(size, 400 if rng.random() < .97 else 200000)
            expected = list(itertools.islice(itertools.chain.from_iterable(range(a, b) for a, b in want), lim))
            got = list(itertools.islice(iter(s), lim if lim < size else None))
            if got != expected:
                fail(f"iterating {describe(want)} gives {got[:20]}...")
            obs.n("members_iterated", len(got))
            one, two = iter(s), iter(s)
            a = list(itertools.islice(one, lim // 2))
            b = list(itertools.islice(two, min(3, lim)))
            a += list(itertools.islice(one, lim - len(a)))
            if a != expected or b != expected[:3]:
                fail(f"two iterators over {describe(want)} disturb each other")
            if size and lim == size and next(one, None) is not None:
                fail(f"the iterator of {describe(want)} goes on after the last member")
