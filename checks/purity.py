"""C31: answers do not depend on what was asked before, on what callers do with what they get, or on other threads."""
import json
import queue
import sys
import threading

import inventory
import norm
import props
import repo
import vh
from vh import Check, fail

TOP = 0x110000
DATA = ["CharPropsData", "BidiPropsData", "CasePropsData", "Norm2NFCData"] + inventory.DICT_MODULES


class Interrupted(KeyboardInterrupt):
    pass


class Helper:
    """A second thread that runs what it is given."""

    def __init__(self):
        self.todo = queue.SimpleQueue()
        self.thread = threading.Thread(target=self.loop, daemon=True)
        self.thread.start()

    def loop(self):
        while True:
            fn, done = self.todo.get()
            if fn is None:
                return
            try:
                fn()
            finally:
                done.set()

    def run(self, fn, seconds):
        """Let the other thread do fn; go on when it is done, or has to wait for this thread."""
        done = threading.Event()
        self.todo.put((fn, done))
        done.wait(seconds)
        return done

    def stop(self):
        self.todo.put((None, None))
        self.thread.join(60)


class C31(Check):
    id = "C31"
    chunk = 1
    needs = ("answers", "preemptions", "thread_answers", "results_changed", "objects_watched", "abandoned")
    assumptions = ["a thread may lose the processor at any line of the package's code", "one object is not changed by one thread "
                   "while another uses it"]
    rule = ("random mixtures of every lookup, name, mapping, set and utility question, each answer compared with the reference "
            "and then overwritten by its receiver where it can be, the shipped tables compared before and after; a question "
            "interrupted at its k-th line while another thread asks others, also of the same sets, or ended there by an "
            "exception, or asked with arguments of wrong types, and others asked then; four threads asking at once with very short time "
            "slices; a state is a distinct (question, line at which it was interrupted) or (kind of question, previous kind)")

    def setup(self):
        repo.install_data()
        self.tables = props.tables()
        self.fns = {n: factory(repo.mod(m)) for n, (m, factory, kind) in inventory.entries().items()}
        self.by_value = {}
        self.aspect = None          # what to ask of them, mostly
        self.focus = range(10)      # which of the shared sets to ask
        self.names = {0: {}, 3: {}}
        for line in repo.read_data("names.txt.xz").decode().splitlines():
            h, n, a = line.split(";")
            if n:
                self.names[0][int(h, 16)] = n
            if a:
                self.names[3][int(h, 16)] = a
        self.named = sorted(self.names[0])
        self.aliased = sorted(self.names[3])
        self.charnames = repo.mod("CharNames").CharNames
        m = repo.mod("Normalizer2")
        self.norm = {"nfc": m.nfcTrie, "nfkc": m.nfkcTrie, "nfkc_cf": m.nfkc_cfTrie}
        self.ref = {t: {int(k, 16): tuple(v) for k, v in d.items()} for t, d in json.loads(repo.read_data("norm.json.xz")).items()}
        self.mapped = {t: sorted(d) for t, d in self.ref.items()}
        self.set = repo.mod("UnicodeSet").UnicodeSet
        self.util = repo.mod("Utilities")
        self.data = [repo.mod(n) for n in DATA]
        self.chars = repo.mod("CharProps")
        self.root = repo.REPO + "/UnicodeData/"

    def cases(self):
        for i in range(self.scale(40, 500)):
            yield {"mode": "mixture", "n": i}
        kinds = sorted(self.fns) + ["name"] * 6 + ["mapping"] * 6 + ["set"] * 20 + ["shared"] * 30 + ["utility"] * 6 + ["runs"] * 6 + ["find"] * 3 + ["listing"] * 3
        for i in range(self.scale(2, 12)):
            for j in range(0, len(kinds), 12):
                yield {"mode": "preempt", "n": i, "kinds": kinds[j:j + 12], "part": j}
        for i in range(self.scale(1, 8)):
            for j in range(0, len(kinds), 20):
                yield {"mode": "abandon", "n": i, "kinds": kinds[j:j + 20], "part": j}
        for i in range(self.scale(24, 200)):
            yield {"mode": "threads", "n": i}

    def run(self, case, obs):
        getattr(self, "do_" + case["mode"])(case, obs)

    # Questions: (text, thunk, expected), expected may be a set of acceptable answers in a frozenset.

    def point(self, rng):
        return rng.choice([rng.randrange(TOP), rng.randrange(0x250), rng.randrange(0x3000), rng.choice(self.named)])

    def question(self, rng, kind=None):
        kind = kind or rng.choice(["lookup"] * 12 + ["name"] * 2 + ["mapping"] * 3 + ["set"] * 3 + ["shared"] * 3 + ["utility", "runs"]
                                  + ["listing"] * (rng.random() < .3))
        if kind == "lookup" or kind in self.fns:
            n = rng.choice(list(self.fns)) if kind == "lookup" else kind
            t = self.tables[n]
            c = self.telling(n, rng) if rng.random() < .7 else self.point(rng)
            return f"{n}({c:#x})", lambda: self.fns[n](c), t.get(c)
        return getattr(self, "q_" + kind)(rng)

    def telling(self, n, rng):
        """A code point whose answer is not like most others: each answer of the lookup is as likely as the next."""
        if n not in self.by_value:
            t = self.tables[n]
            groups = {}
            for i, (a, v) in enumerate(zip(t.starts, t.values)):
                if t.kind == "s":
                    v = min(len(v), 4)
                groups.setdefault(repr(v), []).append(i)
            self.by_value[n] = list(groups.values())
        t = self.tables[n]
        i = rng.choice(rng.choice(self.by_value[n]))
        end = t.starts[i + 1] if i + 1 < len(t.starts) else TOP
        return rng.choice([t.starts[i], rng.randrange(t.starts[i], end)])

    def q_name(self, rng):
        choice = rng.choice([0, 0, 3, 2])
        c = rng.choice(self.aliased) if choice == 3 and rng.random() < .7 else self.point(rng)
        f = self.charnames.getCharName
        if choice == 2:
            import charnames
            n = self.names[0].get(c, "")
            synth = f"<{charnames.category_name(c)}-{c:04X}>"
            want = frozenset([n]) if 0x4E00 <= c <= 0x9FFC or 0xAC00 <= c <= 0xD7A3 else frozenset([synth, n or synth])
            return f"the extended name of {c:#x}", lambda: f(c, 2), want
        return f"name {choice} of {c:#x}", lambda: f(c, choice), self.names[choice].get(c, "")

    def q_find(self, rng):
        c = rng.choice([x for x in self.named[:600] if x < 0x180])
        return f"the character named {self.names[0][c]}", lambda: self.charnames.charFromName(self.names[0][c]), c

    def q_mapping(self, rng):
        t = rng.choice(list(self.norm))
        c = rng.choice(self.mapped[t]) if rng.random() < .7 else rng.randrange(0xAC00, 0xD7A4) if rng.random() < .5 else self.point(rng)
        full, raw = norm.hangul(c) if 0xAC00 <= c <= 0xD7A3 else self.ref[t].get(c, (None, None))
        if rng.random() < .5:
            return f"the {t} mapping of {c:#x}", lambda: self.norm[t].getDecomposition(c), full
        want = raw if raw != "" else frozenset([None, ""])
        return f"the raw {t} mapping of {c:#x}", lambda: self.norm[t].getRawDecomposition(c), want

    def q_set(self, rng):
        lo = rng.choice([0, 0x41, 0x3000, 0x10FF00])
        a = {lo + rng.randrange(60) for _ in range(rng.randrange(12))}
        b = {lo + rng.randrange(60) for _ in range(rng.randrange(12))}
        op = rng.choice(["union", "intersection", "difference", "symmetric", "contains", "history", "ranges", "copies", "iterators"])
        S = self.set

        def made(x):
            s = S()
            for c in sorted(x, key=lambda v: v * 7919 % 61):
                s.add(c)
            return s

        def ask():
            s, t = made(a), made(b)
            if op == "contains":
                return [c for c in range(lo, lo + 60) if c in s]
            if op == "history":
                s.addRange(lo + 10, lo + 19).remove(lo + 12).retainAll(t)
                return list(s)
            if op == "ranges":
                # what was given out before, to whomever, may have been changed
                for x in (s, made(a), t):
                    self.spoil(x.getRanges(), vh.Obs())
                return [c for r in made(a).getRanges() + s.getRanges() for c in r]
            if op == "iterators":
                # several on the same set, some of them left before their end
                out = []
                for c in s:
                    other = iter(s)
                    first = next(other)
                    out.append((c, first, sum(1 for _ in s), list(s)[-1]))
                    next(other, None)
                return out
            if op == "copies":
                for x in (S(s), s.union(t), s | S(), s & s, s.difference(t), s ^ S(), s.union(s)):
                    x.complement()
                    x.addRange(lo + 3, lo + 70).remove(lo + 1)
                    x.addRange(x.getRangeEnd(x.getRangeCount() - 1) - 5, 0x10FFFF)
                    x.add(lo)
                    x.clear()
                return list(s)
            {"union": lambda: s.addAll(t), "intersection": lambda: s.retainAll(t), "difference": lambda: s.removeAll(t),
                 "symmetric": lambda: s.complementAll(t)}[op]()
            return list(s)

        want = {"union": a | b, "intersection": a & b, "difference": a - b, "symmetric": a ^ b, "contains": a, "copies": a,
                "ranges": sorted(a) * 2, "iterators": [(c, min(a), len(a), max(a)) for c in sorted(a)],
                "history": ((a | set(range(lo + 10, lo + 20))) - {lo + 12}) & b}[op]
        return f"the {op} of {sorted(a)} and {sorted(b)}", ask, want if op in ("ranges", "iterators") else sorted(want)

    def shared(self):
        """Sets that every thread asks, with their members."""
        rng = self.rng("shared sets")
        out = []
        for n in (0, 1, 5, 40, 300):
            x = {rng.choice([0x41, 0x3000, 0x10FF00]) + rng.randrange(4 * n + 1) & 0x1FFFFF for _ in range(n)} - set(range(TOP, TOP + 9999))
            for _ in range(2):
                s = self.set()
                for c in rng.sample(sorted(x), len(x)):
                    s.add(c)
                out.append((s, sorted(x)))
        return out

    def q_shared(self, rng):
        """A question that changes nothing, to a set others are asking as well."""
        if not hasattr(self, "shared_sets"):
            self.shared_sets = self.shared()
        i, j = rng.choice(self.focus), rng.randrange(len(self.shared_sets))
        (s, x), (t, y) = self.shared_sets[i], self.shared_sets[j]
        c = rng.choice(x) + rng.choice([0, 0, 1, -1]) if x and rng.random() < .8 else rng.randrange(TOP)
        k = rng.randrange(len(x) + 1)
        a, b = set(x), set(y)
        asked = {
            "contains": (lambda: (s.contains(c), c in s), (c in a, c in a)),
            "range": (lambda: s.contains(range(c, c + 2)), c in a and c + 1 in a),
            "size": (lambda: s.size(), len(x)),
            "index of": (lambda: s.indexOf(c), x.index(c) if c in a else None),
            "member at": (lambda: s.charAt(k), x[k] if k < len(x) else None),
            "members": (lambda: list(s), x),
            "some members": (lambda: [p for p, _ in zip(s, range(k))], x[:k]),
            "ranges": (lambda: [p for r in s.getRanges() for p in r], x),
            "starts": (lambda: [p for q in range(s.getRangeCount()) for p in range(s.getRangeStart(q), s.getRangeEnd(q) + 1)], x),
            "copy": (lambda: list(self.set(s)), x),
            "equality": (lambda: (s == t, s != t, s == self.set(s)), (x == y, x != y, True)),
            "text": (lambda: str(s) == str(self.set(s)), True),
            "union": (lambda: list(s | t), sorted(a | b)), "intersection": (lambda: list(s & t), sorted(a & b)),
            "difference": (lambda: list(s.difference(t)), sorted(a - b)), "symmetric": (lambda: list(s ^ t), sorted(a ^ b)),
        }
        what = self.aspect if self.aspect and rng.random() < .6 else rng.choice(list(asked))
        ask, want = asked[what]
        self.asked = what
        return f"the {what} (of shared set {i}, {j}, {c:#x}, {k})", ask, want

    def q_utility(self, rng):
        u = self.util
        c = rng.randrange(0x10000, TOP)
        k = rng.randrange(4)
        if k == 0:
            v = c - 0x10000
            return f"surrogatesFromChar({c:#x})", lambda: u.surrogatesFromChar(c), (0xD800 + (v >> 10), 0xDC00 + (v & 0x3FF))
        if k == 1:
            v = c - 0x10000
            return f"charFromSurrogates of {c:#x}", lambda: u.charFromSurrogates(0xD800 + (v >> 10), 0xDC00 + (v & 0x3FF)), c
        if k == 2:
            w = rng.getrandbits(rng.randrange(1, 64)) | 1
            return f"highBit({w:#x})", lambda: u.highBit(w), w.bit_length() - 1
        l = [rng.randrange(TOP) for _ in range(rng.randrange(5))]
        return f"listOfCodes({l})", lambda: u.listOfCodes(l), ", ".join("%04X" % x for x in l)

    def views(self):
        """(what, trie, value function, its arguments, table), for tries that can be enumerated."""
        m, b, l = self.chars, repo.mod("BidiProps"), repo.mod("LayoutProps")
        out = [("general category", m.propsTrie, m.generalCategoryFromProps, {}, "getGeneralCategory"),
               ("numeric type", m.propsTrie, m.numericTypeFromProps, {}, "getNumericType"),
               ("script", m.propsVectorTrie, m.scriptFromVecIndex, {}, "getScript"),
               ("block", m.propsVectorTrie, m.blockFromVecIndex, {}, "getBlock"),
               ("emoji", m.propsVectorTrie, m.binaryPropFromVecIndex, {"propShift": m.UPROPS_2_EMOJI, "column": 2}, "isEmoji"),
               ("dash", m.propsVectorTrie, m.binaryPropFromVecIndex, {"propShift": m.UPROPS_DASH, "column": 1}, "bin1:DASH"),
               ("bidi control", b.bidiPropsTrie, b.getFlagFromProps, {"shift": b.UBIDI_BIDI_CONTROL_SHIFT}, "isBidiControl"),
               ("positional category", l.inpcTrie, None, {}, "getInPC"), ("syllabic category", l.inscTrie, None, {}, "getInSC"),
               ("vertical orientation", l.voTrie, None, {}, "getVO")]
        return [(n, t, {"valueFunction": f, **kw} if f else {}, self.tables[table]) for n, t, f, kw, table in out]

    def q_runs(self, rng):
        """Part of an enumeration of a shipped trie, or of two advanced in turn."""
        if not hasattr(self, "view_list"):
            self.view_list = self.views()
        picked = []
        for what, trie, kw, t in [rng.choice(self.view_list) for _ in range(rng.choice([1, 1, 2]))]:
            i = rng.randrange(max(1, len(t.starts) - 30))
            a = t.starts[i]
            b = min(t.starts[min(i + rng.randrange(1, 12), len(t.starts) - 1)], TOP) if len(t.starts) > i + 1 else TOP
            want = []
            for x, y, v in t.runs(a, b):
                if want and want[-1][2] == v:
                    want[-1] = (want[-1][0], y, v)
                else:
                    want.append((x, y, v))
            picked.append((what, trie, kw, a, b, want))
        order = [rng.randrange(len(picked)) for _ in range(40)]

        def ask():
            its = [trie.enumerator(start=a, limit=b, **kw) for _, trie, kw, a, b, _ in picked]
            out = [[] for _ in its]
            for k in order + sorted(set(order)) * 30:
                x = next(its[k], None)
                if x is not None:
                    out[k].append((x[0].start, x[0].stop, x[1]))
            return out

        text = " and ".join(f"{w} from {a:#x} to {b:#x}" for w, _, _, a, b, _ in picked)
        return f"the runs of {text}", ask, [p[5] for p in picked]

    def q_listing(self, rng):
        """The first names of an iteration, with another iteration and queries between."""
        k, j = rng.randrange(1, 12), rng.randrange(0, 5)
        choice = rng.choice([0, 0, 3])
        order = self.named if choice == 0 else self.aliased
        c = rng.choice(self.named)

        def ask():
            out = []
            it = self.charnames.nameIterator(choice)
            for i in range(k):
                out.append(tuple(next(it)))
                if i == j:
                    out.append(tuple(next(self.charnames.nameIterator())))
                    out.append(self.charnames.getCharName(c))
            return out

        want = []
        for i, x in enumerate(order[:k]):
            want.append((x, self.names[choice][x]))
            if i == j:
                want += [(self.named[0], self.names[0][self.named[0]]), self.names[0][c]]
        return f"the first {k} names of kind {choice}", ask, want

    def judge(self, text, got, want, how):
        ok = got in want if isinstance(want, frozenset) else got == want
        if not ok:
            fail(f"{text}{how} should be {want!r}, is {got!r}")

    def spoil(self, x, obs):
        """What a caller may do with an answer that is its own."""
        if isinstance(x, list):
            x.append(range(99) if x and isinstance(x[0], range) else 99)
            x[0] = x[-1] if isinstance(x[0], range) else -5
            obs.n("results_changed")
        elif isinstance(x, dict):
            x.clear()
            obs.n("results_changed")

    def fingerprint(self):
        out = {}
        for m in self.data:
            for k, v in vars(m).items():
                if k.startswith("_"):
                    continue
                if isinstance(v, (list, tuple)):
                    out[m.__name__, k] = tuple(map(str, v))
                elif isinstance(v, dict):
                    out[m.__name__, k] = tuple(sorted((str(a), str(b)) for a, b in v.items()))
                elif isinstance(v, (int, str, bytes)):
                    out[m.__name__, k] = v
        return out

    def do_mixture(self, case, obs):
        rng = self.rng("mixture", case["n"])
        before = self.fingerprint()
        last = "nothing"
        kept = []
        for _ in range(self.scale(1500, 6000)):
            text, ask, want = self.question(rng)
            got = ask()
            self.judge(text, got, want, f" (after {last})")
            obs.n("answers")
            obs.state(text.split("(")[0].split(" of ")[0], last.split("(")[0].split(" of ")[0])
            if isinstance(got, list) and rng.random() < .5:
                kept.append((text, got, list(got)))
            else:
                self.spoil(got, obs)
            last = text
        for text, got, was in kept:
            if got != was:
                fail(f"the answer to {text} was {was!r} and became {got!r} when other questions were asked")
        after = self.fingerprint()
        obs.n("objects_watched", len(after))
        for k in before:
            if after.get(k) != before[k]:
                fail(f"asking questions changed {k[1]} of {k[0]}")
        obs.sample({"answers": self.scale(1500, 6000), "last": last})

    def do_preempt(self, case, obs):
        rng = self.rng("preempt", case["n"], case["part"])
        helper = Helper()
        try:
            for kind in case["kinds"]:
                self.preempt(rng, kind, helper, obs)
        finally:
            helper.stop()
            self.focus, self.aspect = range(10), None

    def do_abandon(self, case, obs):
        """Questions that end with an exception, at any of their lines or because they were asked wrongly, and then others."""
        rng = self.rng("abandon", case["n"], case["part"])
        try:
            for kind in case["kinds"]:
                self.focus, self.aspect = [rng.randrange(2, 10)], None
                asked = self.question(rng, kind)
                self.aspect = self.asked if kind == "shared" else None
                stops = self.moments(asked, rng)
                for stop in sorted(rng.sample(stops, min(len(stops), 12))):
                    if rng.random() < .3:
                        fresh = self.question(rng, kind)
                        asked = fresh if kind == "shared" else asked
                    seen = self.abandon(asked[1], stop)
                    how = f" (after {asked[0]} was interrupted at {seen})"
                    if rng.random() < .5:
                        how += self.misuse(kind, rng)
                    a, b, c = (self.question(rng, kind) for _ in range(3))
                    for text, ask, want in [asked] * (rng.random() < .8) + [a, asked, b, c]:
                        self.judge(text, ask(), want, how)
                    obs.n("abandoned")
                    obs.state("abandoned", kind, seen)
        finally:
            self.focus, self.aspect = range(10), None

    def misuse(self, kind, rng):
        """Ask wrongly: that may raise any exception, and does nothing else."""
        bad = rng.choice([None, "A", "", b"A", 1.5, [65], (1, 2), {}, object, -1, 1 << 70, float("nan")])
        if kind in self.fns:
            what, call = kind, lambda: self.fns[kind](bad)
        elif kind in ("name", "find", "listing"):
            n = self.charnames
            what, call = rng.choice([("getCharName", lambda: n.getCharName(bad)), ("getCharName(65, ...)", lambda: n.getCharName(65, bad)),
                                     ("charFromName", lambda: n.charFromName(65 if isinstance(bad, (str, float)) else bad)),
                                     ("nameIterator", lambda: next(n.nameIterator(bad)))])
        elif kind == "mapping":
            t = self.norm[rng.choice(list(self.norm))]
            what, call = rng.choice([("getDecomposition", lambda: t.getDecomposition(bad)), ("getRawDecomposition", lambda: t.getRawDecomposition(bad))])
        elif kind == "shared":
            (s, _), (t, _) = self.shared_sets[rng.choice(self.focus)], self.shared_sets[0]
            what, call = rng.choice([("contains", lambda: s.contains(bad)), ("union", lambda: s.union(bad)), ("|", lambda: s | bad),
                                     ("intersection", lambda: s.intersection(bad)), ("indexOf", lambda: s.indexOf(bad)),
                                     ("charAt", lambda: s.charAt(bad)), ("==", lambda: s == bad), ("the constructor", lambda: self.set(bad)),
                                     ("difference", lambda: s.difference(bad)), ("getRangeStart", lambda: s.getRangeStart(bad))])
        elif kind == "utility":
            u = self.util
            what, call = rng.choice([("listOfCodes", lambda: u.listOfCodes(bad)), ("listOfCodes([65, ...])", lambda: u.listOfCodes([65, bad])),
                                     ("highBit", lambda: u.highBit(bad)),
                                     ("surrogatesFromChar", lambda: u.surrogatesFromChar(bad)),
                                     ("charFromSurrogates", lambda: u.charFromSurrogates(bad, bad))])
            if bad == 1 << 70 or bad == -1:
                return ""
        else:
            return ""
        try:
            call()
        except Exception:
            pass
        return f" (and {what} was asked with {bad!r})"

    def abandon(self, ask, stop):
        root = self.root
        seen = None
        count = 0

        def line(frame, event, arg):
            nonlocal count, seen
            if event == "line":
                count += 1
                if count - 1 == stop:
                    seen = frame.f_code.co_filename[len(root):], frame.f_lineno
                    raise Interrupted()
            return line

        sys.settrace(lambda f, e, a: line if f.f_code.co_filename.startswith(root) else None)
        try:
            ask()
        except (Interrupted, Exception):      # it may turn the one into the other
            pass
        finally:
            sys.settrace(None)
        return seen

    def moments(self, asked, rng):
        """At which of the lines that a question executes to interrupt it."""
        text, ask, want = asked
        root = self.root
        at = {}
        lines = [0]

        def count_line(frame, event, arg):
            if event == "line":
                at.setdefault((frame.f_code, frame.f_lineno), []).append(lines[0])
                lines[0] += 1
            return count_line

        def counter(frame, event, arg):
            return count_line if frame.f_code.co_filename.startswith(root) else None

        sys.settrace(counter)
        try:
            got = ask()
        finally:
            sys.settrace(None)
        self.judge(text, got, want, "")
        total = lines[0]
        stops = range(total)
        if total > 60:      # each line of the source, and some of the many times it is executed
            stops = {rng.choice([k[0], k[-1], rng.choice(k)]) for k in at.values()}
            stops = sorted(stops | set(rng.sample(range(total), max(0, 60 - len(stops)))))
        return stops

    def preempt(self, rng, kind, helper, obs):
        """The same question, interrupted at each of its lines in turn."""
        self.focus, self.aspect = [rng.randrange(2, 10)], None
        asked = text, ask, want = self.question(rng, kind)
        self.aspect = self.asked if kind == "shared" else None
        root = self.root
        stops = self.moments(asked, rng)
        for stop in stops:
            seen = []
            problems = []
            others = [self.question(rng, kind), self.question(rng, kind), self.question(rng)]
            waiting = []

            def meanwhile():
                for t, f, w in others:
                    try:
                        self.judge(t, f(), w, f" (asked by another thread while {text} was being answered)")
                    except vh.Violation as v:
                        problems.append(str(v))
                    except Exception as e:
                        problems.append(f"{t} (asked by another thread while {text} was being answered) raised {e!r}")

            count = 0

            def line(frame, event, arg):
                nonlocal count
                if event == "line":
                    if count == stop:
                        seen.append((frame.f_code.co_filename[len(root):], frame.f_lineno))
                        waiting.append(helper.run(meanwhile, .25))
                    count += 1
                return line

            def trace(frame, event, arg):
                return line if frame.f_code.co_filename.startswith(root) else None

            sys.settrace(trace)
            try:
                got = ask()
            finally:
                sys.settrace(None)
            for w in waiting:
                if not w.wait(60):
                    fail(f"a question asked while {text} was being answered is never answered")
            if problems:
                fail(problems[0])
            self.judge(text, got, want, f" (interrupted at {seen} by {[o[0] for o in others]})")
            obs.n("preemptions", len(waiting))
            for s in seen:
                obs.state(kind, s)

    def do_threads(self, case, obs):
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        problems = []
        start = threading.Barrier(4)
        steps = self.scale(800, 3000)
        plans = []
        for t in range(4):
            rng = self.rng("threads", case["n"], t)
            plans.append([self.question(rng, rng.choice([None, None, "find"]) if i % 200 == 0 else None) for i in range(steps)])

        def work(plan):
            start.wait()
            for text, ask, want in plan:
                try:
                    self.judge(text, ask(), want, " (with three other threads asking)")
                except vh.Violation as v:
                    problems.append(str(v))
                    return
                except Exception as e:
                    problems.append(f"{text} (with three other threads asking) raised {e!r}")
                    return

        threads = [threading.Thread(target=work, args=(p,), daemon=True) for p in plans]
        try:
            for t in threads:
                t.start()
            for t in threads:
                t.join(100)
                if t.is_alive():
                    fail("threads that ask questions never finish")
        finally:
            sys.setswitchinterval(old)
        if problems:
            fail(problems[0])
        obs.n("thread_answers", 4 * steps)
        obs.state("threads", case["n"])
