"""C26: the ICU data package reader; C33: first use from several threads (preempted at each line)."""
import itertools
import os
import struct
import sys
import threading
import time

import names
import props
import repo
import vh
from vh import Check, fail

WORD = "abcdefghijklmnopqrstuvwxyz_0123456789"


def fresh():
    for m in ("UnicodeData.CharNames", "UnicodeData.LayoutProps", "UnicodeData.Normalizer2", "UnicodeData.ICUDataFile"):
        sys.modules.pop(m, None)
    return repo.mod("ICUDataFile").ICUData


def random_items(rng):
    """[(name, bytes, header fields)] with MappedData headers."""
    out = []
    seen = set()
    for _ in range(rng.choice([1, 2, 3, 8, 40])):
        name = "".join(rng.choice(WORD) for _ in range(rng.randint(1, 12))) + rng.choice([".res", ".icu", ".nrm", ".brk"])
        if rng.random() < .25:
            name = rng.choice(["zone/", "curr/", "a/b/"]) + name
        if out and rng.random() < .3:
            # like another item's name, and more
            other = rng.choice(out)[0]
            name = rng.choice([other + rng.choice(WORD), other + rng.choice([".res", ".icu", "/x.res"]), rng.choice(WORD) + other,
                               "zone/" + other, other[:-1] or other, other[:-4] or other, other.replace(".", "_x."), other.upper()])
        if name in seen:
            continue
        seen.add(name)
        hlen = rng.choice([24, 32, 48, 64, 176])
        f = dict(headerLength=hlen, magic1=0xda, magic2=0x27, infoSize=20, reservedWord=rng.choice([0, 7]), isBigEndian=0,
                 charsetFamily=0, sizeofUChar=2, reservedByte=0, dataFormat=bytes(rng.choice(b"ABCDunm2") for _ in range(4)))
        for k in ("fvMajor", "fvMinor", "fvMilli", "fvMicro", "dvMajor", "dvMinor", "dvMilli", "dvMicro"):
            f[k] = rng.randrange(256)
        head = struct.pack("<HBBHHBBBB4s8B", *f.values())
        body = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 5, 100])))
        if rng.random() < .5:
            body += b"text\0more\xe9\0"
        elif rng.random() < .3:
            body = bytes(rng.randrange(1, 256) for _ in range(rng.choice([1, 63, 64, 127, 128, 255, 256, 257, 1023, 1024, 5000]))) + b"\0" + body
        out.append((name, head + b"\0" * (hlen - 24) + body, f))
    return out


def random_package(rng, items):
    order = [(n, d) for n, d, _ in items]
    how = "sorted"
    if rng.random() < .4:
        rng.shuffle(order)
        how = "given"
    return repo.build_package(order, header_extra=rng.choice([0, 16, 96]), prefix=rng.choice(["icudt74l/", "icudt67l/", "x/"]),
                              align=rng.choice([1, 2, 4, 16, 64]), copyright=rng.choice([b"", b" Copyright (C) 2016 and later "]),
                              order=how)


class PackageCheck(Check):
    def check_items(self, data, package, items, obs):
        held = [(n, f, data.getDataOffsetAndHeader(n)[1]) for n, _, f in items]
        for name, content, f in items:
            off, head = data.getDataOffsetAndHeader(name)
            if data.getDataOffset(name) != off:
                fail(f"two offsets of {name}: {off} and {data.getDataOffset(name)}")
            if package[off:off + len(content)] != content:
                fail(f"{name} does not start at offset {off} of the package")
            if bytes(data.getData(off, off + len(content))) != content:
                fail(f"getData does not give the bytes of {name}")
            self.check_header(name, head, f, "")
            if f["headerLength"] + 2 < len(content):
                a = off + f["headerLength"]
                b = off + len(content)
                if bytes(data.getData(a + 1, b)) != content[f["headerLength"] + 1:]:
                    fail(f"getData({a + 1}, {b}) gives other bytes")
                if b"\0" in content[f["headerLength"]:]:
                    w = content[f["headerLength"]:].split(b"\0")[0].decode("latin-1")
                    if data.getString(a) != w:
                        fail(f"getString({a}) should be {w!r}, is {data.getString(a)!r}")
                    obs.n("strings")
            obs.n("items")
        for name, f, head in held:
            self.check_header(name, head, f, ", kept while others were asked for,")

    def check_header(self, name, head, f, when):
        for k, v in f.items():
            g = getattr(head, k)
            if k == "dataFormat" and isinstance(g, str):
                g = g.encode("latin-1")
            if g != v:
                fail(f"field {k} of the header of {name}{when} should be {v!r}, is {g!r}")


class C26(PackageCheck):
    id = "C26"
    chunk = 4
    needs = ("packages", "items", "strings", "missing_items", "failed_loads", "recovered", "big_packages")
    assumptions = ["packages are little-endian and well formed, or cut short, empty, without contents or absent"]
    rule = ("random packages (item counts, names with directories, order, alignment, header sizes, comments) read through every "
            "accessor; items that are absent; packages of more than 65536 items, of more than 16 MB and with long names; histories in which the file is missing, cut at random places or unusable at first "
            "and good later, in the same process; a state is a distinct package or kind of failure")

    def cases(self):
        for i in range(self.scale(400, 20000)):
            yield {"mode": "read", "n": i}
        for i in range(self.scale(160, 6000)):
            yield {"mode": "fail", "n": i}
        for i in range(self.scale(3, 12)):
            yield {"mode": "big", "n": i}

    def run(self, case, obs):
        rng = self.rng(case["mode"], case["n"])
        self.n_of_case = case["n"]
        items = random_items(rng)
        package = random_package(rng, items)
        path = repo.install_data(package)
        try:
            getattr(self, "do_" + case["mode"])(rng, items, package, path, obs)
        finally:
            if os.path.exists(path):
                os.unlink(path)

    def do_big(self, rng, items, package, path, obs):
        """Very many items, or very large ones, so that no field of the table of contents fits in fewer bytes."""
        kind = ("many", "large", "long names")[self.n_of_case % 3]
        if kind == "many":
            small = random_items(rng)
            more = [(f"n{i:05}.res", b"", {}) for i in range(rng.choice([65530, 65536, 70000]))]
            chosen = small + [more[0], more[-1]] + rng.sample(more, 20)
            items = small + more
        elif kind == "large":
            chosen = items = random_items(rng)[:8]
            pad = ("aaaa.bin", bytes(rng.choice([1 << 16, 1 << 24, (1 << 24) + 7])), {})
            items = [pad] + items
        else:
            chosen = items = [("d" * rng.choice([100, 255, 256, 1000]) + n, d, f) for n, d, f in random_items(rng)]
        package = repo.build_package([(n, d) for n, d, _ in items], align=16, order="given")
        with open(path, "wb") as f:
            f.write(package)
        data = fresh()()
        for i in chosen:
            if i[2]:
                self.check_items(data, package, [i], obs)
            else:
                data.getDataOffset(i[0])
        for a, b in ((0, len(package)), (7, len(package) - 1), sorted(rng.randrange(len(package)) for _ in range(2))):
            if bytes(data.getData(a, b)) != package[a:b]:
                fail(f"getData({a}, {b}) gives other bytes")
        self.missing(data, items, rng, obs)
        obs.n("big_packages")
        obs.state("big", kind, len(items))

    def missing(self, data, items, rng, obs, extra=()):
        for n in ["nope.icu", items[0][0] + "x", items[0][0].upper(), ""] + list(extra):
            if any(n == i[0] for i in items):
                continue
            for f in (data.getDataOffset, data.getDataOffsetAndHeader):
                try:
                    g = f(n)
                except KeyError:
                    obs.n("missing_items")
                else:
                    fail(f"{f.__name__}({n!r}) gives {g!r}: the package has no such item")

    def do_read(self, rng, items, package, path, obs):
        cls = fresh()
        one = cls()
        self.check_items(one, package, items, obs)
        self.missing(one, items, rng, obs)
        # later instances, and after the file is gone
        os.unlink(path)
        two = cls()
        rng.shuffle(items)
        self.check_items(two, package, items, obs)
        self.check_items(cls, package, items, obs)
        obs.n("packages")
        obs.state("package", [(i[0], len(i[1])) for i in items])
        obs.sample({"items": [i[0] for i in items][:4]})

    def do_fail(self, rng, items, package, path, obs):
        cls = fresh()
        toc = struct.unpack_from("<H", package)[0]
        first = struct.unpack_from("<I", package, toc + 8)[0]        # where the contents begin, from the table of contents
        old = random_items(rng)
        for _ in range(rng.randint(1, 3)):
            kind = rng.choice(["absent", "directory", "empty", "cut in header", "cut in contents table", "cut in names", "no prefix", "one without prefix"])
            bad = None
            if kind == "empty":
                bad = b""
            elif kind == "cut in header":
                bad = random_package(rng, old)[:rng.randrange(1, 24)]
            elif kind == "cut in contents table":
                p = random_package(rng, old)
                h = struct.unpack_from("<H", p)[0]
                bad = p[:rng.randrange(h + 1, h + 4 + 8 * len(old))]
            elif kind == "cut in names":
                p = random_package(rng, old)
                h, = struct.unpack_from("<H", p)
                n, = struct.unpack_from("<I", p, h)
                # inside the name that is listed last, so that the others can be read
                at = h + max(struct.unpack_from("<I", p, h + 4 + 8 * i)[0] for i in range(n))
                bad = p[:rng.randrange(at, p.index(b"\0", at) + 1)]
            elif kind == "one without prefix":
                old = [x for x in old if "/" not in x[0]] or [("a.icu", b"", {}), ("b.icu", b"", {})]
                bad = repo.build_package([(n, d) for n, d, _ in old], prefix="icudt74l/", order="given")
                k = bad.rindex(b"icudt74l/")
                bad = bad[:k + 8] + b"_" + bad[k + 9:]
            elif kind == "no prefix":
                bad = repo.build_package([(n, d) for n, d, _ in old], prefix="icudt74l/").replace(b"icudt74l/", b"icudt74l_")
                bad = bad.replace(b"/", b"_") if b"/" in bad else bad
            if os.path.isdir(path):
                os.rmdir(path)
            elif os.path.exists(path):
                os.unlink(path)
            if kind == "directory":
                os.mkdir(path)
            elif bad is not None:
                with open(path, "wb") as f:
                    f.write(bad)
            for _ in range(rng.randint(1, 2)):
                try:
                    d = cls()
                except Exception:
                    obs.n("failed_loads")
                    continue
                # nothing was reported: then nothing may be there
                try:
                    d.getDataOffsetAndHeader(items[0][0])
                except KeyError:
                    obs.n("empty_loads")
                else:
                    fail(f"a data file that is {kind} was read, and has {items[0][0]}")
                if bad:
                    fail(f"a data file that is {kind} was accepted")
            obs.state("failure", kind)
        if os.path.isdir(path):
            os.rmdir(path)
        with open(path, "wb") as f:
            f.write(package)
        data = cls()
        self.check_items(data, package, items, obs)
        self.missing(data, items, rng, obs, [n for n, _, _ in old])
        obs.n("recovered")


class C33(PackageCheck):
    """The reader and its clients, first used from two threads."""
    id = "C33"
    chunk = 1
    needs = ("preemptions", "items", "parallel_imports")
    assumptions = ["a thread that is preempted may be preempted at any line of the package's code; other threads then run until "
                   "they finish or wait"]
    rule = ("one thread opens the data file and reads every item, and is stopped at its k-th line, while another does the same "
            "from beginning to end (for a moment, and for 3 s in some of the cases); three threads load the names, layout and normalization modules at once with very short time slices; a "
            "state is a distinct line at which the first thread was stopped")

    def cases(self):
        for k in range(self.scale(600, 6000)):
            yield {"mode": "preempt", "n": k}
        # a slow disk: the one that loads the file is stopped for seconds, not for a moment
        for k in range(self.scale(16, 60)):
            yield {"mode": "preempt", "n": k, "hold": 3}
        for i in range(self.scale(16, 200)):
            yield {"mode": "imports", "n": i}

    def run(self, case, obs):
        getattr(self, "do_" + case["mode"])(case, obs)

    def do_preempt(self, case, obs):
        rng = self.rng(case["n"] // 60)
        while True:
            items = [i for i in random_items(rng)[:4] if len(i[1]) < 400]
            if items:
                break
        package = random_package(rng, items)
        path = repo.install_data(package)
        cls = fresh()
        filename = sys.modules["UnicodeData.ICUDataFile"].__file__
        # each of the lines of loading the file, or any line until the items have been read
        lines = self.lines_of(items, package, path, filename)
        stop_at = case["n"] % 60 if case["n"] < 120 else self.rng(case["n"]).randrange(lines)
        cls = fresh()
        where = []
        go = threading.Event()
        done = threading.Event()
        problems = []
        count = 0

        def use(label):
            try:
                d = cls()
                self.check_items(d, package, items, obs)
            except vh.Violation as v:
                problems.append(f"{label}: {v}")
            except Exception as e:
                problems.append(f"{label}: {e!r}")

        def line(frame, event, arg):
            nonlocal count
            if event == "line":
                if count == stop_at:
                    where.append(frame.f_lineno)
                    go.set()
                    done.wait(case.get("hold", .05))
                count += 1
            return line

        def trace(frame, event, arg):
            return line if frame.f_code.co_filename == filename else None

        def first():
            sys.settrace(trace)
            try:
                use("the first thread")
            finally:
                sys.settrace(None)
                go.set()

        def second():
            go.wait(10)
            use("the second thread")
            done.set()

        threads = [threading.Thread(target=first, daemon=True), threading.Thread(target=second, daemon=True)]
        try:
            for t in threads:
                t.start()
            for t in threads:
                t.join(15)
                if t.is_alive():
                    fail(f"a thread never finishes (the first one was stopped at line {where})")
        finally:
            os.unlink(path)
        if problems:
            fail(f"the first thread was stopped at its line {stop_at} ({where}): " + "; ".join(problems))
        if where:
            obs.n("preemptions")
            obs.state(where[0], stop_at)

    def lines_of(self, items, package, path, filename):
        """How many lines of the reader one thread executes."""
        cls = fresh()
        count = 0

        def line(frame, event, arg):
            nonlocal count
            count += event == "line"
            return line

        sys.settrace(lambda frame, event, arg: line if frame.f_code.co_filename == filename else None)
        try:
            self.check_items(cls(), package, items, vh.Obs())
        finally:
            sys.settrace(None)
        return max(count, 1)

    def do_imports(self, case, obs):
        repo.install_data()
        fresh_modules = ["CharNames", "LayoutProps", "Normalizer2"]
        fresh()
        sys.modules.pop("UnicodeData.ICUDataFile", None)
        self.rng(case["n"]).shuffle(fresh_modules)
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        problems = []
        start = threading.Barrier(3)

        def load(name):
            start.wait()
            try:
                m = repo.mod(name)
                got = {"CharNames": lambda: m.CharNames.getCharName(0x41), "LayoutProps": lambda: m.getInSC(0x915),
                       "Normalizer2": lambda: m.nfkcTrie.getDecomposition(0xFB01)}[name]()
                want = {"CharNames": "LATIN CAPITAL LETTER A", "LayoutProps": props.tables()["getInSC"].get(0x915),
                        "Normalizer2": "fi"}[name]
                if got != want:
                    problems.append(f"{name}: {got!r} instead of {want!r}")
            except BaseException as e:
                problems.append(f"loading {name}: {e!r}")

        threads = [threading.Thread(target=load, args=(n,), daemon=True) for n in fresh_modules]
        try:
            for t in threads:
                t.start()
            for t in threads:
                t.join(30)
                if t.is_alive():
                    fail("loading modules from three threads never finishes")
        finally:
            sys.setswitchinterval(old)
        if problems:
            fail("; ".join(problems))
        obs.n("parallel_imports")
        obs.state("imports", fresh_modules)
