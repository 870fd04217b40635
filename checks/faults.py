"""C39: builds and installations that cannot be completed, or are interrupted, and what comes after them."""
import io
import contextlib
import os
import re
import resource
import shutil
import sys
from pathlib import Path

import builders
import repo
import vh
from vh import fail

DECLARED = {"ubidi_props_data.h": ["ubidi_props_indexes", "ubidi_props_trieIndex", "ubidi_props_mirrors", "ubidi_props_jgArray",
                                   "ubidi_props_jgArray2", "ubidi_props_singleton"],
            "uchar_props_data.h": ["propsTrie_index", "propsTrie", "propsVectorsTrie_index", "propsVectorsTrie", "propsVectors",
                                   "propsVectorsColumns", "scriptExtensions"],
            "ucase_props_data.h": ["ucase_props_indexes", "ucase_props_trieIndex", "ucase_props_exceptions", "ucase_props_unfold",
                                   "ucase_props_singleton"]}
FAULTS = ["missing", "directory", "declaration", "version", "full", "full", "full", "blocked", "out_is_file", "interrupted", "interrupted",
          "interrupted"]


class Interrupted(KeyboardInterrupt):
    pass


def content(d):
    return {p.relative_to(d): p.read_bytes() for p in Path(d).rglob("*") if p.is_file()}


class C39(builders.C30):
    id = "C39"
    chunk = 1
    needs = ("builds_ended_by_a_fault", "installs_ended_by_a_fault", "interrupted", "writes_refused", "recoveries")
    assumptions = builders.C30.assumptions + ["a file that cannot be written is one beyond the process's limit on file sizes, or one in whose "
                                              "place there is a directory"]
    rule = ("builds and installations of random ICU trees with a fault: a source, data file or licence that is missing or a directory, a "
            "declaration or version that is absent, writing refused after a random number of bytes, a directory where an output "
            "belongs, an interruption at a random line of the scripts; the attempt must end with an error and leave its inputs as "
            "they were, and a repetition without the fault must give byte for byte, but for dates, what a build that met none gives; "
            "a state is a distinct (kind of fault, place)")

    def cases(self):
        for i in range(self.scale(64, 1500)):
            yield {"n": i}

    def work(self, case, obs, d):
        rng = self.rng(case["n"])
        made = self.tree(rng, vh.Obs(), d)
        inputs = content(made.src.parent), content(made.bld)
        ref, out = d / "ref", d / "out"
        ended, lines = self.attempt("build", made, ref, d, count=True)
        if ended is not None:
            fail(f"the build ends with {ended!r}")
        want = {n: self.dateless(c) for n, c in content(ref).items()}
        largest = max(p.stat().st_size for p in ref.iterdir())
        for _ in range(6):
            kind = rng.choice(FAULTS)
            place, cause, how = self.fault(kind, rng, made, out, largest, lines)
            ended, _ = self.attempt("build", made, out, d, **how)
            self.undo(cause)
            what = f"a build with fault {kind!r} at {place}"
            if (content(made.src.parent), content(made.bld)) != inputs:
                fail(f"{what} changed the ICU tree")
            if ended is None:
                have = {n: self.dateless(c) for n, c in content(out).items()} if out.is_dir() else {}
                if any(have.get(n) != c for n, c in want.items()) or kind not in ("full", "interrupted"):
                    fail(f"{what} reports success")
                obs.n("not_affected")
            else:
                obs.n("builds_ended_by_a_fault")
            if kind == "interrupted":
                obs.n("interrupted")
            if kind == "full" and ended is not None:
                obs.n("writes_refused")
            obs.state(kind, str(place))
            if rng.random() < .6:
                ended, _ = self.attempt("build", made, out, d)
                have = {n: self.dateless(c) for n, c in content(out).items()}
                if ended is not None:
                    fail(f"a build after {what} ends with {ended!r}")
                self.same(have, want, f"after {what}")
                obs.n("recoveries")
                if rng.random() < .5:
                    shutil.rmtree(out)
        self.installs(rng, obs, d, ref)
        obs.sample({"largest output": largest, "lines": lines[0]})

    def same(self, have, want, what):
        for n, c in want.items():
            if have.get(n) != c:
                fail(f"{n} is {'missing' if n not in have else 'not what belongs there'} {what}")

    def installs(self, rng, obs, d, ref):
        inst = d / "inst"
        pkg = inst / "UnicodeData"
        shutil.copytree(Path(repo.REPO) / "UnicodeData", pkg, ignore=shutil.ignore_patterns("__pycache__", "Data"))
        (pkg / "Data").mkdir()
        given = content(ref)
        want = {(n if n.suffix == ".py" else Path("Data") / n): c for n, c in given.items()}
        others = {n: c for n, c in content(pkg).items() if n not in want}
        _, lines = self.attempt("install", None, ref, inst, count=True)
        for _ in range(4):
            for n in want:
                if rng.random() < .3:
                    (pkg / n).write_bytes(rng.choice([b"# old\n", want[n][::-1]]))
                elif rng.random() < .1:
                    (pkg / n).unlink(missing_ok=True)
            kind = rng.choice(["missing", "missing", "absent", "full", "full", "blocked", "interrupted", "interrupted"])
            source, cause, how, place = ref, [], {}, ""
            if kind == "missing":
                place = rng.choice(["icudata.dat", "LICENSE"])
                cause.append(self.move(ref / place))
            elif kind == "absent":
                source = d / "none"
                before = content(pkg)
            elif kind == "full":
                place = how["limit"] = rng.choice([0, 1, rng.randrange(200), rng.randrange(max(len(c) for c in given.values()))])
            elif kind == "blocked":
                place = rng.choice(sorted(want))
                cause.append(self.block(pkg / place))
            else:
                place = how["stop"] = self.when(rng, lines)
            ended, _ = self.attempt("install", None, source, inst, **how)
            self.undo(cause)
            what = f"an installation with fault {kind!r} at {place}"
            if content(ref) != given:
                fail(f"{what} changed what was built")
            have = content(pkg)
            if ended is None and (kind != "interrupted" or any(have.get(n) != c for n, c in want.items())):
                fail(f"{what} reports success")
            if ended is not None:
                obs.n("installs_ended_by_a_fault")
            if kind == "absent" and have != before:
                fail(f"{what} changed the package")
            self.same(have, others, f"after {what}")
            obs.state("install", kind, str(place))
            if rng.random() < .6:
                ended, _ = self.attempt("install", None, ref, inst)
                if ended is not None:
                    fail(f"an installation after {what} ends with {ended!r}")
                self.same(content(pkg), {**others, **want}, f"in the package after {what} and another installation")
                obs.n("recoveries")

    def fault(self, kind, rng, made, out, largest, lines):
        """Bring it about -> its place, what to undo, arguments of the attempt."""
        src = made.src
        files = [src / "common" / n for n in list(DECLARED) + ["uprops.h", "ucase.h"]]
        files += [src / "common/unicode" / n for n in ("uchar.h", "uscript.h", "uvernum.h")] + [src / "data/unidata/ppucd.txt"]
        files += [src.parent / "LICENSE"] + [p for p in (made.bld / "data/out").iterdir() if p.read_bytes() == made.dat]
        if kind in ("missing", "directory"):
            p = rng.choice(files)
            cause = [self.move(p)]
            if kind == "directory":
                p.mkdir()
                cause.append(p)
            return p.name, cause, {}
        if kind == "declaration":
            f = rng.choice(sorted(DECLARED))
            n = rng.choice(DECLARED[f])
            return n, [self.edit(src / "common" / f, lambda t: re.sub(r"\b%s(?=\[|=)" % n, "x" + n, t))], {}
        if kind == "version":
            f, line = rng.choice([("common/unicode/uvernum.h", '#define U_ICU_VERSION "'), ("common/unicode/uvernum.h", "#define U_ICU_VERSION_SHORT"),
                                  ("data/unidata/ppucd.txt", "ucd;")])
            cut = lambda t: "".join(l for l in t.splitlines(True) if not l.startswith(line))
            return line, [self.edit(src / f, cut)], {}
        if kind == "full":
            n = rng.choice([0, 1, 500, 4096, 8192, rng.randrange(largest), rng.randrange(20000), largest - 1, largest])
            return n, [], {"limit": n}
        if kind == "blocked":
            n = rng.choice(sorted(p.name for p in (out.parent / "ref").iterdir() if p.name != "icudata.dat"))
            return n, [self.block(out / n)], {}
        if kind == "out_is_file":
            old = self.move(out) if out.exists() else None
            out.write_text("a file")
            return "", [out] + ([old] if old else []), {}
        n = self.when(rng, lines)
        return n, [], {"stop": n}

    def when(self, rng, lines):
        """A moment of the execution: any line executed, or the first or last time a line is."""
        total, first, last = lines
        return rng.choice([rng.randrange(total), rng.choice(first), rng.choice(last), total - 1 - rng.randrange(min(total, 30))])

    def move(self, p):
        q = p.with_name("moved away " + p.name)
        p.rename(q)
        return q, p

    def edit(self, p, change):
        t = self.move(p)
        text = t[0].read_text(encoding="utf-8")
        new = change(text)
        if new == text:
            raise vh.Inconclusive(f"{p.name} has nothing to change")
        p.write_text(new, encoding="utf-8")
        return t

    def block(self, p):
        """A directory where a file belongs; what was there is not kept."""
        if p.exists():
            p.unlink()
        (p / "full of/things").mkdir(parents=True)
        return p

    def undo(self, cause):
        for c in reversed(cause) if not any(isinstance(c, tuple) for c in cause) else sorted(cause, key=lambda c: isinstance(c, tuple)):
            if isinstance(c, tuple):
                if c[1].is_dir():
                    shutil.rmtree(c[1])
                c[0].replace(c[1])
            elif c.is_dir():
                shutil.rmtree(c)
            elif c.exists():
                c.unlink()

    def attempt(self, script, made, out, cwd, limit=None, stop=None, count=False):
        """-> (None if it reports success, or how it ends; when the scripts' lines were executed: how many, the first and last times)"""
        if script == "build":
            call = (self.mb, self.mb.build, ["ModuleBuilder.py", "--sourceDir", str(made.src), "--buildDir", str(made.bld),
                                             "--outputDir", str(out)], cwd)
        else:
            call = (self.installer, self.installer.install, ["ModuleInstaller.py", str(out)], cwd)
        home = os.path.join(os.path.abspath(repo.REPO), "module_builder") + os.sep
        seen = 0
        first, at = {}, {}
        moments = lambda: (seen, sorted(first.values()), sorted(at.values()))

        def local(frame, event, arg):
            nonlocal seen
            if event == "line":
                seen += 1
                at[frame.f_code, frame.f_lineno] = seen - 1
                first.setdefault((frame.f_code, frame.f_lineno), seen - 1)
                if seen - 1 == stop:
                    raise Interrupted()
            return local

        old = resource.getrlimit(resource.RLIMIT_FSIZE)
        if limit is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, old[1]))
        if count or stop is not None:
            sys.settrace(lambda f, e, a: local if os.path.abspath(f.f_code.co_filename).startswith(home) else None)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                code, err = self.call(*call)
            return (None if code in (None, 0) else f"status {code}: {err[-300:]}"), moments()
        except (Exception, Interrupted) as e:
            return e, moments()
        finally:
            sys.settrace(None)
            resource.setrlimit(resource.RLIMIT_FSIZE, old)
