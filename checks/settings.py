"""C38: whatever way Python is run, wherever the package is installed and whichever of its modules is imported first."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

import builders
import repo
import vh
from vh import Check, fail

# what needs nothing but the modules, and can be asked without the data file; then what leaves other data behind
CLEAN = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C18", "C19",
         "C25", "C32"]
LAST = ["C34", "C35", "C36"]
LAST_FROM_FILE = ["C17", "C20", "C21", "C22", "C23", "C24", "C26", "C37"]
BUILDER = ["C27", "C28", "C29"]
NEED_FILE = {"CharNames", "ICUDataFile", "LayoutProps", "Normalizer2"}
FLAGS = [[], ["-O"], ["-O"], ["-OO"], ["-X", "dev"], ["-X", "utf8=1"], ["-s"], ["-X", "importtime"], ["-X", "frozen_modules=off"],
         ["-X", "int_max_str_digits=640"], ["-b"], ["-u"]]
SECONDS = 400


class C38(Check):
    id = "C38"
    chunk = 1
    needs = ("interpreters", "first_imports", "cases", "built_twice", "without_the_data_file", "optimised")
    assumptions = ["the modules that may need the data file are those that do today: CharNames, ICUDataFile, LayoutProps, Normalizer2"]
    rule = ("a copy of the package, installed in a directory of a random name with its data file in place (or without it), in fresh "
            "interpreters with random settings (optimisation, hash seed, locale, encoding, development mode, working directory, "
            "environment, garbage collection), which import its modules in random orders - each module first in some - and then run "
            "cases of the other checks under those checks' monitors; and whole ICU trees built by two interpreters with different "
            "settings, which must give the same modules; a state is a distinct setting or import order")

    def setup(self):
        self.package = repo.real_package()
        self.modules = sorted(n[:-3] for n in os.listdir(os.path.join(repo.REPO, "UnicodeData"))
                              if n.endswith(".py") and n != "__init__.py")

    def cases(self):
        for i in range(self.scale(64, 1600)):
            yield {"mode": "ask", "n": i}
        for i in range(self.scale(8, 160)):
            yield {"mode": "build", "n": i}

    def run(self, case, obs):
        d = tempfile.mkdtemp(prefix="verif-set-")
        try:
            getattr(self, case["mode"])(self.rng(case["mode"], case["n"]), case["n"], obs, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def settings(self, rng, site, utf8):
        """Flags of the interpreter, and an environment."""
        flags = list(rng.choice(FLAGS))
        env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "LC_", "LANG", "VERIF_"))}
        env.update({"VERIF_REPO": site, "PYTHONHASHSEED": str(rng.choice([0, 1, rng.randrange(1 << 32)])),
                    "TMPDIR": tempfile.gettempdir()})
        if rng.random() < .7:
            env["LC_ALL"] = rng.choice(["C", "POSIX", "C.UTF-8", "en_US.UTF-8", "tr_TR.UTF-8", "nonsense"])
        if not utf8 and rng.random() < .3 and flags != ["-X", "utf8=1"]:
            env.update(PYTHONUTF8="0", PYTHONCOERCECLOCALE="0", LC_ALL="C")
        if rng.random() < .5:
            env["TZ"] = rng.choice(["UTC", "Asia/Kolkata", "America/St_Johns", "XYZ+11"])
        if rng.random() < .3:
            env.pop("HOME", None)
        return flags, env

    def child(self, job, flags, env, cwd, what):
        job = {"imports": [], "jobs": [], "data": False, "gc": "", "tier": "quick", **job}
        what += (f" under python {' '.join(flags)}, environment "
                 f"{ {k: env[k] for k in sorted(env) if k.startswith(('PYTHON', 'LC_', 'TZ'))} }")
        child = os.path.join(os.path.dirname(os.path.abspath(vh.__file__)), "child.py")
        try:
            p = subprocess.run([sys.executable, "-B"] + flags + [child], input=json.dumps(job), capture_output=True, text=True,
                               env=env, cwd=cwd, timeout=SECONDS, errors="replace", encoding="utf-8")
        except subprocess.TimeoutExpired:
            raise vh.Inconclusive("an interpreter ran out of time: " + what)
        line = next((l for l in p.stdout.splitlines() if l.startswith("RESULT ")), None)
        if line is None:
            raise vh.Inconclusive(f"an interpreter ended with {p.returncode}, {what}: {p.stderr[-600:]}")
        result = json.loads(line[7:])
        if "violation" in result:
            fail(f"{result['violation']}\n    {what}")
        if "inconclusive" in result:
            raise vh.Inconclusive(f"{result['inconclusive']}; {what}")
        return result

    def build(self, rng, n, obs, d):
        """One ICU tree built by two interpreters: the modules are the same, but for the date."""
        tree = builders.C30(self.tier, self.seed)
        tree.setup()
        made = tree.tree(rng, vh.Obs(), Path(d))
        results = []
        for k in range(2):
            flags, env = self.settings(rng, repo.REPO, True)
            env["PYTHONHASHSEED"] = str(1 + n + k * 1000)
            cwd = os.path.join(d, f"cwd{k}")
            os.mkdir(cwd)
            out = os.path.join(d, f"out{k}")
            opts = [("--sourceDir", str(made.src)), ("--buildDir", str(made.bld)), ("--outputDir", out)]
            rng.shuffle(opts)
            self.child({"build": [x for o in opts for x in o]}, flags, env, cwd, "building")
            if os.listdir(cwd):
                fail(f"the build left {os.listdir(cwd)} in the working directory")
            results.append(({f: tree.dateless(Path(out, f).read_bytes()) for f in os.listdir(out)}, flags, env))
        (one, *how1), (two, *how2) = results
        for f in sorted(set(one) | set(two)):
            if one.get(f) != two.get(f):
                fail(f"{f} built from one tree by two interpreters differs (flags {how1[0]} and {how2[0]}, hash seeds "
                     f"{how1[1]['PYTHONHASHSEED']} and {how2[1]['PYTHONHASHSEED']})")
        obs.n("built_twice", len(one))
        obs.state("build", made.version)

    def ask(self, rng, n, obs, d):
        first = self.modules[n % len(self.modules)]
        data = first in NEED_FILE or rng.random() < .6
        site = os.path.join(d, rng.choice(["site-packages", "a b", "Zeichen-é-字", "lib.zip.d", "UnicodeData"]))
        pkg = os.path.join(site, "UnicodeData")
        shutil.copytree(os.path.join(repo.REPO, "UnicodeData"), pkg, ignore=shutil.ignore_patterns("__pycache__", "Data"))
        os.mkdir(os.path.join(pkg, "Data"))
        if data:
            with open(os.path.join(pkg, "Data", "icudata.dat"), "wb") as f:
                f.write(self.package)
        builder = rng.random() < .25
        if builder:
            shutil.copytree(os.path.join(repo.REPO, "module_builder"), os.path.join(site, "module_builder"),
                            ignore=shutil.ignore_patterns("__pycache__"))
        cwd = os.path.join(d, "elsewhere")
        os.makedirs(cwd)
        if rng.random() < .6:      # what is not the installed package's, and is no business of it
            for f in ("UnicodeData/Data/icudata.dat", "Data/icudata.dat", "icudata.dat", "UnicodeData/uchar_h.py", "uchar_h.py"):
                os.makedirs(os.path.dirname(os.path.join(cwd, f)), exist_ok=True)
                with open(os.path.join(cwd, f), "w") as g:
                    g.write("raise SystemExit('of the working directory')")
        before = self.listing(cwd)
        flags, env = self.settings(rng, site, builder)      # the sources of ICU are UTF-8: those need it
        order = [m for m in self.modules if data or m not in NEED_FILE]
        rng.shuffle(order)
        order = [first] + [m for m in order[:rng.choice([0, 1, 3, len(order)])] if m != first]
        jobs = [[x, rng.choice([1, 2, 3])] for x in rng.sample(CLEAN, 2)]
        if builder:
            jobs.append([rng.choice(BUILDER), 2])
        jobs.append([rng.choice(LAST_FROM_FILE * 2 + LAST if data else LAST), 3])
        job = {"imports": order, "jobs": jobs, "data": data, "gc": rng.choice(["", "", "off", "often"]), "seed": rng.randrange(1 << 30)}
        result = self.child(job, flags, env, cwd, f"in {os.path.basename(site)!r}, data file {'in place' if data else 'absent'}, jobs {jobs},")
        if self.listing(cwd) != before:
            fail(f"the package changed the working directory from {before} to {self.listing(cwd)}")
        obs.n("interpreters")
        obs.n("first_imports")
        obs.n("imports", result["imports"])
        obs.n("cases", result["cases"])
        obs.n("lookups", result["lookups"])
        obs.n("observations", result["observed"])
        obs.n("with_the_data_file" if data else "without_the_data_file")
        if flags[:1] in (["-O"], ["-OO"]):
            obs.n("optimised")
        obs.state("settings", flags, sorted(k + "=" + v for k, v in env.items() if k.startswith(("PYTHON", "LC_"))))
        obs.state("order", order)
        obs.sample({"flags": flags, "first import": first, "jobs": jobs, "data": data})

    def listing(self, d):
        return sorted(os.path.relpath(os.path.join(p, f), d) for p, _, fs in os.walk(d) for f in fs)
