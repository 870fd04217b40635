"""Runs a check: makes its cases from VERIF_SEED, executes them against the code in /repo in forked workers while the
check's monitors watch, writes the evidence file and a replay file, and gives the verdict.

exit 0: the property held on everything observed; exit 1: violated (VIOLATION line); exit 2: inconclusive."""
import collections
import concurrent.futures
import hashlib
import json
import multiprocessing
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import threading
import time
import traceback

import repo

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_SECONDS = {"quick": 40, "thorough": 150}    # a case that takes longer is run again, counting loop iterations
JUMP_BUDGET = 60_000_000    # loop iterations inside the code under test after which a case counts as not terminating


class Violation(Exception):
    def __init__(self, message, key=None):
        super().__init__(message)
        self.key = key


class NonTermination(Violation):
    pass


class CaseTimeout(BaseException):
    pass


class StepBudget(BaseException):
    pass


class Inconclusive(Exception):
    pass


def beyond(rng, c):
    """An integer past the code space whose low bits are those of the code point c."""
    return c + (rng.choice([1, 1, 1, 1, 1, 3, rng.randrange(1, 256)]) << rng.choice([21, 24, 28, 31, 32, 32, 32, 48, 63, 64, 64, 64, 96]))


class Obs:
    """What the monitors of one case observed."""

    def __init__(self):
        self.counters = collections.Counter()
        self.states = set()
        self.samples = []

    def n(self, name, k=1):
        self.counters[name] += k

    def state(self, *key):
        """A distinct situation the monitors saw (hashed; only the number of them is reported)."""
        self.states.add(int.from_bytes(hashlib.blake2b(repr(key).encode(), digest_size=8).digest(), "big"))

    def sample(self, x):
        if len(self.samples) < 2:
            self.samples.append(x)


class Check:
    id = ""
    rule = ""
    assumptions = []
    needs = ()        # counters that must be positive, or the run is inconclusive

    def __init__(self, tier, seed):
        self.tier = tier
        self.seed = seed

    @property
    def thorough(self):
        return self.tier == "thorough"

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def rng(self, *key):
        return random.Random(repr((self.seed, self.id) + key))

    def setup(self):
        """Import the code under test (in the parent, before the workers are forked)."""

    def cases(self):
        raise NotImplementedError

    def run(self, case, obs):
        raise NotImplementedError

    def shrink(self, case):
        """Smaller candidates for a failing case."""
        return ()


def fail(message, key=None):
    raise Violation(message, key)


def expect(actual, wanted, what):
    if actual != wanted or type(actual) is not type(wanted) and not (
            isinstance(actual, (int, float)) and isinstance(wanted, (int, float))):
        fail(f"{what}: expected {wanted!r:.300}, observed {actual!r:.300}")


def _alarm(signum, frame):
    raise CaseTimeout()


def _under_repo(path):
    return os.path.abspath(path).startswith(os.path.abspath(repo.REPO) + os.sep)


def with_jump_budget(fn, budget):
    """Run fn, ending it once the code under test has made `budget` backward jumps."""
    mon = sys.monitoring
    tool = 4
    mon.use_tool_id(tool, "verif-steps")
    count = 0
    watched = set()

    def jump(code, src, dst):
        nonlocal count
        if id(code) not in watched:
            if not _under_repo(code.co_filename):
                return mon.DISABLE
            watched.add(id(code))
        if dst < src:
            count += 1
            if count > budget:
                raise StepBudget()

    mon.register_callback(tool, mon.events.JUMP, jump)
    mon.set_events(tool, mon.events.JUMP)
    try:
        return fn()
    finally:
        mon.set_events(tool, 0)
        mon.free_tool_id(tool)


def guarded(fn):
    """Run fn, turning everything the code under test may do wrong into a Violation."""
    def once(seconds):
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(seconds)
        try:
            return fn()
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)

    def waiting(timeout, cpu):
        """Whether it was idle in the code under test all the time (which reads files, and otherwise has nothing to wait for)."""
        tb = timeout.__traceback__
        while tb.tb_next and tb.tb_next.tb_frame.f_code is not _alarm.__code__:
            tb = tb.tb_next
        return _under_repo(tb.tb_frame.f_code.co_filename) and time.process_time() - cpu < seconds / 20

    seconds = CASE_SECONDS[_CHECK.tier]
    try:
        cpu = time.process_time()
        try:
            return once(seconds)
        except CaseTimeout as e:
            if waiting(e, cpu):
                cpu = time.process_time()
                try:
                    return once(seconds)
                except CaseTimeout as e:
                    if waiting(e, cpu):
                        raise NonTermination(f"never ends: it waits, and does nothing, for more than {seconds} s") from None
            try:
                return with_jump_budget(lambda: once(seconds * 5), JUMP_BUDGET)
            except CaseTimeout:
                raise Inconclusive("case ran out of time without a verdict")
    except (Violation, Inconclusive):
        raise
    except StepBudget:
        raise NonTermination(f"does not terminate: more than {JUMP_BUDGET} loop iterations in one case") from None
    except (Exception, RecursionError, SystemExit) as e:
        tb = traceback.format_exc().strip().splitlines()
        fail("unexpected exception " + repr(e)[:300] + "\n    " + "\n    ".join(tb[-8:]))


_CHECK = None
_KNOWN = {}


def _init_worker():
    limit = 3 << 30
    resource.setrlimit(resource.RLIMIT_AS, (limit, limit))
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def _work(cases):
    out = []
    for case in cases:
        obs = Obs()
        viol = None
        t = time.monotonic()
        try:
            guarded(lambda: _CHECK.run(case, obs))
        except Violation as v:
            viol = (str(v), v.key)
        except Inconclusive as e:
            viol = (None, str(e))
        out.append((case, dict(obs.counters), obs.states, obs.samples, viol, time.monotonic() - t))
        if viol and viol[1] not in _KNOWN:
            break
    return out


def shrink(check, case, message, seconds=20):
    """Greedy reduction of a failing case (best effort)."""
    end = time.monotonic() + seconds
    progress = True
    while progress and time.monotonic() < end:
        progress = False
        for cand in check.shrink(case):
            if time.monotonic() > end:
                break
            try:
                guarded(lambda: check.run(cand, Obs()))
            except Violation as v:
                case, message = cand, str(v)
                progress = True
                break
            except Inconclusive:
                pass
    return case, message


def known_findings(pid):
    """'known: property=<id> key=<key> <what fails>' lines of KNOWN_FINDINGS.txt, by key."""
    out = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            f = line.split(None, 3)
            if len(f) == 4 and f[0] == "known:" and f[1] == "property=" + pid and f[2].startswith("key="):
                out[f[2][4:]] = f[3].strip()
    return out


def end(pool):
    """Kill the workers.  The pool is then not waited for, which may take for ever: its thread may be reading a result of which a
    worker wrote only a part.  run.py ends without it."""
    workers = list((pool._processes or {}).values())
    for p in workers:
        p.kill()
    for p in workers:
        p.join(5)


def main(check_class, argv):
    tempfile.tempdir = tempfile.mkdtemp(prefix="verif-")
    try:
        return _main(check_class, argv)
    finally:
        shutil.rmtree(tempfile.tempdir, ignore_errors=True)


def _main(check_class, argv):
    global _CHECK, _KNOWN
    t0 = time.monotonic()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    replay = argv[argv.index("--replay") + 1] if "--replay" in argv else None
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if replay:
        rec = json.load(open(replay))
        tier, seed = rec["tier"], rec["seed"]
    check = _CHECK = check_class(tier, seed)
    known = _KNOWN = known_findings(check.id)
    total = Obs()
    ncases = 0
    distinct = set()
    violations = []
    inconclusive = []
    slowest = 0.0

    try:
        guarded(check.setup)
    except Violation as v:
        violations.append(({"setup": True}, "the code under test cannot be loaded: " + str(v), v.key))
    except Inconclusive as e:
        inconclusive.append("setup: " + str(e))

    if not violations and not inconclusive:
        if replay and rec["case"] is not None and "setup" not in rec["case"]:
            case_list = [rec["case"]]
        else:
            case_list = list(check.cases())
        workers = min(int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1), len(case_list)) or 1
        budget = check.scale(700, 3000)
        chunk = max(1, min(getattr(check, "chunk", 64), len(case_list) // (workers * 4) or 1))
        chunks = collections.deque(case_list[i:i + chunk] for i in range(0, len(case_list), chunk))
        ctx = multiprocessing.get_context("fork")
        pool = concurrent.futures.ProcessPoolExecutor(workers, mp_context=ctx, initializer=_init_worker)
        try:
            pending = set()
            stop = False
            while (chunks and not stop) or pending:
                while chunks and not stop and len(pending) < workers * 2:
                    pending.add(pool.submit(_work, chunks.popleft()))
                done, pending = concurrent.futures.wait(pending, timeout=5,
                                                        return_when=concurrent.futures.FIRST_COMPLETED)
                for f in done:
                    for case, counters, states, samples, viol, secs in f.result():
                        ncases += 1
                        slowest = max(slowest, secs)
                        if counters:
                            distinct.add(json.dumps(case, sort_keys=True))
                        total.counters.update(counters)
                        total.states |= states
                        for s in samples:
                            if len(total.samples) < 4:
                                total.samples.append(s)
                        if viol:
                            if viol[0] is None:
                                inconclusive.append(viol[1])
                            elif viol[1] not in known:
                                violations.append((case,) + tuple(viol))
                if len(violations) >= 1:
                    stop = True
                if violations:
                    # one is enough: cases that are still running may be slow to end, or never do
                    end(pool)
                    break
                if time.monotonic() - t0 > budget:
                    if chunks:
                        total.n("chunks_not_started_out_of_time", len(chunks))
                    stop = True
            if not violations:
                pool.shutdown()
        except concurrent.futures.process.BrokenProcessPool as e:
            end(pool)
            if not violations:
                inconclusive.append("a worker process died: " + str(e))

    for key, text in known.items():
        print(f"KNOWN-FINDING: property={check.id} {text}")

    if not violations and not inconclusive and not replay:
        for c in check.needs:
            if not total.counters[c]:
                inconclusive.append(f"the monitors observed no '{c}'")

    path = None
    if violations:
        case, message, key = violations[0]
        if "setup" not in case and "does not terminate" not in message:
            case, message = shrink(check, case, message)
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        digest = hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join("replay", f"{check.id}-{digest}.json")
        with open(os.path.join(VERIF, path), "w") as f:
            json.dump({"property": check.id, "tier": tier, "seed": seed, "case": case, "message": message}, f, indent=1)

    coverage = {
        "evaluations": ncases,
        "distinct_nontrivial": len(distinct),
        "distinct_states": len(total.states),
        "rule": check.rule + ". An evaluation is a case (a script of calls made from the seed); it is non-trivial if its "
                             "monitors observed something, and distinct by what it was made from",
        "observed": dict(sorted(total.counters.items())),
        "samples": total.samples or [json.loads(d) for d in list(distinct)[:2]],
        "slowest_case_s": round(slowest, 2),
    }
    wall = round(time.monotonic() - t0, 2)
    evidence = {"property": check.id, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage,
                "assumptions": list(check.assumptions), "wall_s": wall, "violations": len(violations)}
    if not replay:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", check.id + ".json"), "w") as f:
            json.dump(evidence, f, indent=1, default=str)

    print(f"{check.id} {tier} seed={seed}: {ncases} cases, {len(total.states)} distinct states, "
          f"{sum(total.counters.values())} observations, {wall}s")
    if violations:
        print(message[:3000])
        print(f"VIOLATION property={check.id} replay={path}")
        return 1
    if inconclusive:
        print("INCONCLUSIVE: " + "; ".join(inconclusive[:5]))
        return 2
    return 0
