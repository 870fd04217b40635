"""Runs in a fresh interpreter, started by checks/settings.py with whatever settings: imports modules of the package in the
order given, then runs cases of other checks, and reports what their monitors saw as one line of JSON."""
import json
import os
import sys

sys.dont_write_bytecode = True


def ask_all(repo, vh, rng, data):
    """Every lookup, at points where its answers change."""
    import inventory
    import props
    asked = 0
    for n, t in props.tables().items():
        module, factory, kind = inventory.entries()[n]
        if module == "LayoutProps" and not data:
            continue
        fn = factory(repo.mod(module))
        for c in rng.sample(t.starts, min(len(t.starts), 12)) + [rng.randrange(0x110000), 0x41, 0x31]:
            got = fn(c)
            if got != t.get(c):
                raise vh.Violation(f"{n}({c:#x}) should be {t.get(c)!r}, is {got!r}")
            asked += 1
    return asked


def main():
    job = json.loads(sys.stdin.read())
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path[:0] = [here, os.path.join(os.path.dirname(here), "checks")]
    import gc
    import random
    import repo
    import vh
    out = {"observed": 0, "imports": 0, "cases": 0}
    if job["gc"] == "off":
        gc.disable()
    elif job["gc"] == "often":
        gc.set_threshold(50, 2, 2)
    if job["data"]:
        repo.use_installed()
    at = ""
    try:
        for n in job["imports"]:
            at = "importing " + ", ".join(job["imports"][:out["imports"] + 1])
            repo.mod(n)
            out["imports"] += 1
        if job.get("build"):
            at = "building with " + " ".join(job["build"])
            sys.argv[:] = ["ModuleBuilder.py"] + job["build"]
            try:
                repo.builder("ModuleBuilder").build()
            except (Exception, SystemExit) as e:
                if not isinstance(e, SystemExit) or e.code:
                    raise vh.Violation(f"it ends with {e!r}")
        if job["imports"]:
            at = "asking after importing " + ", ".join(job["imports"])
            out["lookups"] = ask_all(repo, vh, random.Random(job["seed"]), job["data"])
        import run
        for pid, count in job["jobs"]:
            at = "in a case of " + pid
            vh._CHECK = check = run.find(pid)(job["tier"], job["seed"])
            vh.guarded(check.setup)
            cases = list(check.cases())
            for case in random.Random(job["seed"]).sample(cases, min(count, len(cases))):
                at = f"in case {json.dumps(case)} of {pid}"
                obs = vh.Obs()
                vh.guarded(lambda: check.run(case, obs))
                out["observed"] += sum(obs.counters.values())
                out["cases"] += 1
    except vh.Inconclusive as e:
        out["inconclusive"] = f"{at}: {e}"
    except vh.Violation as e:
        out["violation"] = f"{at}: {e}"
    except (Exception, SystemExit) as e:
        if at.startswith(("importing", "asking")):
            out["violation"] = f"{at} ends with {e!r}"
        else:
            import traceback
            out["inconclusive"] = f"{at}: " + traceback.format_exc()[-1500:]
    sys.stdout.flush()
    print("\nRESULT " + json.dumps(out), flush=True)


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    main()
