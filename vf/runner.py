"""Runs one check: python -m vf.runner C01 [--replay FILE] [--only SUB] [--scale X]"""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import queue
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
# hypothesis comes from the preinstalled tools; everything else from the project's own venv
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

SHRINK_SECONDS = float(os.environ.get("VF_SHRINK", "40"))
CASE_SECONDS = 120  # cases take milliseconds; longer means that the code does not terminate


def seed_for(base, *parts):
    h = hashlib.sha256(("|".join([str(base)] + [str(p) for p in parts])).encode()).hexdigest()
    return int(h[:12], 16)


def run_shard(mod_name, sub_index, shard, n_cases, seed, budget, out):
    """In a worker process: one Hypothesis search."""
    res = {
        "sub": None, "shard": shard, "evaluations": 0, "nontrivial": [], "labels": {},
        "samples": [], "failure": None, "error": None, "truncated": False, "wall": 0.0,
    }
    t0 = time.time()
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)  # code under test prints warnings
    os.dup2(devnull, 2)
    scratch = None
    try:
        import warnings

        warnings.simplefilter("ignore")
        import numpy as np

        np.seterr(all="ignore")
        import hypothesis
        from hypothesis import HealthCheck, Phase, settings

        from vf.core import Ctx, HarnessError, Violation, case_key

        mod = importlib.import_module(mod_name)
        sub = mod.SUBS[sub_index]
        res["sub"] = sub.name
        scratch = tempfile.mkdtemp(dir=os.environ.get("VF_SCRATCH"))
        state = sub.setup() if sub.setup else None

        def on_alarm(*_):
            raise Violation(f"did not return within {CASE_SECONDS} s")

        signal.signal(signal.SIGALRM, on_alarm)
        seen = set()
        failing = {}  # case key -> exception
        first_fail = [None]
        last = [None]

        def execute(case):
            key = case_key(case)
            if key in failing:
                last[0] = (case, failing[key])
                raise failing[key]
            now = time.time()
            if first_fail[0] is not None and now - first_fail[0] > SHRINK_SECONDS:
                return  # enough shrinking
            if first_fail[0] is None and now - t0 > budget:
                res["truncated"] = True
                return
            ctx = Ctx()
            ctx.scratch = scratch
            ctx.state = state
            res["evaluations"] += 1
            try:
                signal.alarm(CASE_SECONDS)
                sub.run(case, ctx)
                signal.alarm(0)
            except HarnessError:
                raise
            except (Exception, SystemExit) as e:
                signal.alarm(0)
                if first_fail[0] is None:
                    first_fail[0] = now
                e.vf_tb = traceback.format_exc(limit=-6)
                failing[key] = e
                last[0] = (case, e)
                raise
            for k, v in ctx.labels.items():
                res["labels"][k] = res["labels"].get(k, 0) + v
            if ctx.nontrivial:
                d = hashlib.sha256(key.encode()).hexdigest()[:16]
                if d not in seen:
                    seen.add(d)
                    if len(res["samples"]) < 2 and len(key) < 6000 and len(seen) % 7 == 3:
                        res["samples"].append(case)

        test = hypothesis.given(sub.strategy())(execute)
        test = hypothesis.seed(seed)(test)
        test = settings(
            max_examples=n_cases, deadline=None, database=None, derandomize=False,
            phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False, print_blob=False,
            suppress_health_check=list(HealthCheck),
        )(test)
        try:
            test()
        except HarnessError:
            raise
        except BaseException as e:  # noqa
            if isinstance(e, (KeyboardInterrupt, MemoryError)):
                raise
            if last[0] is None:
                raise  # failed outside the code under test: harness error
            # the smallest failing case (Hypothesis replays it last, but be safe if it was flaky)
            case, exc = last[0]
            res["failure"] = {
                "case": case, "type": type(exc).__name__, "message": str(exc)[:3000],
                "traceback": getattr(exc, "vf_tb", "")[-3000:],
            }
        res["nontrivial"] = sorted(seen)
    except BaseException as e:  # noqa
        res["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-6000:]
    finally:
        if scratch:
            import shutil

            shutil.rmtree(scratch, ignore_errors=True)
    res["wall"] = time.time() - t0
    out.put(res)


def known_findings(prop):
    with open(os.path.join(HERE, "known_findings.json")) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop and k["status"] == "open"]


def run_known(mod_name, finding_id, out):
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    try:
        mod = importlib.import_module(mod_name)
        out.put((finding_id, bool(mod.KNOWN[finding_id]()), None))
    except BaseException as e:  # noqa
        out.put((finding_id, None, "".join(traceback.format_exception(type(e), e, e.__traceback__))))


def replay(prop, mod, path):
    import warnings

    import numpy as np

    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    from vf.core import Ctx

    with open(path) as f:
        rep = json.load(f)
    sub = [s for s in mod.SUBS if s.name == rep["sub"]][0]
    ctx = Ctx()
    ctx.scratch = tempfile.mkdtemp(dir=os.environ.get("VF_SCRATCH"))
    ctx.state = sub.setup() if sub.setup else None
    try:
        sub.run(rep["case"], ctx)
    except Exception:
        traceback.print_exc()
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print("replay: property held on this case")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--keep-going", action="store_true")
    args = ap.parse_args()
    prop = args.prop.upper()
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    mod_name = f"vf.checks.{prop.lower()}"
    mod = importlib.import_module(mod_name)
    import dmpbbo

    if not os.path.abspath(dmpbbo.__file__).startswith(os.path.abspath(REPO) + os.sep):
        print(f"harness error: dmpbbo imported from {dmpbbo.__file__}")
        return 3
    if hasattr(mod, "prepare"):
        mod.prepare()  # e.g. build the C++ driver; raises HarnessError
    if args.replay:
        return replay(prop, mod, args.replay)

    budget = 250.0 if tier == "quick" else 3 * 3600.0
    hard = 600.0 if tier == "quick" else 4 * 3600.0
    jobs = []
    for i, sub in enumerate(mod.SUBS):
        if args.only and sub.name != args.only:
            continue
        total = max(1, int((sub.quick if tier == "quick" else sub.thorough) * args.scale))
        shards = sub.shards if tier == "quick" else max(sub.shards, 4)
        shards = max(1, min(shards, total))
        for k in range(shards):
            n = total // shards + (1 if k < total % shards else 0)
            jobs.append((i, k, n, seed_for(seed, prop, sub.name, k)))

    ctx = mp.get_context("fork")
    n_workers = int(os.environ.get("VF_JOBS", "8"))
    # processes stay single-use: no state leaks between searches
    running, results, pending = {}, [], list(jobs)
    findings, known_results = known_findings(prop), {}
    kq = ctx.Queue()
    kprocs = []
    for f in findings:
        p = ctx.Process(target=run_known, args=(mod_name, f["id"], kq))
        p.start()
        kprocs.append(p)
    harness_error = None
    stop = False
    while (pending and not stop) or running:
        while pending and len(running) < n_workers and not stop:
            i, k, n, s = pending.pop(0)
            q = ctx.Queue()
            p = ctx.Process(target=run_shard, args=(mod_name, i, k, n, s, budget, q))
            p.start()
            running[p] = (q, mod.SUBS[i].name, k, time.time())
        for p in list(running):
            q, name, k, ts = running[p]
            try:
                r = q.get(timeout=0.02)
            except queue.Empty:
                if not p.is_alive():
                    try:
                        r = q.get(timeout=1.0)
                    except queue.Empty:
                        harness_error = f"{name}[{k}]: worker died with exit code {p.exitcode}"
                        del running[p]
                    else:
                        results.append(r)
                        p.join()
                        del running[p]
                elif time.time() - ts > hard:
                    p.kill()
                    p.join()
                    harness_error = f"{name}[{k}]: no answer within {hard} s"
                    del running[p]
                continue
            p.join()
            del running[p]
            results.append(r)
            if r["failure"] and not args.keep_going:
                stop = True
        if stop:
            for p in list(running):
                p.kill()
                p.join()
                del running[p]
    for p in kprocs:
        fid, still, err = kq.get(timeout=300)
        known_results[fid] = still
        if err:
            harness_error = f"known finding {fid}: {err}"
    for p in kprocs:
        p.join()

    results.sort(key=lambda r: (r["sub"] or "", r["shard"]))
    evaluations = sum(r["evaluations"] for r in results)
    nontrivial = {f"{r['sub']}:{h}" for r in results for h in r["nontrivial"]}
    per_sub, labels, samples = {}, {}, []
    for r in results:
        d = per_sub.setdefault(r["sub"], {"evaluations": 0, "nontrivial": 0, "wall_s": 0.0})
        d["evaluations"] += r["evaluations"]
        d["nontrivial"] += len(r["nontrivial"])
        d["wall_s"] = round(d["wall_s"] + r["wall"], 1)
        for k, v in r["labels"].items():
            labels[f"{r['sub']}:{k}"] = labels.get(f"{r['sub']}:{k}", 0) + v
        if r["samples"] and sum(1 for s in samples if s["sub"] == r["sub"]) < 1:
            samples.append({"sub": r["sub"], "case": r["samples"][0]})
    failures = [r for r in results if r["failure"]]
    errors = [r for r in results if r["error"]]
    rules = [getattr(mod, "RULE", "")] + [f"{s.name}: {s.rule}" for s in mod.SUBS if s.rule]
    evidence = {
        "property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(nontrivial),
            "rule": " | ".join(x for x in rules if x),
            "samples": samples,
            "per_search": per_sub,
            "labels": dict(sorted(labels.items())),
            "truncated_by_time": sorted({r["sub"] for r in results if r["truncated"]}),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(failures),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", f".{prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(evidence, f, indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", f"{prop}.json"))

    for name, d in sorted(per_sub.items()):
        print(f"{prop} {name}: {d['evaluations']} cases, {d['nontrivial']} distinct non-trivial, {d['wall_s']} s")
    for f in findings:
        if known_results.get(f["id"]):
            print(f"KNOWN-FINDING: property={prop} {f['what']}")
        elif known_results.get(f["id"]) is False:
            print(f"note: known finding {f['id']} no longer fails")
    if failures:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        for r in failures:
            path = os.path.join("replays", f"{prop}_{r['sub']}.json")
            with open(os.path.join(HERE, path), "w") as f:
                json.dump({"property": prop, "sub": r["sub"], **r["failure"]}, f, indent=1)
            print(f"--- {r['sub']}: {r['failure']['type']}: {r['failure']['message']}")
            print(r["failure"]["traceback"])
            print("case:", json.dumps(r["failure"]["case"])[:2000])
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors or harness_error:
        for r in errors:
            print(f"harness error in {r['sub']}:\n{r['error']}")
        if harness_error:
            print("harness error:", harness_error)
        return 3
    print(f"{prop}: held on {evaluations} cases ({len(nontrivial)} distinct non-trivial), {time.time() - t0:.1f} s")
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
