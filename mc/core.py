"""Explorer core: cases -> results, in parallel, with evidence, replays and findings.

A check module defines

    ID          property id
    RULE        one paragraph: what is enumerated and what makes a point non-trivial
    BOUNDS      dict tier -> text of the completed bound
    ASSUMPTIONS list of str
    cases(tier) list of JSON-able payloads in canonical (simplest first) order
    run(payload, res) explores the payload's part of the space on the real code
"""
import argparse
import hashlib
import importlib
import json
import os
import sys
import time
import traceback

from mc import env

OUT = os.path.join(env.VERIF, "out")
KNOWN = os.path.join(env.VERIF, "known_findings.txt")


class Result:
    """Counters and violations of one case.

    states       distinct explored states (specs, history-tree nodes, layouts, ...)
    transitions  explored steps between them (edits, observations, calls, ...)
    traces       complete behaviours replayed on the implementation and compared
    outcomes     fingerprints of observed results (guards against vacuity)
    """

    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.comparisons = 0
        self.outcomes = set()
        self.samples = []
        self.violations = []
        self.notes = {}

    def saw(self, obj):
        self.outcomes.add(fingerprint(obj))

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def note(self, key, n=1):
        self.notes[key] = self.notes.get(key, 0) + n

    def fail(self, key, message, **detail):
        """Report a violation. ``key`` identifies the kind of failure in the case."""
        if len(self.violations) < 20:
            self.violations.append(
                {"key": str(key), "message": str(message)[:1500], "detail": jsonable(detail)}
            )

    def check(self, cond, key, message, **detail):
        self.comparisons += 1
        if not cond:
            self.fail(key, message, **detail)
        return bool(cond)

    def close(self, got, want, key, message="", rtol=1e-7, atol=1e-8, **detail):
        """Elementwise comparison; NaN equals NaN."""
        import numpy as np

        self.comparisons += 1
        try:
            got = np.asarray(got, dtype=float)
            want = np.asarray(want, dtype=float)
        except (TypeError, ValueError) as e:
            self.fail(key, f"{message}: not numeric: {e}", **detail)
            return False
        if got.shape != want.shape:
            self.fail(key, f"{message}: shape {got.shape}, expected {want.shape}", **detail)
            return False
        with np.errstate(all="ignore"):
            ok = np.isclose(got, want, rtol=rtol, atol=atol, equal_nan=True)
        if ok.all():
            return True
        pos = [int(x) for x in np.argwhere(~ok)[0]]
        self.fail(
            key,
            f"{message}: {int((~ok).sum())} of {ok.size} entries differ; first at {pos}: "
            f"got {got[tuple(pos)]!r}, expected {want[tuple(pos)]!r}",
            **detail,
        )
        return False


def fingerprint(obj):
    return hashlib.sha1(json.dumps(jsonable(obj), sort_keys=True).encode()).hexdigest()[:16]


def jsonable(obj):
    import numbers

    if isinstance(obj, dict):
        return {str(k): jsonable(v) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        return [jsonable(x) for x in obj]
    if isinstance(obj, (set, frozenset)):
        return sorted((jsonable(x) for x in obj), key=str)
    if isinstance(obj, bool) or obj is None or isinstance(obj, str):
        return obj
    if isinstance(obj, numbers.Integral):
        return int(obj)
    if isinstance(obj, numbers.Real):
        return float(f"{float(obj):.10g}")
    if hasattr(obj, "tolist"):
        return jsonable(obj.tolist())
    return str(obj)


def _run_one(args):
    modname, index, payload = args
    import warnings

    env.load()
    mod = importlib.import_module(modname)
    res = Result()
    t0 = time.time()
    error = None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            mod.run(payload, res)
        except MemoryError:
            error = "MemoryError"
        except Exception as e:  # noqa: BLE001
            tb = traceback.format_exc()
            res.fail(f"exception:{type(e).__name__}", f"{type(e).__name__}: {e}", traceback=tb[-3000:])
    return {
        "index": index,
        "states": res.states,
        "transitions": res.transitions,
        "traces": res.traces,
        "comparisons": res.comparisons,
        "outcomes": res.outcomes,
        "samples": res.samples,
        "violations": res.violations,
        "notes": res.notes,
        "wall": time.time() - t0,
        "error": error,
    }


def first_failure(executor, jobs):
    from concurrent.futures import as_completed

    stride = 7 if len(jobs) % 7 else 5
    order = sorted(range(len(jobs)), key=lambda i: (i * stride) % len(jobs))
    done = []
    for future in as_completed([executor.submit(_run_one, jobs[i]) for i in order]):
        done.append(future.result())
        if done[-1]["violations"]:
            executor.shutdown(wait=False, cancel_futures=True)
            break
    return done


def load_known(prop):
    known = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("known:"):
                rec = json.loads(line[len("known:"):])
                if rec["property"] == prop:
                    known.append(rec)
    return known


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 4)
    ap.add_argument("--limit", type=int, default=None)
    ap.add_argument("--only", type=int, default=None)
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args(argv)
    env.setup()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    modname = f"mc.checks.{a.prop.lower()}"
    mod = importlib.import_module(modname)
    t0 = time.time()
    cases = mod.cases(tier)
    jobs = [(modname, i, c) for i, c in enumerate(cases)]
    if a.limit:
        jobs = jobs[: a.limit]
    if a.only is not None:
        jobs = [jobs[a.only]]
    results = []
    if a.jobs == 1 or len(jobs) == 1:
        results = [_run_one(j) for j in jobs]
    else:
        import multiprocessing as mp
        from concurrent.futures import ProcessPoolExecutor

        # expensive cases first would need cost estimates; keep canonical order
        with ProcessPoolExecutor(
            max_workers=min(a.jobs, len(jobs)), mp_context=mp.get_context("spawn"),
            initializer=env.setup,
        ) as ex:
            chunk = max(1, min(8, len(jobs) // (a.jobs * 8)))
            if os.environ.get("VERIF_FAILFAST"):
                # only for trying the checks out on planted bugs: stop at the first violation
                results = first_failure(ex, jobs)
                a.limit = len(results)
            else:
                results = list(ex.map(_run_one, jobs, chunksize=chunk))
    results.sort(key=lambda r: r["index"])
    wall = time.time() - t0
    errors = [r for r in results if r["error"]]
    known = load_known(a.prop)

    outcomes = set()
    notes = {}
    samples = []
    for r in results:
        outcomes |= r["outcomes"]
        for k, v in r["notes"].items():
            notes[k] = notes.get(k, 0) + v
        for s in r["samples"]:
            if len(samples) < 4:
                samples.append(s)
    new, seen_known = [], {}
    for r in results:
        for v in r["violations"]:
            case = cases[r["index"]]
            label = case.get("label", r["index"]) if isinstance(case, dict) else r["index"]
            hit = None
            for k in known:
                if k["key"] == v["key"] and k.get("case", label) == label:
                    hit = k
                    break
            if hit:
                seen_known[hit["what"]] = seen_known.get(hit["what"], 0) + 1
            else:
                new.append((r["index"], label, v))
    cov = {
        "states": sum(r["states"] for r in results),
        "transitions": sum(r["transitions"] for r in results),
        "traces_validated_against_impl": sum(r["traces"] for r in results),
        "comparisons": sum(r["comparisons"] for r in results),
        "distinct_outcomes": len(outcomes),
        "cases": len(results),
        "rule": mod.RULE,
        "bound_completed": mod.BOUNDS.get(tier, ""),
        "exhaustive": a.limit is None and a.only is None and not errors,
        "samples": samples,
        "counts": notes,
    }
    evidence = {
        "property": a.prop,
        "tier": tier,
        "seed": seed,
        "level": getattr(mod, "LEVEL", "model_checking"),
        "coverage": cov,
        "assumptions": list(mod.ASSUMPTIONS),
        "wall_s": round(wall, 2),
        "violations": len(new),
    }
    if a.limit is None and a.only is None:
        os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(env.VERIF, "evidence", f"{a.prop}.json"), "w") as f:
            json.dump(jsonable(evidence), f, indent=1)
    print(
        f"{a.prop} tier={tier} cases={cov['cases']} states={cov['states']} transitions={cov['transitions']} "
        f"traces={cov['traces_validated_against_impl']} comparisons={cov['comparisons']} "
        f"outcomes={cov['distinct_outcomes']} wall={wall:.1f}s"
    )
    for what, n in seen_known.items():
        print(f"KNOWN-FINDING: property={a.prop} {what} ({n} occurrences)")
    if a.verbose:
        slow = sorted(results, key=lambda r: -r["wall"])[:8]
        print("slowest:", [(r["index"], round(r["wall"], 1)) for r in slow], "total cpu", round(sum(r["wall"] for r in results)))
        print("notes:", notes)
    printed = set()
    shown = 0
    for index, label, v in new:
        if v["key"] in printed and not a.verbose:
            continue
        if shown >= 10 and not (a.verbose and shown < 60):
            break
        printed.add(v["key"])
        shown += 1
        d = os.path.join(OUT, "replays")
        os.makedirs(d, exist_ok=True)
        name = f"{a.prop}-{fingerprint([label, v['key']])}.json"
        path = os.path.join(d, name)
        with open(path, "w") as f:
            json.dump(
                jsonable({"property": a.prop, "module": modname, "case_index": index, "violation": v})
                | {"payload": cases[index]},
                f,
                indent=1,
            )
        print(f"  case {index} {label}: [{v['key']}] {v['message']}")
        if a.verbose and "traceback" in v["detail"]:
            print(v["detail"]["traceback"])
        print(f"VIOLATION property={a.prop} replay={path}")
    if new:
        print(f"{len(new)} violation records in {len({i for i, _, _ in new})} cases")
        return 1
    if errors:
        print(f"ERROR: {len(errors)} cases did not complete: {errors[0]['error']}", file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
