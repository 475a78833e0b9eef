"""python -m vf.run <PROPERTY> [--tier quick|thorough] [--replay FILE] [--seed N]

Exit 0: the property held on everything explored.  Exit 1 with a VIOLATION line: broken.
Any other exit: the check could not decide (harness error, or a monitor never fired).
"""
import argparse
import hashlib
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from vf.core import REPO, VERIF, jsonable

PY = sys.executable
FINDINGS = os.path.join(VERIF, "known_findings.txt")


def known_findings(prop):
    keys = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS, encoding="utf-8"):
            line = line.strip()
            if line.startswith("finding: "):
                parts = line[len("finding: ") :].split(" ", 2)
                p = parts[0].split("=", 1)[1]
                key = parts[1].split("=", 1)[1]
                if p == prop:
                    keys[key] = parts[2] if len(parts) > 2 else ""
    return keys


def worker_env(jit, scratch):
    env = {
        "PATH": os.environ.get("PATH", "/usr/bin:/bin"),
        "HOME": scratch,
        "LANG": "C.UTF-8",
        "PYTHONPATH": f"{VERIF}:{REPO}",
        "PYTHONHASHSEED": "0",
        "PYTHONDONTWRITEBYTECODE": "1",
        "MPLBACKEND": "Agg",
        "MPLCONFIGDIR": os.path.join(scratch, "mpl"),
        "TMPDIR": scratch,
        "NUMBA_DISABLE_CUDA": "1",
        "NUMBA_CACHE_DIR": os.path.join(scratch, "numba"),
        "OMP_NUM_THREADS": "1",
        "OPENBLAS_NUM_THREADS": "1",
        "NUMBA_NUM_THREADS": "2",
        "VERIF_REPO": REPO,
        "VERIF_SCRATCH": scratch,
    }
    if jit:
        env["NUMBA_BOUNDSCHECK"] = "1"  # out-of-bounds sanitizer for the compiled kernels
    else:
        env["NUMBA_DISABLE_JIT"] = "1"
    return env


def split(cases, n):
    """Longest-processing-time split by the case's own weight."""
    bins = [[0.0, []] for _ in range(max(1, n))]
    for c in sorted(cases, key=lambda c: -float(c.get("w", 1.0))):
        b = min(bins, key=lambda b: b[0])
        b[0] += float(c.get("w", 1.0))
        b[1].append(c)
    return [b[1] for b in bins if b[1]]


def execute(prop, cases, budget, case_limit, workers=None):
    scratch = tempfile.mkdtemp(prefix="vf-", dir=os.environ.get("TMPDIR", "/tmp"))
    n = workers or max(2, min(8, os.cpu_count() or 4))
    jit_cases = [c for c in cases if c.get("jit")]
    py_cases = [c for c in cases if not c.get("jit")]
    n_jit = 0
    if jit_cases:
        n_jit = max(1, min(len(jit_cases), n // 2 if py_cases else n))
    n_py = max(1, n - n_jit) if py_cases else 0
    groups = [(True, g) for g in split(jit_cases, n_jit)] if jit_cases else []
    groups += [(False, g) for g in split(py_cases, n_py)] if py_cases else []
    deadline = time.time() + budget
    procs = []
    try:
        for i, (jit, group) in enumerate(groups):
            cf = os.path.join(scratch, f"cases{i}.json")
            of = os.path.join(scratch, f"out{i}.jsonl")
            own = os.path.join(scratch, f"w{i}")
            os.makedirs(own)
            with open(cf, "w", encoding="utf-8") as f:
                json.dump(jsonable(group), f)
            err = open(os.path.join(scratch, f"err{i}"), "w", encoding="utf-8")
            p = subprocess.Popen(
                [PY, "-m", "vf.worker", prop, cf, of, str(deadline)],
                cwd=own,
                env=worker_env(jit, own),
                stdout=subprocess.DEVNULL,
                stderr=err,
                start_new_session=True,
            )
            procs.append({"p": p, "of": of, "group": group, "i": i, "size": -1, "t": time.time()})
        results, errors = [], []
        live = list(procs)
        while live:
            time.sleep(0.2)
            for w in list(live):
                size = os.path.getsize(w["of"]) if os.path.exists(w["of"]) else 0
                if size != w["size"]:
                    w["size"], w["t"] = size, time.time()
                if w["p"].poll() is not None:
                    live.remove(w)
                elif time.time() - w["t"] > case_limit:
                    os.killpg(w["p"].pid, signal.SIGKILL)
                    w["hang"] = True
                    w["p"].wait()
                    live.remove(w)
        for w in procs:
            lines = []
            if os.path.exists(w["of"]):
                for line in open(w["of"], encoding="utf-8"):
                    try:
                        lines.append(json.loads(line))
                    except ValueError:
                        pass
            done = any(x.get("done") for x in lines)
            lines = [x for x in lines if not x.get("done")]
            results += lines
            if not done:
                rest = w["group"][len(lines) :]
                case = rest[0] if rest else None
                tail = open(os.path.join(scratch, f"err{w['i']}"), encoding="utf-8").read()[-1500:]
                rc = w["p"].returncode
                if w.get("hang"):
                    results.append(
                        {
                            "case": case,
                            "observed": {"terminates": 1},
                            "violations": [
                                {
                                    "monitor": "terminates",
                                    "detail": f"no result within {case_limit} s",
                                    "finding": None,
                                }
                            ],
                        }
                    )
                elif rc in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGFPE, -signal.SIGBUS):
                    results.append(
                        {
                            "case": case,
                            "observed": {"no-crash": 1},
                            "violations": [
                                {
                                    "monitor": "no-crash",
                                    "detail": f"killed by signal {-rc}: {tail}",
                                    "finding": None,
                                }
                            ],
                        }
                    )
                else:
                    errors.append(f"worker {w['i']} ended with {rc}: {tail}")
        return results, errors
    finally:
        for w in procs:
            if w["p"].poll() is None:
                try:
                    os.killpg(w["p"].pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                w["p"].wait()
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--only", help="run only the cases of this kind")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("-v", action="store_true")
    args = ap.parse_args()
    prop = args.property.upper()
    tier = "thorough" if args.tier == "thorough" else "quick"
    module = importlib.import_module(f"vf.props.{prop.lower()}")
    start = time.time()
    if args.replay:
        cases = [json.load(open(args.replay, encoding="utf-8"))["case"]]
    else:
        cases = module.cases(tier, args.seed)
        if args.only:
            cases = [c for c in cases if c.get("kind") == args.only]
    budget = 480 if tier == "quick" else 5400
    case_limit = getattr(module, "CASE_LIMIT", 240)
    results, errors = execute(prop, cases, budget, case_limit)

    known = known_findings(prop)
    observed, margin, distinct = {}, {}, set()
    kinds, bad, found, skipped, timeouts = {}, [], {}, 0, 0
    ran = 0
    for r in results:
        if r.get("timeout"):
            timeouts += 1
            continue
        if r.get("harness_error"):
            errors.append(f"case {json.dumps(r['case'])[:400]}\n{r['harness_error']}")
            continue
        ran += 1
        kind = (r.get("case") or {}).get("kind", "?")
        if (r.get("case") or {}).get("jit"):
            kind += "/compiled"
        kinds[kind] = kinds.get(kind, 0) + 1
        if "skipped" in r.get("notes", {}):
            skipped += 1
        for k, v in r.get("observed", {}).items():
            observed[k] = observed.get(k, 0) + v
        for k, v in r.get("margin", {}).items():
            margin[k] = max(margin.get(k, 0.0), v)
        distinct.update(r.get("distinct", []))
        for v in r["violations"]:
            if v.get("finding") in known:
                found.setdefault(v["finding"], []).append((r, v))
            else:
                bad.append((r, v))

    for key in sorted(known):
        hits = found.get(key, [])
        if hits and not args.replay:
            print(
                f"KNOWN-FINDING: property={prop} {key}: {known[key]} "
                f"(seen {len(hits)}x, e.g. {hits[0][1]['detail'][:160]})"
            )
    replays = []
    if bad:
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for r, v in bad:
            h = hashlib.blake2b(json.dumps(r["case"], sort_keys=True).encode(), digest_size=5)
            path = os.path.join(rdir, f"{prop}-{h.hexdigest()}.json")
            if path in seen:
                continue
            seen.add(path)
            if len(seen) > 10:
                break
            with open(path, "w", encoding="utf-8") as f:
                json.dump(
                    {
                        "property": prop,
                        "case": r["case"],
                        "violations": r["violations"],
                        "replay_cmd": f"cd {VERIF} && ./check {prop} --replay {path}",
                    },
                    f,
                    indent=1,
                )
            replays.append(path)
            print(f"  [{v['monitor']}] {v['detail'][:700]}")
            print(f"VIOLATION property={prop} replay={path}")

    missing = []
    if not args.replay and not args.only:
        missing = [m for m in module.REQUIRED if not observed.get(m)]
    samples = []
    for r in results:
        if r.get("notes") and not r.get("timeout") and len(samples) < 6:
            k = (r["case"] or {}).get("kind")
            if sum(1 for s in samples if s["case"].get("kind") == k) < 2:
                samples.append({"case": r["case"], "observed": r["observed"], "notes": r["notes"]})
    if not samples:
        samples = [
            {"case": r["case"], "observed": r.get("observed")}
            for r in results[:3]
            if not r.get("timeout")
        ]
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": args.seed,
        "level": getattr(module, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": ran,
            "distinct_nontrivial": len(distinct),
            "rule": module.RULE,
            "samples": samples,
            "monitor_observations": dict(sorted(observed.items())),
            "cases_by_kind": dict(sorted(kinds.items())),
            "skipped_by_precondition": skipped,
            "not_reached_in_time": timeouts,
            "worst_error_over_tolerance": {k: round(v, 6) for k, v in sorted(margin.items())},
            "known_findings_seen": {k: len(v) for k, v in found.items()},
        },
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - start, 2),
        "violations": len(bad),
    }
    if not args.replay and not args.no_evidence and not args.only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w", encoding="utf-8") as f:
            json.dump(jsonable(evidence), f, indent=1)
    if args.v:
        print(json.dumps(jsonable(evidence["coverage"]), indent=1)[:6000])
        slow = sorted((r for r in results if "wall" in r), key=lambda r: -r["wall"])[:5]
        for r in slow:
            print("slow", round(r["wall"], 2), json.dumps(r["case"])[:200])
    print(
        f"{prop} {tier} seed={args.seed}: {ran} cases, {sum(observed.values())} observations, "
        f"{len(distinct)} distinct, {len(bad)} violations, {len(errors)} errors, "
        f"{evidence['wall_s']} s"
    )
    if bad:
        return 1
    if errors:
        for e in errors[:5]:
            print("ERROR " + e, file=sys.stderr)
        return 2
    if missing:
        print(f"INCONCLUSIVE: monitors never fired: {missing}", file=sys.stderr)
        return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
