"""Monitors, verdicts and the worker protocol shared by every check.

A *case* is a JSON-able dict; a property module turns a (tier, seed) into cases and
runs one case against the real code in /repo under a Monitor.  A Monitor records every
observation (so that evidence counts what was actually watched) and every violation.
"""
import hashlib
import json
import os
import traceback

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Skip(Exception):
    """The case turned out to be outside the property's precondition."""


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, np.floating):
        return float(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


class Monitor:
    def __init__(self, case):
        self.case = case
        self.observed = {}  # monitor name -> number of observations
        self.violations = []  # {monitor, detail, finding}
        self.distinct = set()  # digests of observed non-trivial situations
        self.notes = {}
        self.margin = {}  # monitor name -> worst error / tolerance

    # ------------------------------------------------------------------ observations
    def seen(self, name, n=1):
        self.observed[name] = self.observed.get(name, 0) + int(n)

    def nontrivial(self, *key):
        """Register the observed situation as non-trivial, identified by `key`."""
        h = hashlib.blake2b(digest_size=8)
        for k in key:
            if isinstance(k, np.ndarray):
                h.update(np.ascontiguousarray(np.round(k.astype(float), 9)).tobytes())
            else:
                h.update(repr(k).encode())
        self.distinct.add(h.hexdigest())

    def note(self, name, value):
        self.notes[name] = jsonable(value)

    # ------------------------------------------------------------------ verdicts
    def fail(self, name, detail, finding=None):
        self.violations.append(
            {"monitor": name, "detail": str(detail)[:1500], "finding": finding}
        )

    def check(self, name, ok, detail="", finding=None):
        self.seen(name)
        if not ok:
            self.fail(name, detail() if callable(detail) else detail, finding)
        return bool(ok)

    def close(self, name, got, want, tol, scale=None, detail="", finding=None):
        """|got - want| <= tol * scale elementwise; scale defaults to max(|want|, |got|, tiny)."""
        self.seen(name)
        got = np.asarray(got, dtype=float)
        want = np.asarray(want, dtype=float)
        if got.shape != want.shape:
            self.fail(name, f"{detail} shape {got.shape} != {want.shape}", finding)
            return False
        if got.size == 0:
            return True
        if not np.isfinite(got).all():
            self.fail(name, f"{detail} non-finite values in the observed result", finding)
            return False
        if scale is None:
            scale = max(float(np.abs(want).max()), 1e-300)
        err = float(np.abs(got - want).max())
        ratio = err / (tol * scale) if tol * scale > 0 else (0.0 if err == 0 else np.inf)
        self.margin[name] = max(self.margin.get(name, 0.0), ratio)
        if not ratio <= 1.0:
            i = np.unravel_index(np.argmax(np.abs(got - want)), got.shape)
            self.fail(
                name,
                f"{detail} max error {err:.3e} > {tol:.1e}*{scale:.3e} at {tuple(map(int, i))}: "
                f"got {got[i]:.12g} want {want[i]:.12g}",
                finding,
            )
            return False
        return True

    def le(self, name, value, bound, detail="", finding=None):
        self.seen(name)
        ok = np.isfinite(value) and value <= bound
        if bound > 0:
            self.margin[name] = max(self.margin.get(name, 0.0), float(value) / float(bound))
        if not ok:
            self.fail(name, f"{detail} {value:.6e} > {bound:.6e}", finding)
        return ok

    def result(self):
        return {
            "case": jsonable(self.case),
            "observed": self.observed,
            "violations": self.violations,
            "distinct": sorted(self.distinct),
            "notes": self.notes,
            "margin": {k: float(v) for k, v in self.margin.items()},
        }


def blame(exc):
    """'repo' when the exception left the code under test, 'verif' when it is ours."""
    where = "verif"
    for frame in traceback.extract_tb(exc.__traceback__):
        if frame.filename.startswith(REPO + os.sep):
            where = "repo"
        elif frame.filename.startswith(VERIF + os.sep):
            where = "verif"
    return where


def run_case(module, case):
    mon = Monitor(case)
    try:
        module.run(case, mon)
    except Skip as e:
        mon.note("skipped", str(e))
    except Exception as e:  # pylint: disable=broad-except
        tb = "".join(traceback.format_exception(e)[-6:])
        if blame(e) == "repo":
            mon.fail("no-crash", f"{type(e).__name__}: {e} | {tb[-900:]}")
        else:
            res = mon.result()
            res["harness_error"] = "".join(traceback.format_exception(e))[-3000:]
            return res
    return mon.result()


def dumps(x):
    return json.dumps(jsonable(x), sort_keys=True)
