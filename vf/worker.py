"""Runs a list of cases for one property and streams one JSON line per case."""
import importlib
import json
import os
import sys
import time


def main():
    prop, casefile, outfile, deadline = sys.argv[1:5]
    deadline = float(deadline)
    out = open(outfile, "w", encoding="utf-8")
    with open(casefile, encoding="utf-8") as f:
        cases = json.load(f)
    real = os.dup(1)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)  # the solvers print progress
    import warnings

    warnings.simplefilter("ignore")
    from vf.core import run_case

    module = importlib.import_module(f"vf.props.{prop.lower()}")
    for case in cases:
        if time.time() > deadline:
            out.write(json.dumps({"case": case, "timeout": True}) + "\n")
            continue
        t = time.time()
        res = run_case(module, case)
        res["wall"] = time.time() - t
        out.write(json.dumps(res) + "\n")
        out.flush()
    out.write(json.dumps({"done": True}) + "\n")
    out.close()
    os.dup2(real, 1)


if __name__ == "__main__":
    main()
