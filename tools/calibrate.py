import sys; sys.path[:0]=[__import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__))),__import__("os").environ.get("VERIF_REPO","/repo")]
import importlib,os,json
from concurrent.futures import ProcessPoolExecutor
prop=sys.argv[1]; seeds=[int(x) for x in sys.argv[2].split(",")]; only=sys.argv[3] if len(sys.argv)>3 else None
mod=importlib.import_module("vf.props."+prop)
from vf.core import run_case
def go(case):
    import io,contextlib
    with contextlib.redirect_stdout(io.StringIO()):
        return run_case(mod,case)
if __name__=="__main__":
    cs=[c for s in seeds for c in mod.cases("quick",s) if not c.get("jit") and (not only or only in c["kind"])]
    with ProcessPoolExecutor(8) as ex:
        res=list(ex.map(go,cs,chunksize=2))
    from collections import Counter
    cnt=Counter()
    mar={}
    for r in res:
        for v in r["violations"]:
            cnt[(r["case"]["kind"],v["monitor"],v["finding"])]+=1
            (cnt[(r["case"]["kind"],v["monitor"],v["finding"])]<=2) and print(r["case"]["kind"],v["monitor"],v["finding"],v["detail"][:260], r["notes"])
        if "harness_error" in r:
            cnt[("HARNESS",r["harness_error"][-80:])]+=1
            if cnt[("HARNESS",r["harness_error"][-80:])]==1: print(r["harness_error"][-900:])
        for k,v in r["margin"].items(): mar.setdefault((r["case"]["kind"],k),[]).append(v)
    print(cnt)
    import numpy as np
    for k,v in sorted(mar.items()): print(k,len(v),"max",max(v),"q99",np.quantile(v,.99),"med",np.median(v))
