"""Generate and discharge the obligations of one property: python3-vt -m engine.run C01 --out f.json"""
import argparse
import json
import os
import sys
import time

if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--out")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--limit", type=int, default=120)
    ap.add_argument("--total", type=int, help="seconds after which the cases left get only a few seconds each")
    a = ap.parse_args()
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from engine.case import run_module

    t0 = time.time()
    out = run_module(f"contracts.c{a.prop[1:]}", a.jobs, a.limit, a.total)
    res = {"cases": out, "t": round(time.time() - t0, 2)}
    if a.out:
        with open(a.out, "w") as f:
            json.dump(res, f)
    else:
        if os.environ.get("COV"):
            json.dump(sorted({tuple(x) for c in out for x in c.get("lines", ())}), open(os.environ["COV"], "w"))
        for c in out:
            bad = [r for r in c["results"] if r["status"] != "proved"]
            print(f"{c['case']}: {len(c['results'])} obligations, {len(bad)} not discharged, {c['t']}s")
            for r in bad[:int(os.environ.get('NB','1'))]:
                print("    ", r["status"], r["ob"], r["how"], json.dumps(r.get("detail") or "")[-1-int(os.environ.get('DET', '0')):])
        print(sum(len(c["results"]) for c in out), "obligations", sum(r["status"] != "proved" for c in out for r in c["results"]), "not discharged", res["t"], "s")
