#!/usr/bin/env python3
"""Decide one property: generate and discharge its obligations from /repo's current source (engine/), evaluate the
contracts on the real code under the real keras (oracle/), report.

  python3 check.py C01 [--thorough]
exit 0: every obligation discharged and no contract evaluation failed (listed known findings apart); exit 1 otherwise.
"""
import argparse
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = os.environ.get("VERIF_VENV_PY", "/opt/venv/bin/python")
VT = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python"
REPO = os.environ.get("VERIF_REPO", "/repo")

TRUSTED = [
    "engine/: symbolic evaluator and verification-condition generator over the real decomon functions (this repository)",
    "engine/kops.py, engine/stubkeras.py: contracts assumed on keras.ops / keras layers (compared with the installed keras, torch and tensorflow backends, by '/opt/venv/bin/python -m selfcheck.run': bounded, not proved)",
    "z3 and cvc5 answers 'unsat' (no proof object checked)",
    "floating-point arithmetic treated as exact real arithmetic; tolerance 1e-7 where a contract says so",
    "axiomatised facts on exp, sqrt, sigmoid, tanh, softplus, softsign (engine/prover.py FNS)",
]


def findings():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(.*?) \| (.*)$", line.strip())
            if m:
                out.append({"property": m.group(1), "key": m.group(2), "what": m.group(3)})
    return out


def slug(s):
    return re.sub(r"[^A-Za-z0-9]+", "-", s)[:80].strip("-")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--budget", type=float)
    a = ap.parse_args()
    prop = a.prop
    tier = "thorough" if a.thorough else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    env = dict(os.environ, VERIF_TIER=tier, PYTHONDONTWRITEBYTECODE="1", KERAS_BACKEND="torch", OMP_NUM_THREADS="1", PYTHONHASHSEED="0")
    env.pop("PYTHONPATH", None)
    tmp = tempfile.mkdtemp(prefix="verif-")
    has_c = os.path.exists(os.path.join(HERE, "contracts", f"c{prop[1:]}.py"))
    has_o = os.path.exists(os.path.join(HERE, "oracle", f"o{prop[1:]}.py"))
    limit = 600 if a.thorough else 120
    total = 1500 if a.thorough else 300
    procs = []
    if has_c:
        fo = os.path.join(tmp, "c.json")
        procs.append(("contract", fo, subprocess.Popen(
            [VT, "-m", "engine.run", prop, "--out", fo, "--limit", str(limit), "--total", str(total)], cwd=HERE, env=env,
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    nsh = 6
    budget = a.budget or (400 if a.thorough else 25)
    reps = 400 if a.thorough else 40

    def start_oracle(tag, budget, reps, seed, extra=()):
        ps = []
        for i in range(nsh):
            fo = os.path.join(tmp, f"o{tag}{i}.json")
            ps.append(("oracle", fo, subprocess.Popen(
                [VENV, "-m", "oracle.lib", prop, "--out", fo, "--budget", str(budget), "--reps", str(reps),
                 "--seed", str(seed), "--shard", f"{i}/{nsh}", *extra],
                cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        return ps

    def collect(ps, tlimit):
        res = []
        end = time.time() + tlimit
        for kind, fo, p in ps:
            try:
                o, _ = p.communicate(timeout=max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                o, _ = p.communicate()
                o = (o or "") + "\n[killed: time limit]"
            r = None
            if os.path.exists(fo):
                try:
                    r = json.load(open(fo))
                except Exception:
                    r = None
            res.append((kind, r, o, p.returncode))
        return res

    if has_o:
        procs += start_oracle("a", budget, reps, seed)
    res = collect(procs, total + 320)

    obs, bad, functions, contracts, lines = [], [], set(), set(), set()
    nbounded = []
    queries, viol, evals, ocases, stopped, distinct, ncmp, samples = {}, [], 0, 0, False, 0, 0, []
    crashed = []
    for kind, r, o, rc in res:
        if r is None:
            crashed.append((kind, o[-3000:]))
            continue
        if kind == "contract":
            for c in r["cases"]:
                functions |= set(c["functions"])
                contracts |= set(c["contracts"])
                lines |= {tuple(x) for x in c.get("lines", ())}
                for k, v in c["stats"].items():
                    queries[k] = queries.get(k, 0) + v
                for ob in c["results"]:
                    (nbounded if c["case"].startswith("bounded") else obs).append(ob)
                    if ob["status"] != "proved":
                        bad.append({"key": f"contract:{c['case']}: {ob['ob']}", "case": c["case"], **ob})
        else:
            evals += r["evaluations"]
            ocases += r["cases"]
            distinct += r["distinct"]
            ncmp += r["comparisons"]
            if r.get("sample"):
                samples.append(r["sample"])
            stopped |= r["stopped_by_budget"]
            for v in r["violations"]:
                viol.append({"key": f"oracle:{v['case']}", **v})

    kf = [f for f in findings() if f["property"] == prop]
    keys = {f["key"] for f in kf}
    seen = {x["key"] for x in bad} | {x["key"] for x in viol}
    for f in kf:
        if f["key"] in seen:
            print(f"KNOWN-FINDING: property={prop} {f['what']}")
    known = [x for x in bad + viol if x["key"] in keys]
    bad = [x for x in bad if x["key"] not in keys]
    viol = [x for x in viol if x["key"] not in keys]

    # an undischarged obligation: look for a concrete failing input with a larger budget
    if bad and not viol and has_o:
        for kind, r, o, rc in collect(start_oracle("b", 60, 80, seed + 7919), 150):
            if r is None:
                continue
            evals += r["evaluations"]
            for v in r["violations"]:
                v = {"key": f"oracle:{v['case']}", **v}
                if v["key"] not in keys:
                    viol.append(v)

    rdir = os.path.join(HERE, "replays")
    os.makedirs(rdir, exist_ok=True)
    rc = 0
    nviol = 0

    def replay(name, data):
        p = os.path.join(rdir, f"{prop}-{slug(name)}.json")
        with open(p, "w") as f:
            json.dump(data, f, indent=1, default=str)
        return p

    if viol:
        rc = 1
        for v in viol[:10]:
            nviol += 1
            p = replay(v["case"], {
                "property": prop, "kind": "contract evaluated to false on the real code", **v,
                "rerun": f"cd {HERE} && {VENV} -m oracle.lib {prop} --only {json.dumps(v['case'])} --oneseed {v['seed']}",
                "failed_obligations": [b["key"] for b in bad[:20]],
            })
            print(f"  {v['case']}: {v['msg'][:300]}")
            print(f"VIOLATION property={prop} replay={p}")
    elif bad:
        rc = 1
        for b in bad[:10]:
            nviol += 1
            p = replay(b["key"], {
                "property": prop, "kind": "obligation not discharged", "obligation": b["key"],
                "verifier": {k: b.get(k) for k in ("status", "how", "detail", "model", "t")},
                "rerun": f"cd {HERE} && python3-vt -m engine.run {prop}",
            })
            print(f"  {b['status']}: {b['key']}: {str(b['how'])[:300]}")
            print(f"VIOLATION property={prop} replay={p} no-failing-input-found")
    if crashed and rc == 0:
        rc = 1
        nviol += 1
        p = replay("crash", {"property": prop, "kind": "the check could not run on this tree", "output": crashed})
        print(crashed[0][1][-1500:])
        print(f"VIOLATION property={prop} replay={p} no-failing-input-found")
    if has_c and not obs and rc == 0:
        rc = 1
        nviol += 1
        p = replay("no-obligation", {"property": prop, "kind": "no obligation generated"})
        print(f"VIOLATION property={prop} replay={p} no-failing-input-found")

    proved = sum(o["status"] == "proved" for o in obs)
    backs = {}
    for o in obs:
        if o["status"] == "proved":
            h = re.split(r"[\s(:]", str(o["how"]))[0] or "normal-form"
            backs[h] = backs.get(h, 0) + 1
    ev = {
        "property": prop, "tier": tier, "seed": seed,
        "level": "proof" if has_c else "exploration",
        "coverage": {
            "obligations": len(obs), "discharged": proved,
            "checker_cmd": f"cd {HERE} && python3-vt -m engine.run {prop}",
            "trusted_base": TRUSTED,
            "bounded_obligations_not_counted_as_proved": len(nbounded),
            "functions_under_contract": sorted(functions),
            "functions_executed_symbolically": {f: sorted({q for g, q, n in lines if g == f and not q.startswith("<")}) for f in sorted({g for g, _, _ in lines})},
            "lines_executed_symbolically": len(lines),
            "callee_contracts_assumed_at_call_sites": sorted(contracts),
            "discharged_by": backs,
            "solver_calls": {k: (round(v, 2) if isinstance(v, float) else v) for k, v in queries.items()},
            "evaluations": evals,
            "distinct_nontrivial": distinct,
            "comparisons": ncmp,
            "rule": f"{'bounded supplement (never counted as proved): ' if has_c else ''}{ocases} contract-evaluation cases on the real code, random parameters with sign changes, ties and degenerate domains; an evaluation is non-trivial when some compared bound and value differ, distinct by the compared numbers" + (", stopped by the time budget" if stopped else ""),
            "samples": ([obs[0]["ob"], obs[-1]["ob"]] if obs else []) + samples[:3],
            "known_findings_seen": [x["key"] for x in known],
        },
        "assumptions": assumptions(prop),
        "wall_s": round(time.time() - t0, 2),
        "violations": nviol,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} [{tier}]: {proved}/{len(obs)} obligations discharged, {evals} contract evaluations, {len(known)} known, {nviol} violations, {ev['wall_s']}s")
    shutil.rmtree(tmp, ignore_errors=True)
    return rc


def assumptions(prop):
    base = [
        "real arithmetic instead of float32/float64",
        "keras.ops and keras layer semantics as stated in engine/kops.py and engine/stubkeras.py",
    ]
    p = os.path.join(HERE, "contracts", "assumptions.json")
    if os.path.exists(p):
        d = json.load(open(p))
        base += d.get(prop, [])
    return base


if __name__ == "__main__":
    sys.exit(main())
