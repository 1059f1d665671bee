"""python -m vf.run C01 [--tier quick|thorough]   run all harnesses of one property"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault("PYTORCH_JIT", "0")
os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("OMP_NUM_THREADS", "1")
sys.dont_write_bytecode = True
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT not in sys.path:
    sys.path.append(VT)
sys.path.insert(0, ROOT)


def worker(conn, prop, idx, cidx, budget, seed):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30))
        from vf import harness as hn
        from vf.explore import Explorer
        sys.setrecursionlimit(20000)
        hh = hn.HARNESSES[prop][idx]
        ex = Explorer(hh, hh.cases[cidx], budget, seed, query_s=hh.query_s)
        d = ex.run()
        conn.send(d)
    except MemoryError:
        conn.send({"fatal": "out of memory"})
    except BaseException as e:
        conn.send({"fatal": f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}"})
    conn.close()


def warm():
    """imports the workers share (they are forked)"""
    import torch
    import z3
    from vf import shadow, nf, solve, numeric, direct, explore

    class M(torch.utils._python_dispatch.TorchDispatchMode):
        def __torch_dispatch__(self, func, types, args=(), kwargs=None):
            return func(*args, **(kwargs or {}))
    with M():
        torch.ones(2) + 1


def known_findings():
    out = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known:"):
                kid, rest = line[6:].strip().split(None, 1)
                out[kid] = rest
    return out


def confirm(prop, v, outdir):
    """replay in a fresh interpreter with TorchScript enabled"""
    import subprocess
    os.makedirs(outdir, exist_ok=True)
    n = len([f for f in os.listdir(outdir) if f.startswith(prop)])
    path = os.path.join(outdir, f"{prop}_{n}.json")
    json.dump({"property": prop, **v}, open(path, "w"), indent=1)
    env = dict(os.environ)
    env["PYTORCH_JIT"] = "1"
    try:
        p = subprocess.run([sys.executable, "-m", "vf.replay", path], cwd=ROOT, env=env, capture_output=True, text=True, timeout=240)
    except subprocess.TimeoutExpired:
        return None, path
    return p.returncode == 1, path


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--limit", type=float, default=None)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from vf import harness as hn
    import torch
    importlib.import_module("harness." + a.prop.lower())
    warm()
    hs = hn.HARNESSES[a.prop]
    jobs = []
    scale = 1.0 if a.tier == "quick" else 5.0
    for i, hh in enumerate(hs):
        if a.only and a.only not in hh.name:
            continue
        if hh.tier == "thorough" and a.tier != "thorough":
            continue
        for k in range(len(hh.cases)):
            jobs.append((i, k, hh.budget * scale))
    limit = a.limit or (600 if a.tier == "quick" else 3000)
    jobs.sort(key=lambda j: -j[2])
    pend, running, results = list(jobs), [], []
    while pend or running:
        while pend and len(running) < a.jobs:
            i, k, b = pend.pop(0)
            left = limit - (time.time() - t0)
            if left < 5:
                results.append((i, k, {"fatal": "not started: time limit"}))
                continue
            b = min(b, left)
            r, w = mp.Pipe(False)
            p = mp.get_context("fork").Process(target=worker, args=(w, a.prop, i, k, b, seed))
            p.start()
            w.close()
            running.append((p, r, i, k, time.time(), b))
        done = []
        for it in running:
            p, r, i, k, ts, b = it
            if r.poll(0):
                try:
                    d = r.recv()
                except EOFError:
                    d = {"fatal": "worker died"}
                results.append((i, k, d))
                p.join(2)
                if p.is_alive():
                    p.kill()
                done.append(it)
            elif not p.is_alive():
                results.append((i, k, {"fatal": f"worker ended with {p.exitcode}"}))
                done.append(it)
            elif time.time() - ts > b * 1.5 + 45:
                p.kill()
                p.join()
                results.append((i, k, {"fatal": "worker exceeded its time budget"}))
                done.append(it)
        for it in done:
            running.remove(it)
        if not done:
            time.sleep(0.02)
    results.sort(key=lambda x: (x[0], x[1]))
    return report(a, hs, results, t0, seed)


def report(a, hs, results, t0, seed):
    prop = a.prop
    kf = known_findings()
    tot = dict(paths=0, leaves=0, obligations=0, discharged=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, splits=0, validated=0, concrete_runs=0, reach=0, trivial=0)
    funcs, ops, incon, unrep, errs, dis = set(), set(), [], [], [], []
    per = []
    viol = []
    samples = []
    knownhits = []
    nofnd = []
    for i, k, d in results:
        hh = hs[i]
        nm = f"{hh.name}{list(hh.cases[k]) if hh.cases[k] else ''}"
        if "fatal" in d:
            incon.append(f"{nm}: {d['fatal'].splitlines()[0]}")
            errs.append(f"{nm}: {d['fatal']}")
            per.append({"harness": nm, "fatal": d["fatal"].splitlines()[0]})
            continue
        for x in tot:
            tot[x] += d.get(x, 0)
        funcs |= set(d["functions"])
        ops |= set(d["ops"])
        incon += [f"{nm}: {x}" for x in d["inconclusive"]]
        unrep += [f"{nm}: {x}" for x in d["unreplayed"]]
        errs += [f"{nm}: {x}" for x in d["errors"]]
        dis += [f"{nm}: {x}" for x in d["disagreements"]]
        for s in d["samples"]:
            if len(samples) < 5:
                samples.append({"harness": nm, "input": s})
        per.append({"harness": nm, "what": hh.title, "paths": d["paths"], "leaves": d["leaves"], "obligations": d["obligations"],
                    "discharged": d["discharged"], "queries": d["queries"], "unsat": d["unsat"], "sat": d["sat"], "unknown": d["unknown"],
                    "solver_s": d["solver_s"], "wall_s": d["wall"], "validated_inputs": d["validated"], "violations": len(d["violations"])})
        if hh.known:
            if d["violations"]:
                knownhits.append((hh, d["violations"][0]))
            continue
        viol += d["violations"]
    confirmed = []
    outdir = os.path.join(ROOT, "evidence", "replays")
    if viol:
        import shutil
        for f in (os.listdir(outdir) if os.path.isdir(outdir) else []):
            if f.startswith(prop + "_"):
                os.unlink(os.path.join(outdir, f))
    seen = set()
    for v in viol:
        kk = (v["harness"], v["label"].split("[")[0])
        if kk in seen or len(confirmed) >= 4:
            continue
        seen.add(kk)
        ok, path = confirm(prop, v, outdir)
        if ok or ok is None:
            confirmed.append((v, path))
        else:
            unrep.append(f"{v['harness']} {v['label']}: reproduced only without TorchScript")
    level = "other"
    cov = {
        "explanation": "Symbolic execution of the real PyTorch code in /repo under a TorchDispatchMode: inputs are symbols, every tensor operator builds exact real/integer terms, "
                       "code branches and data-dependent conditions fork with SMT feasibility checks, and each property obligation is decided on every feasible leaf: "
                       "rational normal forms modulo the defining relations of the input symbols reduce the negated obligation, the residual goes to z3 (nlsat/default) or cvc5. "
                       "Numbers are exact reals/integers; tensor sizes are those each harness states.",
        "code_paths": tot["paths"], "leaves_decided": tot["leaves"], "obligations": tot["obligations"], "obligations_discharged": tot["discharged"],
        "solver_queries": tot["queries"], "solver_unsat": tot["unsat"], "solver_sat": tot["sat"], "solver_unknown": tot["unknown"],
        "solver_seconds": round(tot["solver_s"], 2), "reduced_to_zero_before_solver": tot["trivial"],
        "traces_validated_against_impl": tot["validated"], "concrete_runs_of_real_code": tot["concrete_runs"],
        "functions_encoded": sorted(funcs), "operators_encoded": sorted(ops),
        "bounds": [f"{h.name}: {h.title}" for h in hs],
        "inconclusive": incon[:60], "solver_models_not_reproduced": unrep[:60], "translator_disagreements": dis[:20], "engine_errors": errs[:20],
        "harnesses": per, "samples": samples,
    }
    ev = {"property": prop, "tier": a.tier, "seed": seed, "level": level, "coverage": cov, "wall_s": round(time.time() - t0, 2),
          "assumptions": ["floating point is modelled as exact real arithmetic (float64 constants within 1 ulp of small closed forms are read as those)",
                          "bounded tensor sizes and parameter ranges as stated per harness", "the solver, the normal-form simplifier and PyTorch's view/stride machinery are trusted"],
          "violations": len(confirmed)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    print(f"{prop}: {tot['paths']} code paths, {tot['leaves']} leaves, {tot['discharged']}/{tot['obligations']} obligations discharged, "
          f"{tot['queries']} queries ({tot['unsat']} unsat, {tot['sat']} sat, {tot['unknown']} unknown, {tot['solver_s']:.1f}s), "
          f"{tot['validated']} validated inputs, wall {time.time() - t0:.1f}s")
    if a.v:
        for p in per:
            if "fatal" in p:
                print("  ", p)
                continue
            print(f"   {p['harness'][:60]:60s} paths {p['paths']:4d} leaves {p['leaves']:5d} obl {p['discharged']}/{p['obligations']} q {p['queries']} "
                  f"(u{p['unsat']} s{p['sat']} ?{p['unknown']}) {p['solver_s']:.1f}s wall {p['wall_s']:.1f} val {p['validated_inputs']} viol {p['violations']}")
    for nm, xs in (("INCONCLUSIVE", incon), ("NOT-REPRODUCED", unrep), ("DISAGREEMENT", dis), ("ERROR", errs)):
        for x in [x for x in xs if 'not examined after' not in x][: 14 if a.v else 6]:
            print(f"{nm}: {x[:300]}")
    for hh, v in knownhits:
        if hh.known in kf:
            print(f"KNOWN-FINDING: property={prop} {hh.known} {kf[hh.known]}")
        else:
            ok, path = confirm(prop, v, outdir)
            if ok:
                confirmed.append((v, path))
    for v, path in confirmed:
        print(f"VIOLATION property={prop} replay={path}")
        print(f"   harness {v['harness']}{v['case']} obligation '{v['label']}' ({v['how']}): {v['fails'][:3]}")
    sys.stdout.flush()
    return 1 if confirmed else 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
