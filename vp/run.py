"""Driver:  python -m vp.run <property> [--tier quick|thorough] [--replay FILE] [--only NAME] [--list]"""
import sys, os
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import json, time, argparse, random, traceback, multiprocessing as mp, importlib, hashlib, fractions
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def mods_for(pid):
    """contract modules that define checks for a property"""
    d = os.path.join(VERIF, "vp", "contracts")
    return sorted(f[:-3] for f in os.listdir(d) if f.lower().startswith(pid.lower()) and f.endswith(".py"))

def setup_task():
    import warnings; warnings.filterwarnings("ignore")
    import numpy as np
    np.seterr(all="ignore")

def do_contract(con, tier, seed):
    from vp import sym, core, load
    out = dict(kind="contract", name=con.name, fns=con.fns, scope=con.scope, obligations=[], unsupported=[], violations=[], errors=[], trusted=list(con.trusted))
    t0 = time.time()
    opts = dict(con.opts)
    run = sym.Run(con.name, tier, **opts)
    cands = []
    def harness(c):
        try: con.harness(c)
        except (sym.Unsupported, sym.PathEnd): raise
        except core.Skip: raise sym.PathEnd()
        except RecursionError as e: raise sym.Unsupported("recursion")
        except Exception as e:
            # an exception on a symbolic path: a candidate only
            if os.environ.get("VP_TRACE"): traceback.print_exc()
            m = None
            try:
                if c.solver.check() == sym.z3.sat:
                    mo = c.solver.model(); m = {k: sym.val(mo, v) for k, v in c.inputs.items()}
            except Exception: pass
            cands.append((m, "%s: %s" % (type(e).__name__, e), "".join(traceback.format_exception(e))[-1500:]))
            raise sym.Unsupported("exception on a symbolic path: %s: %s" % (type(e).__name__, str(e)[:200]))
    try: run.explore(harness)
    except Exception as e:
        run.unsupported.append("engine: %s: %s" % (type(e).__name__, e))
        out["trace"] = traceback.format_exc()[-1500:]
    agg = {}
    for o in run.obligs:
        a = agg.setdefault(o.name, dict(name=o.name, n=0, discharged=0, refuted=0, unknown=0, time=0.0, solvers={}))
        a["n"] += 1; a[o.status] += 1; a["time"] += o.time
        if o.solver: a["solvers"][o.solver] = a["solvers"].get(o.solver, 0)+1
    out["obligations"] = list(agg.values())
    out["unsupported"] = list(dict.fromkeys(run.unsupported))
    out["paths"] = run.npaths; out["solver_s"] = run.solver_time
    out["trusted"] += sorted(run.trusted)
    # concrete side: replay of every counterexample, then a bounded run of the same contract text
    confirmed = {}
    for o in run.refuted:
        if o.name in confirmed: continue
        st, det, inp = core.run_concrete(con, dict(o.model or {}))
        if st == "fail": confirmed[o.name] = dict(obligation=o.name, inputs=inp, detail=det, replayed=True)
    for m, what, tb in cands[:10]:
        if m is None: continue
        st, det, inp = core.run_concrete(con, m)
        if st == "fail": confirmed.setdefault("raises", dict(obligation="no exception", inputs=inp, detail=det, replayed=True))
    rng = random.Random("%s/%s/%d" % (con.pid, con.name, seed))
    n = con.samples*(1 if tier == "quick" else 20)
    evals = skips = 0; tb0 = time.time()
    bad = None; serr = None
    for i in range(n*40):
        if evals >= n: break
        if time.time()-tb0 > (25 if tier == "quick" else 300): break
        st, det, inp = core.run_concrete(con, None, rng)
        if st == "skip": skips += 1; continue
        if st == "error": serr = serr or det; continue
        evals += 1
        if st == "fail" and bad is None:
            bad = dict(obligation=det.split("\n")[0], inputs=inp, detail=det, replayed=True)
            break
    out["bounded_evals"], out["bounded_skips"] = evals, skips
    if serr: out["errors"].append("bounded run: "+serr[-800:])
    if bad: confirmed.setdefault("bounded", bad)
    viol = list(confirmed.values())
    if run.refuted and not viol:
        o = run.refuted[0]
        viol.append(dict(obligation=o.name, inputs=o.model, detail="the verifier refutes this obligation on the current source; its counterexample did not fail on the real code", replayed=False))
    out["violations"] = viol
    if n and not evals and not run.obligs: out["errors"].append("vacuous: no obligation and no concrete evaluation")
    if not run.obligs and not run.unsupported: out["errors"].append("vacuous: zero obligations")
    out["wall"] = time.time()-t0
    return out

def do_bounded(bc, tier, seed):
    from vp import core
    t0 = time.time()
    b = core.B(bc.pid, bc.name, seed, tier)
    out = dict(kind="bounded", name=bc.name, fns=bc.fns, bound=bc.bound, violations=[], errors=[], findings=[])
    try: bc.func(b)
    except core.CheckFailed: pass
    except Exception as e:
        tb = "".join(traceback.format_exception(e))
        if core.in_repo_frame(e.__traceback__):
            b.fails.append(dict(obligation="no exception", case=repr(b.cur)[:3000], detail="raises %s: %s\n%s" % (type(e).__name__, e, tb[-1800:])))
        elif core.harness_mismatch(e): out["errors"].append(tb[-1800:])
        else: b.fails.append(dict(obligation="result is usable as specified", case=repr(b.cur)[:3000], detail="%s: %s\n%s" % (type(e).__name__, e, tb[-1800:])))
    for f in b.fails: out["violations"].append(dict(obligation=f["obligation"], inputs=f["case"], detail=f["detail"], replayed=True))
    out.update(evaluations=b.n, checks=b.ncheck, samples=b.samples, findings=b.findings, wall=time.time()-t0)
    if not b.ncheck and not out["violations"]: out["errors"].append("vacuous: no checks made")
    return out

def do_external(ex, tier, seed):
    t0 = time.time()
    out = dict(kind="external", name=ex.name, fns=ex.fns, scope=ex.scope, obligations=[], violations=[], errors=[], unsupported=[], trusted=[], solver_s=0.0)
    try: ex.harness(out, tier)
    except Exception: out["errors"].append(traceback.format_exc()[-1500:])
    out["wall"] = time.time()-t0
    return out

def task(args):
    pid, kind, idx, tier, seed = args
    setup_task()
    from vp import core
    for m in mods_for(pid): importlib.import_module("vp.contracts."+m)
    reg = core.REGISTRY[pid]
    import tempfile
    os.chdir(tempfile.gettempdir())
    if kind == "contract": return do_contract(reg["contracts"][idx], tier, seed)
    if kind == "bounded":  return do_bounded(reg["bounded"][idx], tier, seed)
    return do_external(reg["external"][idx], tier, seed)

def _worker(q, args):
    try: r = task(args)
    except BaseException: r = dict(kind=args[1], name="%s[%d]" % (args[1], args[2]), fns=[], violations=[], errors=[traceback.format_exc()[-2000:]])
    q.put(r)

def run_tasks(tasks, names, limit, nproc=8):
    """each task in its own process, so that a crash of the code under test is contained"""
    ctx = mp.get_context("fork")
    pending = list(tasks); running = []; results = []
    while pending or running:
        if os.environ.get("VP_FAILFAST") and any(r["violations"] for _, r in results): # for mutation campaigns only
            for r in running: r[0].kill()
            break
        while pending and len(running) < nproc:
            a = pending.pop(0)
            q = ctx.SimpleQueue()
            p = ctx.Process(target=_worker, args=(q, a)); p.start()
            running.append((p, q, a, time.time()))
        time.sleep(0.02)
        for r in list(running):
            p, q, a, t = r
            if not q.empty():
                results.append((a, q.get())); p.join(5)
                if p.is_alive(): p.kill()
                running.remove(r)
            elif not p.is_alive():
                if not q.empty(): results.append((a, q.get()))
                else:
                    sig = -p.exitcode if p.exitcode and p.exitcode < 0 else None
                    d = dict(kind=a[1], name=names[a[:3]], fns=[], violations=[], errors=[])
                    if sig in (11, 7, 6, 8, 4):
                        d["violations"].append(dict(obligation="no crash", inputs="deterministic run of %s with seed %d" % (names[a[:3]], a[4]), detail="the code under test died with signal %d" % sig, replayed=True))
                    else: d["errors"].append("worker ended with %s" % p.exitcode)
                    results.append((a, d))
                running.remove(r)
            elif time.time()-t > limit:
                p.kill(); p.join()
                v = [dict(obligation="terminates", inputs="deterministic run of %s with seed %d" % (names[a[:3]], a[4]), detail="the concrete run of %s, normally seconds, did not end within %d s" % (names[a[:3]], limit), replayed=True)] if a[1] == "bounded" else []
                results.append((a, dict(kind=a[1], name=names[a[:3]], fns=[], violations=v, errors=[], unsupported=["time limit of %ds" % limit], timeout=True)))
                running.remove(r)
    return [r for a, r in sorted(results, key=lambda x: tasks.index(x[0]))]

def jsonable(x):
    if isinstance(x, fractions.Fraction): return float(x)
    if isinstance(x, dict): return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [jsonable(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None: return x
    return repr(x)

def known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    try: return {e["id"]: e for e in json.load(open(p))["findings"] if e["property"] == pid and e["status"] == "known"}
    except FileNotFoundError: return {}

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER","quick"))
    ap.add_argument("--replay"); ap.add_argument("--only"); ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED","1") or 1)
    os.environ.setdefault("OMP_NUM_THREADS","1"); os.environ.setdefault("DUCC0_NUM_THREADS","1"); os.environ.setdefault("OPENBLAS_NUM_THREADS","1")
    setup_task()
    t0 = time.time()
    ev_path = os.path.join(VERIF, "evidence", a.pid+".json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    from vp import core
    for m in mods_for(a.pid): importlib.import_module("vp.contracts."+m)
    if a.pid not in core.REGISTRY: print("no checks for", a.pid); return 3
    reg = core.REGISTRY[a.pid]
    if a.replay:
        rec = json.load(open(a.replay)); seed = rec.get("seed", seed); a.only = rec["check"]
        if rec["kind"] == "contract" and isinstance(rec["inputs"], dict):
            con = [c for c in reg["contracts"] if c.name == rec["check"]][0]
            st, det, inp = core.run_concrete(con, rec["inputs"])
            print(st, det, inp); return 1 if st == "fail" else 0
    tasks, names = [], {}
    for kind in ("contract","external","bounded"):
        for i, c in enumerate(reg[{"contract":"contracts","external":"external","bounded":"bounded"}[kind]]):
            if a.only and c.name != a.only: continue
            tasks.append((a.pid, kind, i, a.tier, seed)); names[(a.pid,kind,i)] = c.name
    limit = 600 if a.tier == "quick" else 7200
    res = run_tasks(tasks, names, limit)
    # ---- verdict
    kn = known(a.pid)
    nviol = 0; errors = []; undecided = []
    rdir = os.path.join(VERIF, "replays"); os.makedirs(rdir, exist_ok=True)
    printed = set()
    nob = ndis = 0; solver_s = 0.0; by = {}; funcs = set(); bfuncs = set(); paths = 0
    for r in res:
        if r.get("errors"): errors.append((r["name"], r["errors"]))
        for u in r.get("unsupported", []): undecided.append("%s: %s" % (r["name"], u))
        for o in r.get("obligations", []):
            nob += o["n"]; ndis += o["discharged"]
            if o["unknown"]: undecided.append("%s: %s undecided by all solvers" % (r["name"], o["name"]))
            for k, v in o["solvers"].items(): by[k] = by.get(k,0)+v
        solver_s += r.get("solver_s", 0.0); paths += r.get("paths", 0)
        (bfuncs if r["kind"] == "bounded" else funcs).update(r["fns"])
        for f in r.get("findings", []):
            if f["id"] in kn:
                print("KNOWN-FINDING: property=%s %s" % (a.pid, kn[f["id"]]["what"]))
            else:
                r["violations"].append(dict(obligation="finding "+f["id"], inputs=f["id"], detail=f["detail"], replayed=True))
        for v in r["violations"]:
            key = (r["name"], v["obligation"])
            nviol += 1
            if key in printed: continue
            printed.add(key)
            h = hashlib.sha1(repr((key, v["inputs"])).encode()).hexdigest()[:10]
            path = os.path.join(rdir, "%s-%s-%s.json" % (a.pid, r["name"], h))
            json.dump(jsonable(dict(property=a.pid, check=r["name"], kind=r["kind"], seed=seed, functions=r["fns"], obligation=v["obligation"], inputs=v["inputs"], detail=v["detail"],
                replay_cmd="bash /verif/check.sh %s --replay %s" % (a.pid, path))), open(path,"w"), indent=1)
            print("VIOLATION property=%s replay=%s%s" % (a.pid, path, "" if v["replayed"] else " no-failing-input-found"))
            print("   %s / %s: inputs %s: %s" % (r["name"], v["obligation"], str(jsonable(v["inputs"]))[:400], str(v["detail"]).split("\n")[0][:300]))
    wall = time.time()-t0
    contracts = [r for r in res if r["kind"] != "bounded"]
    trusted = sorted({t for r in contracts for t in r.get("trusted", [])})
    base_trust = ["CPython and numpy execute the indexing/broadcasting of object arrays as documented",
        "z3/cvc5 soundness; the symbolic interpreter vp/sym.py, vp/npshim.py, vp/load.py (exercised against CPython on every run: each contract is also evaluated concretely)",
        "machine integers treated as mathematical integers, machine floats as mathematical reals (concrete runs compare floats to relative 1e-7)"]
    ev = dict(property=a.pid, tier=a.tier, seed=seed, level=LEVELS.get(a.pid, "proof"),
        coverage=dict(obligations=nob, discharged=ndis, checker_cmd="bash /verif/check.sh %s %s" % (a.pid, a.tier),
            trusted_base=base_trust+trusted, by_backend=by, solver_time_s=round(solver_s,2), paths=paths,
            functions_under_contract=sorted(funcs), functions_bounded_only=sorted(bfuncs-funcs),
            contracts=[dict(name=r["name"], functions=r["fns"], scope=r.get("scope",""), paths=r.get("paths"), obligations=[dict(name=o["name"], instances=o["n"], discharged=o["discharged"]) for o in r.get("obligations",[])], concrete_evaluations=r.get("bounded_evals"), undecided=r.get("unsupported",[])) for r in contracts],
            bounded=[dict(name=r["name"], functions=r["fns"], bound=r.get("bound",""), cases=r.get("evaluations",0), checks=r.get("checks",0)) for r in res if r["kind"] == "bounded"],
            evaluations=sum(r.get("evaluations",0) or 0 for r in res)+sum(r.get("bounded_evals",0) or 0 for r in res),
            samples=[s for r in res for s in r.get("samples",[])][:12],
            undecided=undecided),
        assumptions=base_trust+trusted, wall_s=round(wall,2), violations=nviol)
    if not a.only and not a.replay: json.dump(jsonable(ev), open(ev_path,"w"), indent=1)
    for u in undecided: print("UNDECIDED (bounded stand-in decides):", u)
    for n, e in errors: print("CHECK-ERROR in %s: %s" % (n, "\n".join(e)), file=sys.stderr)
    print("%s %s: %d obligations, %d discharged, %d bounded cases, %.1fs solver, %.1fs wall, %d violations" % (a.pid, a.tier, nob, ndis, ev["coverage"]["evaluations"], solver_s, wall, nviol))
    if a.v:
        for r in res: print("  %-9s %-40s %.1fs ob=%s ev=%s unsup=%s" % (r["kind"], r["name"], r.get("wall",-1), sum(o["n"] for o in r.get("obligations",[])), r.get("bounded_evals", r.get("evaluations")), r.get("unsupported")))
    if nviol: return 1
    if nob == 0 and not ev["coverage"]["evaluations"]: print("CHECK-ERROR: nothing was checked", file=sys.stderr); return 3
    # a part of the machinery that could not run is reported, and the rest decides; if nothing ran it is an error
    if errors and all(r.get("errors") for r in res): return 3
    return 0

LEVELS = {}
if __name__ == "__main__": sys.exit(main())
