#!/usr/bin/env python3
"""check.py ID                run the check of one property
   check.py --replay FILE     re-run one counterexample on the plain code
   check.py --selftest        compare the array engine with numpy"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
VENV = "/opt/venv/bin/python"
_ENV = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1",
        "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "MPLBACKEND": "Agg"}
if os.environ.get("PYTHONHASHSEED") != "0" or os.environ.get("OMP_NUM_THREADS") != "1" \
        or sys.prefix != "/opt/venv":
    os.environ.update(_ENV)
    os.execv(VENV, [VENV] + [os.path.abspath(__file__)] + sys.argv[1:])
os.environ.update(_ENV)
sys.dont_write_bytecode = True
sys.path[:0] = [REPO, HERE]
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

import importlib  # noqa: E402
import json  # noqa: E402
import multiprocessing as mp  # noqa: E402
import subprocess  # noqa: E402
import tempfile  # noqa: E402
import time  # noqa: E402
import traceback  # noqa: E402
import warnings  # noqa: E402

warnings.filterwarnings("ignore")


STATS = ("paths", "aborted", "queries", "sat", "unsat", "unknown", "solver_s", "obligations", "trivial", "discharged",
         "checked_paths", "pinned_paths", "branches", "pruned")


def load(pid):
    return importlib.import_module("harness." + pid.lower())


def uses_torch(pid):
    """does the harness run torch code (TORCH = True at its top)?"""
    with open(os.path.join(HERE, "harness", pid.lower() + ".py")) as f:
        return any(line.startswith("TORCH = True") for line in f)


def instances(mod, tier):
    out = []
    for inst in mod.INSTANCES:
        name, fn, params = inst[:3]
        opts = inst[3] if len(inst) > 3 else {}
        if opts.get("tier", "quick") == "thorough" and tier != "thorough":
            continue
        out.append((name, fn, params, opts))
    return out


# --------------------------------------------------------------------------
# symbolic worker (one instance)
# --------------------------------------------------------------------------

def functions_seen(store):
    root = os.path.realpath(REPO) + os.sep + "skada" + os.sep

    def prof(frame, event, arg):
        if event == "call":
            f = frame.f_code.co_filename
            if f.startswith(root):
                store.add(f[len(root):] + ":" + frame.f_code.co_qualname)
    return prof


def worker(mod, inst, budget, conn):
    import z3

    from engine import explore
    from engine.env import SymEnv
    name, fn, params, opts = inst
    z3.set_param("smt.random_seed", 1)
    t0 = time.time()
    funcs = set()
    prof = functions_seen(funcs)
    samples = []
    ex = None
    count = [0]

    def run(path):
        env = SymEnv(path, params)
        count[0] += 1
        if count[0] <= 4:
            sys.setprofile(prof)
        try:
            fn(env)
        finally:
            sys.setprofile(None)
            env.restore()
        if (len(samples) < 3 or (count[0] % 37 == 0 and len(samples) < 6)) and not path.pinned:
            samples.append(env.model_values(path.model))

    ex = explore.Explorer(run, max_paths=opts.get("max_paths", 6000),
                          time_budget=min(budget, opts.get("time", budget)),
                          query_ms=opts.get("query_ms", 20000),
                          exact_sqrt=opts.get("exact_sqrt", False))
    err = None
    try:
        ex.explore()
    except BaseException as e:  # engine failure
        err = "".join(traceback.format_exception(e))[-3000:]
    cands = []
    for g, c in enumerate(ex.cex):
        for m in [c["model"]] + c["more"]:
            cands.append(dict(kind="cex", msg=c["msg"], values=c["path"].env.model_values(m), group=g,
                              uf=c["path"].uses_uf))
    seen = set()
    for lim in ex.limits:
        key = (lim["exc"].split(":")[0], lim["where"][-1] if lim["where"] else "")
        lim["key"] = key
        if key in seen and len([c for c in cands if c["kind"] == "exc"]) >= 6:
            continue
        seen.add(key)
        env = getattr(lim["path"], "env", None)
        if env is not None and len([c for c in cands if c["kind"] == "exc"]) < 8:
            cands.append(dict(kind="exc", msg=lim["exc"], where=lim["where"],
                              values=env.model_values(lim["model"])))
    for s in samples:
        cands.append(dict(kind="trace", msg="sampled path", values=s))
    res = dict(name=name, params={k: str(v) for k, v in params.items()}, stats=ex.stats,
               notes=ex.notes, covers=sorted(ex.covers), complete=ex.complete,
               inconclusive=ex.inconclusive[:5], n_limits=len(ex.limits), pins=ex.pins,
               diverged=ex.diverged,
               cands=cands, funcs=sorted(funcs), err=err, wall=time.time() - t0,
               need_cover=opts.get("cover", []), bounds=opts.get("bounds", ""))
    conn.send(res)
    conn.close()


# --------------------------------------------------------------------------
# replay (plain numpy, plain skada)
# --------------------------------------------------------------------------

def replay_one(mod, rec):
    from engine.env import ReplayEnv, Unreproduced
    inst = next(i for i in mod.INSTANCES if i[0] == rec["instance"])
    env = ReplayEnv(rec["values"], inst[2])
    try:
        inst[1](env)
        status = "violated" if env.failures else "holds"
        detail = env.failures[:5]
    except Unreproduced as e:
        status, detail = "assumption", [str(e)]
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        loc = [f"{f.filename}:{f.lineno}" for f in tb[-3:]]
        status, detail = "violated", env.failures[:3] + [f"unexpected {type(e).__name__}: {e} at {loc}"]
    finally:
        env.restore()
    return dict(status=status, detail=[str(d)[:600] for d in detail], nchecks=env.nchecks)


def replay_batch(path):
    recs = json.load(open(path))
    out = []
    for r in recs:
        try:
            out.append(replay_one(load(r["property"]), r))
        except Exception as e:
            out.append(dict(status="error", detail=[f"{type(e).__name__}: {e}"], nchecks=0))
        json.dump(out, open(path + ".out", "w"))
    return 0


def run_replays(recs, timeout):
    if not recs:
        return []
    d = tempfile.mkdtemp(prefix="verif-replay-")
    f = os.path.join(d, "batch.json")
    json.dump(recs, open(f, "w"))
    try:
        subprocess.run([VENV, os.path.abspath(__file__), "--replay-batch", f], timeout=timeout,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    except subprocess.TimeoutExpired:
        pass
    out = []
    if os.path.exists(f + ".out"):
        out = json.load(open(f + ".out"))
    for x in (f, f + ".out"):
        if os.path.exists(x):
            os.unlink(x)
    os.rmdir(d)
    out += [dict(status="error", detail=["replay did not finish"], nchecks=0)] * (len(recs) - len(out))
    return out


def known_findings(pid):
    out = []
    f = os.path.join(HERE, "KNOWN_FINDINGS")
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line.startswith(f"known: property={pid} "):
                # known: property=<id> instance=<name> match=<text> :: <description>
                head, _, desc = line.partition(" :: ")
                inst = head.split("instance=")[1].split(" match=")[0].strip()
                match = head.split(" match=")[1]
                out.append((inst, match, desc))
    return out


def main(pid):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    total = float(os.environ.get("VERIF_BUDGET", "420" if tier == "quick" else "1500"))
    from engine import npfun
    npfun.install()
    from engine import stubs
    stubs.install()
    if uses_torch(pid):
        import torch
        torch.set_num_threads(1)
        from engine import tsym
        tsym.install()
    mod = load(pid)
    insts = instances(mod, tier)
    only = os.environ.get("VERIF_ONLY")
    if only:
        insts = [i for i in insts if only in i[0]]
    ctx = mp.get_context("fork")
    pending = sorted(insts, key=lambda i: -i[3].get("cost", 1))
    running, results = [], []
    nproc = int(os.environ.get("VERIF_JOBS", "8"))
    while pending or running:
        while pending and len(running) < nproc:
            inst = pending.pop(0)
            left = total - (time.time() - t0)
            batches = max(1, -(-(len(pending) + 1) // nproc))
            budget = max(10.0, left / min(batches, 3) if batches > 1 else left)
            a, b = ctx.Pipe(False)
            pr = ctx.Process(target=worker, args=(mod, inst, budget, b))
            pr.start()
            b.close()
            running.append((pr, a, inst, time.time(), budget))
        time.sleep(0.01)
        for r in list(running):
            pr, a, inst, ts, budget = r
            done = None
            if a.poll():
                try:
                    done = a.recv()
                except EOFError:
                    done = dict(name=inst[0], err=f"worker died (exit {pr.exitcode})", stats={}, cands=[])
            elif not pr.is_alive():
                done = dict(name=inst[0], err=f"worker died (exit {pr.exitcode})", stats={}, cands=[])
            elif time.time() - ts > min(budget, inst[3].get("time", budget)) * 1.3 + 60:
                # a solver call that ignores its own time limit: the instance stays undecided
                pr.kill()
                done = dict(name=inst[0], stats={k: 0 for k in STATS}, cands=[], covers=[], notes={}, funcs=[],
                            complete=False, inconclusive=["solver did not return in time"], n_limits=0, pins=0,
                            diverged=0, wall=time.time() - ts, need_cover=[], params={})
            if done is not None:
                pr.join()
                results.append(done)
                running.remove(r)
    results.sort(key=lambda r: r["name"])

    # replay candidates and sampled traces on the plain code
    recs, owner = [], []
    for r in results:
        for c in r["cands"]:
            recs.append(dict(property=pid, instance=r["name"], values=c["values"], msg=c["msg"], kind=c["kind"]))
            owner.append((r, c))
    outs = run_replays(recs, timeout=300)
    violations, unreproduced, errors, mismatch, undecided = [], [], [], [], []
    spurious = []
    validated = 0
    for rec, (r, c), o in zip(recs, owner, outs):
        c["replay"] = o
        if o["status"] == "violated":
            violations.append((rec, c, o))
        elif c["kind"] == "cex":
            unreproduced.append((rec, c, o))
        elif c["kind"] == "trace":
            if o["status"] == "holds":
                validated += 1
            else:
                mismatch.append((rec, o))
    # one reproduced model settles a counterexample; models that only exist because
    # exp/log/... are uninterpreted leave the obligation undecided, they are no error
    done = {(rec["instance"], c["group"]) for rec, c, _ in violations if c["kind"] == "cex"}
    unreproduced = [u for u in unreproduced if (u[0]["instance"], u[1]["group"]) not in done]
    spurious = [(rec, o) for rec, c, o in unreproduced if c["uf"]]
    unreproduced = [(rec, o) for rec, c, o in unreproduced if not c["uf"]]
    for r in results:
        if r.get("err"):
            errors.append(f"{r['name']}: {r['err']}")
        else:
            missing = [x for x in r["need_cover"] if x not in r["covers"]]
            if not any(c["replay"]["status"] == "violated" for c in r["cands"]):
                if r["stats"]["checked_paths"] == 0:
                    r["vacuous"] = True
                    undecided.append(f"{r['name']}: vacuous, no path reached an assertion "
                                  f"({r['n_limits']} paths could not be encoded: "
                                  f"{[c['msg'] for c in r['cands'] if c['kind'] == 'exc'][:2]})")
                elif missing and r["complete"] and not r["n_limits"]:
                    errors.append(f"{r['name']}: vacuity guard, never reached {missing}")

    # an instance the engine could not encode at all is reported as undecided (and
    # listed in the evidence); a run in which most instances are undecided is an error
    if undecided and 2 * len(undecided) > len(results):
        errors += undecided
    known = known_findings(pid)
    new = []
    known_seen = set()
    for rec, c, o in violations:
        k = next((k for k in known if k[0] == rec["instance"] and any(k[1] in d for d in o["detail"])), None)
        # a known finding only absorbs a case all of whose failures it describes
        if k and all(k[1] in d for d in o["detail"]):
            known_seen.add(k)
        else:
            new.append((rec, c, o))
    for k in known:
        if k in known_seen:
            print(f"KNOWN-FINDING: property={pid} {k[2]}")

    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    tot = {}
    for r in results:
        for k, v in r["stats"].items():
            tot[k] = tot.get(k, 0) + v
    funcs = sorted({f for r in results for f in r.get("funcs", [])})
    notes = {}
    for r in results:
        for k, v in r.get("notes", {}).items():
            notes[k] = notes.get(k, 0) + v
    ev = dict(
        property=pid, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=int(tot.get("paths", 0)),
            transitions=int(tot.get("branches", 0)),
            traces_validated_against_impl=validated,
            samples=[dict(instance=rec["instance"], values=rec["values"]) for rec in recs if rec["kind"] == "trace"][:4]
            or [dict(instance=r["name"], params=r.get("params")) for r in results][:3],
            explanation="states = execution paths of the real code decided feasible by z3; transitions = "
                        "symbolic branch decisions on them; traces = path models re-run on the "
                        "uninstrumented code with all assertions holding",
            paths_reaching_assertions=int(tot.get("checked_paths", 0)),
            obligations=int(tot.get("obligations", 0)),
            obligations_discharged=int(tot.get("discharged", 0)),
            obligations_by_term_identity=int(tot.get("trivial", 0)),
            queries=int(tot.get("queries", 0)), queries_sat=int(tot.get("sat", 0)),
            queries_unsat=int(tot.get("unsat", 0)), queries_unknown=int(tot.get("unknown", 0)),
            solver_s=round(tot.get("solver_s", 0.0), 3),
            infeasible_alternatives=int(tot.get("pruned", 0)),
            paths_with_pinned_reals=int(tot.get("pinned_paths", 0)),
            functions_encoded=funcs,
            concretisations=notes,
            instances=[dict(name=r["name"], bounds=r.get("bounds", ""), params=r.get("params"),
                            exhaustive_within_bounds=bool(r.get("complete")) and not r.get("n_limits")
                            and not r.get("pins") and not r.get("err"),
                            paths=r["stats"].get("paths"), inconclusive=r.get("inconclusive"),
                            undecided=bool(r.get("vacuous")),
                            unencoded_paths=r.get("n_limits"), diverged=r.get("diverged"),
                            wall_s=round(r.get("wall", 0), 2),
                            error=r.get("err")) for r in results],
            unreproduced=[dict(instance=rec["instance"], msg=rec["msg"], values=rec["values"]) for rec, _ in unreproduced][:5],
            undecided_uninterpreted=[dict(instance=rec["instance"], msg=rec["msg"]) for rec, _ in spurious][:5],
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + [
            "floating point numbers are modelled as reals (NaN explicit, no rounding, no overflow)"],
        wall_s=round(time.time() - t0, 2), violations=len(new))
    evp = os.path.join(HERE, "evidence", f"{pid}.json")
    json.dump(ev, open(evp, "w"), indent=1)

    verbose = os.environ.get("VERIF_VERBOSE")
    for r in results:
        s = r["stats"]
        if s:
            print(f"  {r['name']}: paths={s['paths']} checked={s['checked_paths']} obligations={s['obligations']} "
                  f"queries={s['queries']} solver={s['solver_s']:.1f}s wall={r['wall']:.1f}s "
                  f"complete={r['complete']} unencoded={r['n_limits']} pins={r['pins']} div={r['diverged']}"
                  + (f" inconclusive={r['inconclusive'][:1]}" if r["inconclusive"] else ""))
        if verbose:
            for n in r.get("notes", {}).items():
                print("     note", n)
            seen_exc = set()
            for c in r["cands"]:
                if c["kind"] == "exc" and (c["msg"][:80], c["where"][-1:][0]) not in seen_exc:
                    seen_exc.add((c["msg"][:80], c["where"][-1:][0]))
                    print("     exc", c["msg"][:160], c["where"][-3:], str(c["replay"])[:200])
    for u in undecided:
        print("UNDECIDED:", u)
    for rec, o in spurious[:5]:
        print(f"UNDECIDED: [{rec['instance']}] {rec['msg']}: counterexample exists only for an uninterpreted "
              f"function, {o['status']} on the real code")
    if new:
        rec, c, o = new[0]
        for i, (rec_, c_, o_) in enumerate(new[:5]):
            print(f"  counterexample [{rec_['instance']}] {rec_['msg'][:200]} -> {o_['detail'][:2]}")
        path = os.path.join(HERE, "evidence", "replay", f"{pid}-{rec['instance'].replace('/', '_')}.json")
        json.dump(rec, open(path, "w"), indent=1)
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    bad = errors + [f"counterexample not reproduced on the real code: [{rec['instance']}] {rec['msg']} "
                    f"{o['status']} {o['detail']}" for rec, o in unreproduced] \
        + [f"sampled path mismatch: [{rec['instance']}] {o}" for rec, o in mismatch]
    if bad:
        for b in bad[:10]:
            print("CHECK-ERROR:", b)
        return 2
    print(f"OK property={pid} paths={tot.get('paths')} obligations={tot.get('obligations')} "
          f"queries={tot.get('queries')} solver_s={tot.get('solver_s', 0):.1f} wall_s={time.time()-t0:.1f}")
    return 0


if __name__ == "__main__":
    if sys.argv[1] == "--replay-batch":
        sys.exit(replay_batch(sys.argv[2]))
    if sys.argv[1] == "--replay":
        rec = json.load(open(sys.argv[2]))
        o = replay_one(load(rec["property"]), rec)
        print(json.dumps(o, indent=1))
        sys.exit(1 if o["status"] == "violated" else 0)
    if sys.argv[1] == "--selftest":
        from engine import selftest
        rc = selftest.main()
        from engine import tselftest
        sys.exit(tselftest.main() or rc)
    sys.exit(main(sys.argv[1].upper()))
