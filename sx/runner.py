"""Explores the harnesses of one property, replays what the solver found, decides, writes the evidence."""
import collections
import importlib
import json
import multiprocessing as mp
import os
import random
import subprocess
import sys
import time
import traceback
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
PY = sys.executable
FUNCS = set()


class Case:
    def __init__(self, name, fn, quick=True, max_paths=4000, limit_s=240, validate=2, weight=0, **kw):
        self.name, self.fn, self.quick, self.kw, self.weight = name, fn, quick, kw, weight
        self.max_paths, self.limit_s, self.validate = max_paths, limit_s, validate


def load_prop(pid):
    return importlib.import_module(f"props.{pid}")


def _monitor():
    mon = sys.monitoring
    mon.use_tool_id(3, "sx")

    def start(code, off):
        if "/pySC/" in code.co_filename:
            FUNCS.add(f"{code.co_filename.split('/pySC/')[-1]}:{code.co_qualname}")
        return mon.DISABLE
    mon.register_callback(3, mon.events.PY_START, start)
    mon.set_events(3, mon.events.PY_START)


def explore(args):
    pid, ci, tier, seed = args
    from . import engine as E
    prop = load_prop(pid)
    case = prop.CASES[ci]
    if STARTED is not None:
        STARTED[ci] = time.time()
    stats = collections.Counter()
    res = dict(case=case.name, ci=ci, violations=[], models=[], incomplete=[], errors=[], paths=0, reached=[], exhausted=True)
    rng = random.Random(zlib.crc32(f"{pid}/{case.name}/{seed}".encode()))
    t0 = time.time()
    stack = [[]]
    reached = set()
    depth = 0
    FUNCS.clear()
    sys.monitoring.restart_events()
    seen_labels = set()
    while stack:
        if res["paths"] >= case.max_paths or time.time() - t0 > case.limit_s:
            res["exhausted"] = False
            res["incomplete"].append(f"{len(stack)} unexplored prefixes after {res['paths']} paths / {time.time() - t0:.0f}s")
            break
        prefix = stack.pop()
        ctx = E.Ctx(prefix, stats)
        ctx.tier = tier
        E.CUR = ctx
        bad = None
        try:
            case.fn(ctx, **case.kw)
        except E.Violation as v:
            bad = dict(label=v.label, detail=v.detail, kind="obligation")
            f = ctx.bad
        except E.PathDone:
            stack += ctx.pending
            reached |= ctx.reached
            res["incomplete"] += ctx.incomplete
            stats["cut_paths"] += 1
            continue
        except E.Inconclusive as e:
            res["incomplete"].append(f"encoding: {e}")
            bad = dict(label="path not encodable", detail=str(e), kind="inconclusive")
            f = E.z3.BoolVal(True)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = next((f"{os.path.basename(t.filename)}:{t.name}" for t in reversed(tb) if "/pySC/" in t.filename), "harness")
            bad = dict(label=f"unexpected {type(e).__name__}", detail=f"{e} ({where})"[:300], kind="exception",
                       tb="".join(traceback.format_exception(e)[-4:])[-1500:])
            f = E.z3.BoolVal(True)
        res["paths"] += 1
        depth = max(depth, len(ctx.trace))
        stack += ctx.pending
        reached |= ctx.reached
        res["incomplete"] += ctx.incomplete
        if bad:
            key = (bad["label"], bad["kind"])
            if key not in seen_labels:
                seen_labels.add(key)
                bad["assignments"] = ctx.models(f, rng, 8, budget_s=25)
                bad["opaque"] = sorted(ctx.opaque)
                res["violations"].append(bad)
            if bad["kind"] == "obligation" and len(seen_labels) >= 4:
                res["exhausted"] = False
                break
        elif len(res["models"]) < case.validate and ctx.checked:
            try:
                # an undecided obligation is at least confronted with more concrete runs of its path
                open_ = any(x.startswith("solver unknown") for x in ctx.incomplete)
                ms = ctx.models(E.z3.BoolVal(True), rng, 6 if open_ else 2, budget_s=12 if open_ else 4)
                res["models"] += ms if open_ else ms[-1:]
            except Exception as e:
                res["errors"].append(f"model extraction: {e}")
    res.update(stats=dict(stats), reached=sorted(reached), wall=time.time() - t0, depth=depth, funcs=sorted(FUNCS))
    return res


STARTED = None  # when each case was begun, shared with the workers


def _worker_init():
    sys.setrecursionlimit(20000)
    sys.monitoring.restart_events()


def replay_batch(pid, items, timeout=600):
    """items: list of dict(case, assignment) -> list of dict(status, failures)"""
    if not items:
        return []
    n = min(6, max(1, len(items) // 6))
    chunks = [items[i::n] for i in range(n)]
    procs = []
    for c in chunks:
        p = subprocess.Popen([PY, os.path.join(VERIF, "check.py"), "--replay-batch", pid], stdin=subprocess.PIPE,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=VERIF)
        p.stdin.write(json.dumps(c))
        p.stdin.close()
        p.stdin = None
        procs.append(p)
    outs = []
    for p in procs:
        try:
            so, se = p.communicate(timeout=timeout)
            outs.append(json.loads(so.strip().splitlines()[-1]))
        except Exception as e:
            p.kill()
            outs.append(None)
            print(f"replay process failed: {e}", file=sys.stderr)
    res = [None] * len(items)
    for k, o in enumerate(outs):
        for j, i in enumerate(range(k, len(items), n)):
            res[i] = o[j] if o else dict(status="error", failures=[["replay process failed", ""]])
    return res


def replay_main(pid):
    import warnings
    warnings.simplefilter("ignore")
    from . import world, engine as E
    items = json.loads(sys.stdin.read())
    real_stdout = sys.stdout
    sys.stdout = sys.stderr
    world.load("conc")
    prop = load_prop(pid)
    out = [replay_one(prop, it) for it in items]
    sys.stdout = real_stdout
    print(json.dumps(out))


def replay_one(prop, it):
    from . import engine as E
    case = next(c for c in prop.CASES if c.name == it["case"])
    ctx = E.Replay(it["assignment"])
    import numpy as np
    np.random.seed(12345)
    try:
        with np.errstate(all="ignore"):
            case.fn(ctx, **case.kw)
        st = "fail" if ctx.failures else "ok"
    except E.Rejected:
        # failures noted before an assumption was rejected are still failures on admissible inputs only
        st = "rejected"
    except E.Inconclusive as e:
        st = "rejected"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f"{os.path.basename(t.filename)}:{t.lineno} {t.name}" for t in reversed(tb) if "/pySC/" in t.filename), None)
        if where is None:
            ctx.failures.append((f"harness error {type(e).__name__}", str(e)[:200] + " " + " ".join(f"{os.path.basename(t.filename)}:{t.lineno}" for t in tb[-3:])))
            st = "fail" if len(ctx.failures) > 1 else "harness"
        else:
            ctx.failures.append((f"unexpected {type(e).__name__}", f"{e} at {where}"[:300]))
            st = "fail"
    return dict(status=st, failures=[[str(a), str(b)[:300]] for a, b in ctx.failures[:6]])


def known_findings(pid):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith(f"finding: property={pid} "):
                head, _, text = line.partition("::")
                d = dict(kv.split("=", 1) for kv in head[len("finding:"):].split() if "=" in kv)
                out.append((d.get("case"), d.get("label", "").replace("~", " "), text.strip()))
    return out


def confirmed(pid, results, known):
    """does a counterexample among these results fail on the real code (and is it not a known finding)?"""
    items = [dict(case=r["case"], assignment=a, v=v["label"], kind=v["kind"]) for r in results for v in r["violations"] for a in v["assignments"][:1]
             if not any(k[0] == r["case"] and k[1] == v["label"] for k in known)][:6]
    return bool(items) and any(rr["status"] == "fail" for rr in replay_batch(pid, items))


def lost(prop, j, wall, why):
    return dict(case=prop.CASES[j[1]].name, ci=j[1], violations=[], models=[], incomplete=[why], errors=[], paths=0, reached=[], stats={}, wall=wall,
                depth=0, funcs=[], exhausted=False)


def run(pid, tier, seed):
    t0 = time.time()
    from . import world
    import warnings
    warnings.simplefilter("ignore")
    world.load("sym")
    _monitor()
    prop = load_prop(pid)
    idx = [i for i, c in enumerate(prop.CASES) if tier == "thorough" or c.quick]
    # heavy cases first
    jobs = [(pid, i, tier, seed) for i in sorted(idx, key=lambda i: -prop.CASES[i].weight)]
    checked_early = False
    global STARTED
    STARTED = mp.get_context("fork").Array("d", len(prop.CASES), lock=False)
    budget = 660 if tier == "quick" else 3 * 3600
    results = []
    with mp.get_context("fork").Pool(min(8, len(jobs)), initializer=_worker_init, maxtasksperchild=4) as pool:
        hs = [(j, pool.apply_async(explore, (j,))) for j in jobs]
        todo, known, stop = list(hs), known_findings(pid), None
        while todo:
            for j, h in [x for x in todo if x[1].ready()]:
                todo.remove((j, h))
                results.append(h.get())
                if stop is None and time.time() - t0 > 60 and confirmed(pid, results[-1:], known):
                    stop = time.time() + 20  # a violation is certain: leave the slow rest
            if stop is None and len(results) and time.time() - t0 > 60 and not checked_early:
                checked_early = True
                if confirmed(pid, results, known):
                    stop = time.time() + 20
            if tier == "quick":
                for j, h in [x for x in todo if STARTED[x[0][1]] and time.time() - STARTED[x[0][1]] > prop.CASES[x[0][1]].limit_s + 90]:
                    todo.remove((j, h))
                    results.append(lost(prop, j, time.time() - STARTED[j[1]], "case timed out"))
            over = time.time() - t0 > budget
            if over or (stop is not None and time.time() > stop):
                for j, h in todo:
                    results.append(lost(prop, j, time.time() - t0, "case timed out" if over else "not finished, a violation was found elsewhere"))
                break
            time.sleep(0.02)
        pool.terminate()
    # ---------------------------------------------------------------- replay
    items = []
    for r in results:
        for v in r["violations"]:
            for a in v["assignments"]:
                items.append(dict(case=r["case"], assignment=a, v=v["label"], kind=v["kind"]))
        for a in r["models"]:
            items.append(dict(case=r["case"], assignment=a, v=None, kind="validate"))
    rep = replay_batch(pid, items)
    known = known_findings(pid)
    viols, knowns, notes = [], [], []
    validated = 0
    by_label = {}
    for it, rr in zip(items, rep):
        if rr["status"] in ("error", "harness"):
            notes.append(f"replay problem in {it['case']}: {rr['failures']}")
        if it["kind"] in ("validate", "inconclusive"):
            if rr["status"] == "ok":
                validated += 1
            elif rr["status"] == "fail":
                by_label.setdefault((it["case"], rr["failures"][0][0]), []).append((it, rr))
        else:
            k = (it["case"], it["v"])
            by_label.setdefault(k, [])
            if rr["status"] == "fail":
                by_label[k].append((it, rr))
    inconclusive = []
    for (case, label), hits in by_label.items():
        kn = next((k for k in known if k[0] == case and k[1] == label), None)
        if not hits:
            inconclusive.append(f"{case}: counterexample for '{label}' did not reproduce on the real code")
            continue
        it, rr = hits[0]
        if kn:
            knowns.append((case, label, kn[2]))
        else:
            viols.append((case, label, it["assignment"], rr["failures"]))
    for r in results:
        for v in r["violations"]:
            if v["kind"] == "exception":
                notes.append(f"{r['case']}: {v['label']}: {v['detail']}")
                if os.environ.get("SX_TB"):
                    print(v.get("tb"))
        r["incomplete"] = list(dict.fromkeys(r["incomplete"]))
        for s in r["incomplete"]:
            notes.append(f"{r['case']}: incomplete: {s}")
        if not r["stats"].get("obligations"):
            inconclusive.append(f"{r['case']}: no obligation was reached (vacuous)")
    # ---------------------------------------------------------------- evidence
    tot = collections.Counter()
    for r in results:
        tot.update({k: v for k, v in r["stats"].items()})
    funcs = sorted(set().union(*[set(r["funcs"]) for r in results])) if results else []
    samples = []
    for r in results:
        for a in r["models"][:1]:
            samples.append(dict(case=r["case"], assignment={k: a[k] for k in list(a)[:12]}))
    os.makedirs(EVID, exist_ok=True)
    coverage = dict(
        explanation="bounded symbolic execution of the real functions (path forking, z3 decides every branch and every obligation)",
        bounds=prop.BOUNDS,
        functions_encoded=funcs,
        states=sum(r["paths"] for r in results),
        transitions=tot["forks"] * 2 + sum(r["paths"] for r in results),
        traces_validated_against_impl=validated,
        cases=len(results),
        paths=sum(r["paths"] for r in results),
        obligations=tot["obligations"], discharged=tot["discharged"], discharged_by_normalisation=tot["by_simplifier"], identities_by_rational_normal_form=tot["by_normal_form"],
        queries=tot["queries"], solver_s=round(tot["solver_s"], 2),
        unknown=tot["unknown"],
        reachability_witnesses={r["case"]: len(r["reached"]) for r in results},
        complete=all(r["exhausted"] and not r["incomplete"] for r in results) and not inconclusive,
        notes=(notes + inconclusive)[:40],
        per_case=[dict(case=r["case"], paths=r["paths"], obligations=r["stats"].get("obligations", 0), depth=r["depth"],
                       wall_s=round(r["wall"], 1)) for r in results],
        samples=samples[:8] or [dict(case=r["case"]) for r in results[:2]],
        known_findings=[f"{c}: {l}" for c, l, _ in knowns],
    )
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=coverage,
              assumptions=list(prop.ASSUMPTIONS) + COMMON_ASSUMPTIONS, wall_s=round(time.time() - t0, 2), violations=len(viols))
    with open(os.path.join(EVID, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"[{pid}] {tier}: {len(results)} cases, {coverage['paths']} paths, {tot['discharged']}/{tot['obligations']} obligations discharged, "
          f"{tot['queries']} queries, {tot['solver_s']:.1f}s solver, {validated} traces validated, {ev['wall_s']}s")
    for n in notes[:12]:
        print("  note:", n)
    for c, l, txt in knowns:
        print(f"KNOWN-FINDING: property={pid} {txt}")
    if viols:
        seen = set()
        print(f"  {len(viols)} failing (case, obligation) pairs")
        for n, (case, label, a, fails) in enumerate(viols):
            if label in seen and n > 0:
                continue
            seen.add(label)
            path = os.path.join(EVID, f"replay_{pid}_{n}.json")
            with open(path, "w") as f:
                json.dump(dict(property=pid, case=case, label=label, assignment=a, failures=fails,
                               how=f"{PY} {VERIF}/check.py --replay {path}"), f, indent=1)
            print(f"  {case}: {label}: {fails[:2]}")
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    for s in inconclusive[:12]:
        print("  INCONCLUSIVE:", s)
    # a case that gave no answer is reported and recorded; only a check that explored (almost) nothing is an error of the check
    return 2 if len({s.split(":")[0] for s in inconclusive}) > len(results) / 2 else 0


COMMON_ASSUMPTIONS = [
    "floating-point numbers are modelled as exact reals (decimal literals exact); rounding is outside the claim, equalities are decided to 1e-6",
    "the numpy operations used are modelled by sx/snp.py (validated by replaying path models on the real numpy)",
    "bounds as listed in coverage.bounds; nothing is claimed beyond them",
]
