"""Runs the check of one property."""
from __future__ import annotations

import collections
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYMX_REPO", "/repo")
WORK = os.path.join(HERE, "work")
# stop at the first candidate (for trying out many changes)
FAIL_FAST = bool(os.environ.get("SYMX_FAIL_FAST"))
NPROC = int(os.environ.get("SYMX_PROCS", "0")) or min(8, os.cpu_count() or 1)

BUDGET = {"quick": 200.0, "thorough": 560.0}
# a single path is given up (and its inputs replayed on the real code) after this long
PATH_TIME = {"quick": 20.0, "thorough": 60.0}
MAX_WITNESS = {"quick": 2500, "thorough": 12000}

_G = {}


def py_real():
    for p in ("/opt/venv/bin/python", "/opt/veriftools/pyvenv/bin/python", sys.executable):
        if os.path.exists(p):
            return p


def replay_cases(cases, timeout=600, env=None):
    """Run cases in one fresh plain interpreter."""
    if not cases:
        return []
    e = dict(os.environ)
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e.setdefault("PYTHONHASHSEED", "0")
    if env:
        e.update(env)
    data = "".join(json.dumps(c) + "\n" for c in cases)
    try:
        p = subprocess.run([py_real(), os.path.join(HERE, "symx", "replay_main.py")],
                           input=data, capture_output=True, text=True, timeout=timeout, env=e,
                           cwd="/tmp")
    except subprocess.TimeoutExpired:
        return [{"error": "timeout", "fails": [], "exc": None, "observed": [],
                 "assume": True}] * len(cases)
    lines = p.stdout.splitlines()
    out = []
    for i in range(len(cases)):
        if i < len(lines):
            out.append(json.loads(lines[i]))
        else:
            out.append({"error": "replay died: " + p.stderr[-600:], "fails": [], "exc": None,
                        "observed": [], "assume": True})
    return out


def bad(res):
    return bool(res.get("fails")) or bool(res.get("exc"))


def _explore(args):
    """One work unit: explore one shape in a worker process."""
    idx, shape, deadline = args
    from . import engine, expr, instr, session, strs
    prop, tier, seed = _G["prop"], _G["tier"], _G["seed"]
    mod = _G["mod"]
    t0 = time.time()
    if t0 > deadline:
        return dict(idx=idx, skipped=True)
    expr.reset_table()
    strs.reset()
    from . import models
    models._hexinv.clear()
    strs.CHECK_SHADOW = True
    st = engine.Stats()
    wit = []
    covered = set()
    box = {"ht": _G["ht"], "fp": None}
    samples = []
    limit = []
    hook = sys.displayhook

    def fresh():
        box["ht"] = _G["ht"] = instr.load()
        box["fp"] = instr.fast_fingerprint()

    if _G.get("fp") is None:
        _G["fp"] = instr.fast_fingerprint()
    box["fp"] = _G["fp"]

    def fn(run):
        if instr.fast_fingerprint() != box["fp"]:
            fresh()
            _G["fp"] = box["fp"]
            st.truncated += 0
            box["reloads"] = box.get("reloads", 0) + 1
        instr.sx.set_world(None)
        instr.sx.fs = None
        S = session.SymSession(run, box["ht"], tier)
        S.shape = shape
        run.session = S
        sys.displayhook = hook
        try:
            mod.run(S, shape)
        finally:
            sys.displayhook = hook
            if hasattr(mod, "cleanup"):
                mod.cleanup(S)

    def on_path(run):
        covered.update(run.reached)
        wit.append((dict(run.env), run.session.observed))
        if len(samples) < 1:
            samples.append({"shape": shape, "inputs": dict(list(run.env.items())[:12]),
                            "path": [expr.pp(l)[:120] for l in run.lits[:6]],
                            "observed": json.loads(json.dumps(run.session.observed)[:1500])
                            if len(json.dumps(run.session.observed)) < 1500 else "(long)"})

    limits = getattr(mod, "LIMITS", {}).get(tier, {})
    ex = engine.Explorer(fn, st, seed=seed * 7919 + idx,
                         max_paths=shape.get("max_paths", limits.get("max_paths", 20000))
                         if isinstance(shape, dict) else 20000,
                         deadline=min(deadline, t0 + limits.get("shape_time", 1e9)),
                         on_path=on_path, path_time=PATH_TIME[tier],
                         on_limit=lambda run: limit.append(dict(run.env))
                         if len(limit) < 200 else None,
                         on_candidate=lambda c: _G["send"](dict(partial=idx, candidate=c)))
    err = None
    try:
        ex.explore()
    except BaseException as e:
        err = "".join(traceback.format_exception(e))[-1500:]
    d = st.dump()
    return dict(idx=idx, stats=d, candidates=ex.candidates, errors=ex.errors[:5],
                complete=ex.complete and err is None, why=ex.why_incomplete, wit=wit,
                covered=sorted(covered), samples=samples, err=err, limit=limit, wall=time.time() - t0,
                reloads=box.get("reloads", 0), encoded=sorted(instr.sx.encoded))


def _worker(conn):
    """Long-lived worker: receives (idx, shape, deadline)."""
    sys.setrecursionlimit(30000)
    _G["send"] = conn.send
    while True:
        job = conn.recv()
        if job is None:
            return
        try:
            r = _explore(job)
        except BaseException as e:
            r = dict(idx=job[0], err="".join(traceback.format_exception(e))[-1500:])
        conn.send(r)


def run_jobs(jobs, nproc, hard_deadline):
    ctx = mp.get_context("fork")
    pending = list(jobs)[::-1]
    results = []
    workers = {}
    partial = {}

    def spawn():
        a, b = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(b,), daemon=True)
        p.start()
        b.close()
        return a, p

    from multiprocessing.connection import wait
    for _ in range(min(nproc, len(pending))):
        a, p = spawn()
        job = pending.pop()
        a.send(job)
        workers[a] = (p, job)
    while workers:
        left = hard_deadline - time.time()
        ready = wait(list(workers), timeout=max(0.1, left))
        if (not ready or FAIL_FAST) and time.time() >= hard_deadline:
            for a, (p, job) in workers.items():
                p.kill()
                results.append(dict(idx=job[0], err="hard deadline",
                                    candidates=partial.get(job[0], [])))
            for job in pending:
                results.append(dict(idx=job[0], skipped=True))
            break
        for a in ready:
            p, job = workers.pop(a)
            try:
                r = a.recv()
                if "partial" in r:
                    partial.setdefault(r["partial"], []).append(r["candidate"])
                    workers[a] = (p, job)
                    if FAIL_FAST:
                        hard_deadline = min(hard_deadline, time.time() + 2)
                    continue
                results.append(r)
            except EOFError:
                results.append(dict(idx=job[0], err="worker died",
                                    candidates=partial.get(job[0], [])))
                p.join()
                if pending:
                    a, p = spawn()
                    job = pending.pop()
                    a.send(job)
                    workers[a] = (p, job)
                continue
            if pending:
                job = pending.pop()
                a.send(job)
                workers[a] = (p, job)
            else:
                a.send(None)
                p.join(5)
    return results


def load_known():
    fn = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(fn):
        return []
    with open(fn) as f:
        return json.load(f).get("findings", [])


def known_match(prop, case, res):
    for k in load_known():
        if k["property"] != prop:
            continue
        mod = _G["mod"]
        f = getattr(mod, "known_" + k["id"].replace("-", "_"), None)
        if f is not None and f(case, res):
            return k
    return None


def check(prop, tier, seed):
    t0 = time.time()
    sys.setrecursionlimit(30000)
    import threading
    threading.stack_size(512 * 1024 * 1024)
    from . import instr
    from . import expr
    expr.z3mod()
    mod = importlib.import_module("props." + prop.lower())
    _G.update(prop=prop, tier=tier, seed=seed, mod=mod)
    load_error = None
    try:
        _G["ht"] = instr.load()
    except Exception as e:
        load_error = "".join(traceback.format_exception(e))[-2000:]
    os.makedirs(os.path.join(WORK, "replays"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if load_error:
        # the package cannot be imported: no verdict is possible
        print("ERROR: cannot load the code under test\n" + load_error)
        return 2
    _G["fp"] = instr.fast_fingerprint()
    shapes = mod.shapes(tier)
    budget = float(os.environ.get("SYMX_BUDGET", BUDGET[tier]))
    deadline = t0 + budget
    # small families of shapes first: if the time runs out, every kind has had its turn
    family = collections.Counter(str(s.get("kind")) for s in shapes)
    jobs = sorted([(i, s, deadline) for i, s in enumerate(shapes)],
                  key=lambda j: (family[str(j[1].get("kind"))], j[0]))
    results = run_jobs(jobs, NPROC, deadline + 60)
    explore_wall = time.time() - t0
    if os.environ.get("SYMX_SLOW"):
        for r in sorted(results, key=lambda r: -r.get("wall", 0))[:12]:
            print("   slow: %.1fs %s %s" % (r.get("wall", 0), json.dumps(shapes[r["idx"]]),
                                            r.get("stats", {}).get("paths")))
        for r in results:
            if r.get("why"):
                print("   open:", json.dumps(shapes[r["idx"]]), r["why"])

    agg = {}
    conc = {}
    labels = {}
    why = {}
    errors = []
    samples = []
    covered = set()
    z3_time = 0.0
    encoded = set()
    incomplete_shapes = 0
    reloads = 0
    for r in sorted(results, key=lambda r: r["idx"]):
        if r.get("skipped"):
            incomplete_shapes += 1
            why["shape not started (time budget)"] = why.get(
                "shape not started (time budget)", 0) + 1
            continue
        if r.get("err"):
            errors.append("shape %s: %s" % (json.dumps(shapes[r["idx"]])[:200], r["err"]))
            incomplete_shapes += 1
        if "stats" not in r:
            continue
        d = r["stats"]
        z3_time += d.pop("z3_time")
        for k, v in d.pop("concretised").items():
            conc[k] = conc.get(k, 0) + v
        for k, v in d.pop("labels").items():
            labels[k] = labels.get(k, 0) + v
        for k, v in d.items():
            agg[k] = agg.get(k, 0) + v
        for k, v in r["why"].items():
            why[k] = why.get(k, 0) + v
        if not r["complete"] and not r.get("err"):
            incomplete_shapes += 1
        errors.extend(r["errors"])
        samples.extend(r["samples"])
        covered.update(r["covered"])
        encoded.update(r["encoded"])
        reloads += r["reloads"]

    # ---- candidates: replay on the real code ----
    violations = []
    unrepro = []
    known_hits = {}
    cases = []
    for r in sorted(results, key=lambda r: r["idx"]):
        for c in r.get("candidates", ()):
            cases.append((dict(prop=prop, shape=shapes[r["idx"]], env=c["env"], tier=tier), c))
    cases = cases[:200]
    from concurrent.futures import ThreadPoolExecutor

    def confirm(cs):
        """Fresh process per case."""
        with ThreadPoolExecutor(NPROC) as ex:
            return list(ex.map(lambda c: replay_cases([c], timeout=120)[0], cs))

    if hasattr(mod, "replay"):
        def confirm(cs):          # noqa: F811  (property-specific replay driver)
            with ThreadPoolExecutor(NPROC) as ex:
                return list(ex.map(lambda c: mod.replay(c, replay_cases), cs))

    seen_labels = {}
    todo = []
    for case, c in cases:
        k = c["label"]
        seen_labels[k] = seen_labels.get(k, 0) + 1
        if seen_labels[k] <= 12:
            todo.append((case, c))
    for (case, c), res in zip(todo, confirm([x for x, _ in todo])):
        if bad(res):
            k = known_match(prop, case, res)
            if k is not None:
                known_hits[k["id"]] = k
                continue
            violations.append((case, c, res))
        else:
            unrepro.append(dict(label=c["label"], detail=c.get("detail"),
                                shape=case["shape"], env=case["env"],
                                tb=c.get("tb"), replay=res.get("error")))

    # ---- witnesses: translation validation ----
    wit = []
    for r in sorted(results, key=lambda r: r["idx"]):
        ws = r.get("wit", ())
        for env, obs in ws:
            wit.append((dict(prop=prop, shape=shapes[r["idx"]], env=env, tier=tier), obs))
    nw = len(wit)
    cap = getattr(mod, "MAX_WITNESS", MAX_WITNESS)[tier]
    if len(wit) > cap:
        import random
        rng = random.Random(seed)
        wit = rng.sample(wit, cap)
    # where the executor had to give up: the inputs the solver had chosen so far, judged by the
    # real code alone
    for r in sorted(results, key=lambda r: r["idx"]):
        for env in r.get("limit", ()):
            wit.append((dict(prop=prop, shape=shapes[r["idx"]], env=env, tier=tier), None))
    validated = 0
    disagreements = []
    wfail = []
    concrete_checks = 0
    if wit and not violations:
        k = max(1, (len(wit) + NPROC - 1) // NPROC)
        chunks = [wit[i:i + k] for i in range(0, len(wit), k)]
        with ThreadPoolExecutor(NPROC) as ex:
            outs = list(ex.map(lambda ch: replay_cases([c for c, _ in ch]), chunks))
        for ch, out in zip(chunks, outs):
            for (case, obs), res in zip(ch, out):
                if res.get("error"):
                    disagreements.append(dict(case=case, error=res["error"]))
                    continue
                if bad(res):
                    wfail.append(case)
                    continue
                concrete_checks += res.get("checks", 0)
                if obs is None:
                    continue
                if not res["assume"]:
                    disagreements.append(dict(case=case, error="assumption fails concretely"))
                elif res["observed"] != json.loads(json.dumps(obs)):
                    disagreements.append(dict(case=case, error="observed values differ",
                                              sym=obs, real=res["observed"]))
                else:
                    validated += 1
    for case, res in zip(wfail[:24], confirm(wfail[:24])):
        if bad(res):
            k = known_match(prop, case, res)
            if k is not None:
                known_hits[k["id"]] = k
                continue
            violations.append((case, dict(label="witness replay"), res))
        else:
            disagreements.append(dict(case=case, error="fails only after other cases ran"))

    # ---- property-specific extra stage (e.g. several hash seeds) ----
    extra = {}
    wit = [w for w in wit if w[1] is not None]
    if hasattr(mod, "post") and not violations:
        extra, more = mod.post(tier, seed, wit, replay_cases)
        for case, c, res in more:
            violations.append((case, c, res))

    # ---- report ----
    code = 0
    for k in known_hits.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    shown = {}
    for n, (case, c, res) in enumerate(violations):
        lab = (res.get("fails") or [res.get("exc")])[0]
        if shown.get(lab, 0) >= 2 or len(shown) >= 8 and lab not in shown:
            continue
        shown[lab] = shown.get(lab, 0) + 1
        fn = os.path.join(WORK, "replays", "%s-%d.json" % (prop, n))
        with open(fn, "w") as f:
            json.dump(dict(case=case, label=c.get("label"), real=res), f, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, fn))
        print("   %s: %s" % (lab, json.dumps(res.get("detail") or res.get("exc"))[:300]))
        code = 1
    cov = dict(
        states=agg.get("paths", 0),
        transitions=agg.get("branches", 0),
        traces_validated_against_impl=validated,
        samples=samples[:4],
        exhaustive=False,
        shapes=len(shapes),
        shapes_fully_explored=len(shapes) - incomplete_shapes,
        incomplete=why,
        functions_encoded=getattr(mod, "ENCODED", []),
        files_encoded=sorted(encoded),
        bounds=getattr(mod, "BOUNDS", {}).get(tier, getattr(mod, "BOUNDS", "")),
        assertions_checked=agg.get("checks", 0),
        assertions_by_label=labels,
        queries=dict(z3=agg.get("z3_queries", 0), z3_sat=agg.get("z3_sat", 0),
                     z3_unsat=agg.get("z3_unsat", 0), z3_unknown=agg.get("z3_unknown", 0),
                     interval=agg.get("domain_queries", 0), cached=agg.get("cache_hits", 0),
                     assertion_queries=agg.get("check_queries", 0)),
        solver_time_s=round(z3_time, 2),
        infeasible_branches=agg.get("infeasible", 0),
        concretised=conc,
        pins=agg.get("pins", 0),
        module_reloads=reloads,
        candidates=len(cases),
        candidates_not_reproduced=len(unrepro),
        not_reproduced=unrepro[:5],
        witness_paths=nw,
        witness_disagreements=len(disagreements),
        disagreements=disagreements[:3],
        concrete_checks=concrete_checks,
        executor_errors=errors[:5],
        covered=sorted(covered),
        explore_wall_s=round(explore_wall, 1),
    )
    cov.update(extra)
    missing = sorted(set(getattr(mod, "COVER", [])) - covered)
    if missing:
        cov["vacuous"] = missing
    ev = dict(property=prop, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "model_checking"),
              coverage=cov, assumptions=getattr(mod, "ASSUMPTIONS", []) + COMMON_ASSUMPTIONS,
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    q = cov["queries"]
    print("%s %s: %d shapes (%d complete), %d paths, %d assertions, %d z3 + %d interval queries "
          "(%.1fs solver), %d witnesses validated, %d disagreements, %d candidates (%d not "
          "reproduced), %.1fs" % (
              prop, tier, len(shapes), cov["shapes_fully_explored"], cov["states"],
              cov["assertions_checked"], q["z3"], q["interval"], z3_time, validated,
              len(disagreements), len(cases), len(unrepro), time.time() - t0))
    if why:
        print("   incomplete:", json.dumps(why)[:400])
    if missing:
        print("   never reached:", missing)
    if errors:
        print("   executor errors:", len(errors), errors[0][-400:])
    for d in disagreements[:2]:
        print("   disagreement:", json.dumps(d)[:600])
    for d in unrepro[:2]:
        print("   not reproduced:", json.dumps(d)[:600])
    return code


COMMON_ASSUMPTIONS = [
    "Python semantics are those of the CPython 3.12 that runs the checker: the code itself "
    "is executed, only operations on symbolic values are modelled (symx/strs.py, rex.py, "
    "models.py); every explored path is replayed on the unmodified code",
    "claims hold for the stated shapes and bounds only",
]


def main(argv):
    prop = argv[0].upper()
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    return check(prop, tier, seed)
