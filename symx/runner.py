"""Task execution: path exploration, concrete replay, validation, evidence, verdict."""
from __future__ import annotations

import importlib
import json
import multiprocessing as mp
import os
import pkgutil
import re
import signal
import sys
import time
import traceback
import warnings
from fractions import Fraction

from . import core, env
from .core import ConCtx, Infeasible, PathLimit, Stats, SymCtx, SymReal, Unsupported, evaluate

REG = {}  # property -> list[Harness]
META = {}  # property -> dict(bounds=..., outside=...)


class Harness:
    def __init__(self, prop, name, fn, configs, engine, kw):
        self.prop, self.name, self.fn, self.configs, self.engine, self.kw = prop, name, fn, configs, engine, kw


def harness(prop, configs, engine="V", **kw):
    """Register a harness; ``configs(tier)`` lists the concrete shapes, values are symbolic."""

    def deco(fn):
        REG.setdefault(prop, []).append(Harness(prop, fn.__name__, fn, configs, engine, kw))
        return fn

    return deco


def meta(prop, **kw):
    META.setdefault(prop, {}).update(kw)


def load_all():
    import harnesses

    for m in pkgutil.iter_modules(harnesses.__path__):
        importlib.import_module(f"harnesses.{m.name}")


class Timeout(BaseException):
    pass


class Hang(Exception):
    pass


def _alarm(sig, frm):
    raise Timeout()


def install(engine):
    if engine == "V":
        from . import pdsym

        return pdsym.install()
    from . import tsym

    return tsym.install()


def caused_by_unsupported(e, depth=0):
    while e is not None and depth < 20:
        if isinstance(e, Unsupported):
            return True
        e, depth = e.__cause__ or e.__context__, depth + 1
    return False


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    fr = [f for f in tb if "/portfolyo/" in f.filename] or list(tb)
    f = fr[-1]
    return f"{os.path.basename(f.filename)}:{f.name}"


def replay_concrete(h, cfg, model, seconds=60):
    """Run the harness on the real code with the concrete input. -> ConCtx"""
    con = ConCtx(model)
    con.escaped = None
    core.CTX = con
    old = signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, seconds)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            h.fn(con, cfg)
    except Infeasible:
        con.escaped = "infeasible"
    except Timeout:
        con.violations.append(("exception:Hang", f"no result within {seconds} s"))
    except Unsupported as e:
        con.escaped = f"unsupported: {e}"
    except Exception as e:
        con.violations.append((f"exception:{type(e).__name__}", f"{where(e)}: {str(e)[:300]}"))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
        core.CTX = None
    return con


_PRIMES = core._PROBES


def generic_model(ctx, limit=24):
    """A model of the path condition with as many distinct, non-special values as possible."""
    import z3

    s = ctx.solver
    base = ctx.model()
    if base is None:
        return None
    s.push()
    try:
        s.set("timeout", 400)
        k = 0
        names = [n for n, sp in ctx.inputs.items() if sp[0] == "real"]
        want = {}
        for j, n in enumerate(names):
            lo, hi = ctx.inputs[n][1:3]
            v = _PRIMES[j % len(_PRIMES)] + Fraction(j // len(_PRIMES), 4)
            if not lo <= v <= hi:
                v = abs(v) if lo <= abs(v) <= hi else Fraction(lo + hi) / 2 + Fraction(hi - lo) * Fraction(j % 7, 20)
            want[n] = v
        fs = [core.zvar(n) == z3.RealVal(str(v)) for n, v in want.items()]
        if fs and s.check(*fs) == z3.sat:
            return ctx._extract(s.model())
        ints = [n for n, sp in ctx.inputs.items() if sp[0] == "int"]
        for j, n in enumerate(ints):
            lo, hi = ctx.inputs[n][1:3]
            f = z3.Int(n) == lo + (7919 * (j + 3) + 104729 * len(ctx.trace)) % (hi - lo + 1)
            if s.check(f) == z3.sat:
                s.add(f)
        t0 = time.time()
        for n in names[:limit]:
            if time.time() - t0 > 1:
                break
            f = core.zvar(n) == z3.RealVal(str(want[n]))
            if s.check(f) == z3.sat:
                s.add(f)
                k += 1
        if s.check() == z3.sat:
            return ctx._extract(s.model())
        return base
    except z3.Z3Exception:
        return base
    finally:
        s.pop()
        s.set("timeout", ctx.timeout_ms)


def trace_functions(found):
    """record (in set ``found``) the functions of the real code that run symbolically; None: stop"""
    mon = sys.monitoring
    if found is None:
        mon.set_events(3, 0)
        return
    if mon.get_tool(3) is None:
        mon.use_tool_id(3, "symx")

    def start(code, offset):
        fn = code.co_filename
        if "/portfolyo/" in fn:
            found.add(f"{fn.split('/portfolyo/', 1)[1]}:{code.co_qualname}")
        return mon.DISABLE

    mon.register_callback(3, mon.events.PY_START, start)
    mon.restart_events()
    mon.set_events(3, mon.events.PY_START)


def run_task(args):
    prop, hname, cfg, budget, max_paths = args
    h = next(x for x in REG[prop] if x.name == hname)
    if mp.current_process().name != "MainProcess":
        sys.stdout = open(os.devnull, "w")  # the libraries print
    t0 = time.time()
    st = Stats()
    res = dict(
        harness=hname, cfg=cfg, labels={}, violations=[], inconclusive=[], spurious=[], validated=0,
        mismatch=[], fns=set(), complete=True, reached=0, infeasible=0, inputs=0,
    )
    fails, vals, unsup = [], [], []
    # budgets count processor time, so that a busy machine does not cut the exploration short
    c0 = time.process_time()
    old = signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, int(budget * 1.5) + 20)
    patches = install(h.engine)
    trace_functions(res["fns"])
    stack = [[]]
    # where failures are already known, look at all of them; else a few suffice
    cap = None if any(f[0] == prop for f in load_findings()) else 6
    try:
        while stack:
            if cap and len(fails) >= 4 * cap:
                res["complete"] = False
                break
            if st.paths >= max_paths or time.process_time() - c0 > budget:
                res["complete"] = False
                res["inconclusive"].append(("paths", f"{len(stack)} pending path prefixes not explored"))
                break
            prefix = stack.pop()
            ctx = SymCtx(prefix, st, max_failures=cap, **h.kw.get("ctx", {}))
            core.CTX = ctx
            st.paths += 1
            exc = None
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    h.fn(ctx, cfg)
                ctx.discharge()
            except Infeasible:
                res["infeasible"] += 1
                exc = "infeasible"
            except core.CheckStop:
                exc = "stop"
            except PathLimit as e:
                exc = "limit"
                res["inconclusive"].append(("path", str(e)))
            except Exception as e:
                exc = e
            for i in range(len(prefix), len(ctx.trace)):
                taken, both = ctx.trace[i]
                if both:
                    stack.append(ctx.trace[:i] + [(not taken, False)])
            for k, v in ctx.labels.items():
                res["labels"][k] = res["labels"].get(k, 0) + v
            res["inputs"] = max(res["inputs"], len(ctx.inputs))
            res["inconclusive"] += ctx.inconclusive
            fails += [(f.label, f.model, f.detail) for f in ctx.failures]
            if exc in ("infeasible", "stop"):
                continue
            if isinstance(exc, Exception):
                m = generic_model(ctx)
                if m is None:
                    continue
                d = f"{type(exc).__name__} at {where(exc)}: {str(exc)[:200]}"
                if caused_by_unsupported(exc):
                    tb = traceback.extract_tb(exc.__traceback__)
                    d += " | " + " < ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-6:][::-1])
                    unsup.append((m, d))
                else:
                    fails.append((f"exception:{type(exc).__name__}", m, d))
                continue
            res["reached"] += sum(ctx.labels.values())
            n = st.paths
            if n <= 2 or (n & (n - 1)) == 0:
                m = generic_model(ctx)
                if m is not None:
                    vals.append((m, ctx.snapshot(m, ctx.results)))
    except Timeout:
        res["complete"] = False
        res["inconclusive"].append(("time", "task time limit"))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        trace_functions(None)
        patches.undo()
        core.CTX = None
        signal.signal(signal.SIGPROF, old)

    # -- concrete replays of counterexamples on the unpatched, real code
    seen = {}
    for label, model, detail in fails:
        if seen.get(label, 0) >= 3 or any(v["label"] == label for v in res["violations"]):
            continue
        seen[label] = seen.get(label, 0) + 1
        con = replay_concrete(h, cfg, model)
        if con.violations:
            lab, det = next((v for v in con.violations if v[0] == label), con.violations[0])
            if not any(v["label"] == lab for v in res["violations"]):
                res["violations"].append(dict(label=lab, detail=det, model=model, found_as=label))
        else:
            res["spurious"].append((label, detail, str(con.escaped), {k: v for k, v in model.items()}))
    for model, d in unsup[:6]:
        con = replay_concrete(h, cfg, model)
        res["inconclusive"].append(("unsupported", d))
        for lab, det in con.violations[:1]:
            if not any(v["label"] == lab for v in res["violations"]):
                res["violations"].append(dict(label=lab, detail=det, model=model, found_as="unsupported"))
    if len(unsup) > 6:
        res["inconclusive"].append(("unsupported", f"{len(unsup) - 6} more paths"))
    # -- validation of the encoding
    for model, results in vals[:8]:
        con = replay_concrete(h, cfg, model)
        for lab, det in con.violations[:1]:
            if not any(v["label"] == lab for v in res["violations"]):
                res["violations"].append(dict(label=lab, detail=det, model=model, found_as="validation"))
        if con.escaped:
            res["mismatch"].append(f"escaped {con.escaped}")
            continue
        bad = None
        if len(con.results) != len(results):
            bad = f"{len(results)} symbolic vs {len(con.results)} concrete outputs"
        else:
            for (l1, a), (l2, b) in zip(results, con.results):
                if l1 != l2:
                    bad = f"{l1} vs {l2}"
                    break
                try:
                    a = evaluate(a, model)
                except ZeroDivisionError:
                    bad = f"{l1}: zero denominator"
                    break
                if core._isnan(a) and core._isnan(b):
                    continue
                try:
                    ok = core._feq(float(a), float(b))
                except (TypeError, ValueError):
                    ok = a == b
                if not ok:
                    bad = f"{l1}: {a} vs {b}"
                    break
        if bad:
            res["mismatch"].append(bad)
        else:
            res["validated"] += 1
    res["stats"] = st
    res["wall"] = time.time() - t0
    res["inconclusive"] = res["inconclusive"][:20]
    return res


# --------------------------------------------------------------------------------------


def load_findings():
    """known_findings.txt: 'finding: property=ID match={json} :: what fails' and
    'fixed: property=ID commit what'."""
    out = []
    path = os.path.join(env.VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) match=(\{.*\}) :: (.*)", line.strip())
            if m:
                out.append((m[1], json.loads(m[2]), m[3]))
    return out


def matches(f, hname, cfg, label):
    m = f[1]
    if m.get("harness") != hname:
        return False
    if "label" in m and m["label"] != label:
        return False
    return all(cfg.get(k) == v for k, v in m.get("cfg", {}).items())


def main(prop, tier, seed, only=None, verbose=False, jobs=8, cap=None, first=False):
    t0 = time.time()
    load_all()
    if prop not in REG:
        print(f"unknown property {prop}")
        return 2
    mt = META.get(prop, {})
    wall = cap or (mt.get("wall_quick", 420) if tier == "quick" else mt.get("wall_thorough", 700))
    tasks = []
    for h in REG[prop]:
        if only and only not in h.name:
            continue
        for cfg in h.configs(tier):
            tb = h.kw.get("budget", 45 if tier == "quick" else 150)
            mpth = h.kw.get("max_paths", 300 if tier == "quick" else 3000)
            tasks.append((prop, h.name, cfg, tb, mpth))
    order = {h.name: h.kw.get("prio", 0) for h in REG[prop]}
    tasks.sort(key=lambda t: order[t[1]])
    results, notrun = [], 0
    with mp.get_context("fork").Pool(jobs) as pool:
        it = pool.imap_unordered(run_task, tasks, chunksize=1)
        for _ in range(len(tasks)):
            left = wall - (time.time() - t0)
            try:
                results.append(it.next(timeout=max(left, 0.01)))
            except mp.TimeoutError:
                notrun = len(tasks) - len(results)
                pool.terminate()
                break
            if first and results[-1]["violations"]:
                pool.terminate()
                break
    return report(prop, tier, seed, results, len(tasks), notrun, time.time() - t0, mt, verbose, only)


def jsonable(x):
    if isinstance(x, SymReal):
        return repr(x)
    return str(x)


def report(prop, tier, seed, results, ntasks, notrun, wall, mt, verbose, only):
    findings = [f for f in load_findings() if f[0] == prop]
    st = Stats()
    fns, labels = set(), {}
    inconc, spurious, mismatch = [], [], []
    viol, known = [], {}
    validated = reached = incomplete = infeas = 0
    samples = []
    results.sort(key=lambda r: (r["harness"], json.dumps(r["cfg"], sort_keys=True)))
    for r in results:
        st.add(r["stats"])
        fns |= r["fns"]
        validated += r["validated"]
        reached += r["reached"]
        infeas += r["infeasible"]
        incomplete += not r["complete"]
        for k, v in r["labels"].items():
            k = f"{r['harness']}/{re.sub(r'[0-9]+', '#', k)}"
            labels[k] = labels.get(k, 0) + v
        for i in r["inconclusive"]:
            inconc.append([r["harness"], r["cfg"], *i])
        for i in r["spurious"]:
            spurious.append([r["harness"], r["cfg"], *i])
        for i in r["mismatch"]:
            mismatch.append([r["harness"], r["cfg"], i])
        if len(samples) < 6 and not any(s["harness"] == r["harness"] for s in samples):
            samples.append(
                dict(harness=r["harness"], config=r["cfg"], symbolic_inputs=r["inputs"], paths=r["stats"].paths,
                     assertions=r["labels"])
            )
        for v in r["violations"]:
            f = next((f for f in findings if matches(f, r["harness"], r["cfg"], v["label"])), None)
            if f:
                known.setdefault(f[2], []).append((r, v))
            else:
                viol.append((r, v))
    rdir = os.path.join(env.VERIF, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    if not only:
        for f in os.listdir(rdir):
            if f.startswith(prop + "-"):
                os.unlink(os.path.join(rdir, f))
    printed = {}
    for r, v in viol:
        key = (r["harness"], re.sub(r"[0-9]+", "#", v["label"]))
        printed.setdefault(key, []).append((r, v))
    lines = []
    for n, (key, rv) in enumerate(list(printed.items())[:20]):
        r, v = rv[0]
        path = os.path.join(rdir, f"{prop}-{n}.json")
        with open(path, "w") as f:
            json.dump(
                dict(property=prop, harness=r["harness"], cfg=r["cfg"], label=v["label"], detail=v["detail"],
                     model=v["model"], found_as=v["found_as"], configs_failing=len(rv)),
                f, indent=1, default=jsonable,
            )
        lines.append((f"VIOLATION property={prop} replay={os.path.relpath(path, env.VERIF)}",
                      f"  {r['harness']} [{v['label']}] cfg={json.dumps(r['cfg'])} input={json.dumps(v['model'])[:400]} "
                      f"-> {v['detail']} ({len(rv)} configs)"))
    for what, rv in known.items():
        print(f"KNOWN-FINDING: property={prop} {what} ({len(rv)} occurrences)")
    for a, b in lines[:20]:
        print(a)
        print(b)
    cov = dict(
        states=st.paths,
        transitions=st.branches,
        traces_validated_against_impl=validated,
        samples=samples,
        tasks=ntasks,
        tasks_finished=len(results),
        tasks_not_finished_in_time=notrun,
        tasks_with_unexplored_paths=incomplete,
        infeasible_paths=infeas,
        obligations_checked=st.obligations,
        obligations_with_equal_normal_forms=st.identities,
        equal_fractions_confirmed_by_solver=st.identities_confirmed,
        equal_fractions_not_confirmed_by_solver=st.identities_unconfirmed,
        solver_queries=st.queries,
        solver_seconds=round(st.solver_s, 3),
        solver_unknown=st.unknown,
        functions_encoded=sorted(fns),
        obligations_by_assertion=labels,
        bounds=mt.get("bounds", ""),
        outside_bounds=mt.get("outside", ""),
        inconclusive=inconc[:40],
        inconclusive_count=len(inconc),
        spurious_counterexamples=spurious[:20],
        encoding_mismatches=mismatch[:20],
        known_findings_reproduced=sorted(known),
    )
    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov, wall_s=round(wall, 2),
        assumptions=mt.get("assumptions", DEFAULT_ASSUMPTIONS), violations=len(viol),
    )
    with open(os.path.join(env.VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=jsonable)
    print(
        f"{prop} {tier}: {len(results)}/{ntasks} tasks, {st.paths} paths, {st.obligations} assertions decided, "
        f"{st.queries} solver queries ({st.solver_s:.1f} s), {validated} traces validated, {len(inconc)} inconclusive, "
        f"{len(spurious)} not reproduced, {len(mismatch)} encoding mismatches, {wall:.1f} s"
    )
    if verbose:
        for x in inconc[:15]:
            print("  INCONC", x)
        for x in spurious[:15]:
            print("  SPUR", x)
        for x in mismatch[:15]:
            print("  MISM", x)
        slow = sorted(results, key=lambda r: -r["wall"])[:5]
        for r in slow:
            print("  SLOW", round(r["wall"], 1), r["harness"], r["cfg"], r["stats"].paths)
    if viol:
        return 1
    if not reached and not known:
        print(f"vacuous: no assertion of {prop} was reached")
        return 2
    return 0


DEFAULT_ASSUMPTIONS = [
    "real-number semantics: float64 rounding is not modelled; counterexamples are replayed on the real code with floats",
    "np.isclose/allclose are idealised to equality (values within the tolerance band but unequal are excluded)",
    "pandas, numpy, pint and pint-pandas are executed as they are, on symbolic array elements",
]
