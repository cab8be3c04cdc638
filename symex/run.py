"""Runs the check of one property: symbolic exploration of its scenarios on the
current /repo working tree, replay of every counterexample on plain numbers and
unpatched libraries, evidence."""

import argparse
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import re
import resource
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("OPENCLSIM_REPO", "/repo")
NWORK = int(os.environ.get("VERIF_JOBS", "0")) or (os.cpu_count() or 2)
PATH_TIMEOUT = 60


class Scenario:
    """One harness of a property.

    fn(c, **bounds): builds a configuration through the public API with inputs
    drawn from c, runs it and states the property with c.check.
    covers: labels that some explored path must reach (vacuity guard).
    """

    def __init__(self, name, fn, quick=None, thorough=None, covers=(), what=""):
        self.name, self.fn = name, fn
        self.quick = {} if quick is None else quick
        self.thorough = self.quick if thorough is None else thorough
        self.covers = tuple(covers)
        self.what = what

    def bounds(self, tier):
        b = self.quick if tier == "quick" else self.thorough
        if b == "skip":
            return None
        return b


def load(prop):
    return importlib.import_module("props." + prop.lower())


class PathTimeout(Exception):
    pass


def limit_memory(gb=3.5):
    """A run that fills the memory ends with a MemoryError of its own."""
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    n = int(gb * 2**30)
    resource.setrlimit(resource.RLIMIT_AS, (n if hard < 0 else min(n, hard), hard))


def _alarm(*_):
    raise PathTimeout(f"run did not end within {PATH_TIMEOUT} s")


# --------------------------------------------------------------------------
# replay


def set_tz(h):
    os.environ["TZ"] = "XXX%+d" % (-h) if h else "UTC0"
    time.tzset()


def replay_one(mod, rec):
    """Runs one recorded input on plain numbers; returns the list of failures."""
    from symex import engine

    sc = [s for s in mod.SCENARIOS if s.name == rec["scenario"]][0]
    c = engine.Replay({k: v for k, v in rec["inputs"].items() if not k.startswith("$")})
    set_tz(rec["inputs"].get("tz_offset_h", 0))
    bounds = sc.bounds(rec["tier"]) or {}
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(PATH_TIMEOUT)
    ended = None
    try:
        sc.fn(c, **bounds)
    except engine.PathEnd as e:
        ended = str(e)
    except Exception as e:  # noqa
        import traceback

        c.failures.append(f"unexpected {type(e).__name__}: {str(e)[:300]}")
        if rec.get("verbose"):
            traceback.print_exc()
    finally:
        signal.alarm(0)
    if ended == "assumption":
        return None
    return c.failures


def main_replay(path, verbose=True):
    sys.path.insert(0, os.path.join(REPO, "src"))
    import warnings

    warnings.simplefilter("ignore")
    with open(path) as f:
        recs = json.load(f)
    limit_memory()
    single = isinstance(recs, dict)
    recs = [recs] if single else recs
    out = []
    for r in recs:
        for h in r.get("history", ()):  # what ran before it in the same process
            replay_one(load(r["property"]), dict(r, scenario=h["scenario"], inputs=h["inputs"],
                                                 verbose=False))
        r["verbose"] = verbose and single
        out.append(replay_one(load(r["property"]), r))
    if single:
        f = out[0]
        print(json.dumps({k: recs[0][k] for k in ("property", "scenario", "inputs")}))
        if f:
            for m in f[:10]:
                print("FAILS:", m)
            return 1
        print("passes" if f is not None else "input outside the assumptions")
        return 0
    print("REPLAY-RESULT " + json.dumps(out))
    return 0


def replay_batch(recs, tag, timeout):
    """Replay in a fresh interpreter without stubs. -> list (failures | None) or None."""
    d = os.path.join(VERIF, "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"batch_{tag}_{os.getpid()}.json")
    with open(p, "w") as f:
        json.dump(recs, f)
    try:
        r = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), "--replay", p],
                           capture_output=True, text=True, timeout=timeout, cwd=VERIF)
        for line in r.stdout.splitlines():
            if line.startswith("REPLAY-RESULT "):
                return json.loads(line[14:])
        sys.stderr.write("replay failed: " + (r.stderr or r.stdout)[-2000:] + "\n")
        return None
    except subprocess.TimeoutExpired:
        return None
    finally:
        os.unlink(p)


# --------------------------------------------------------------------------
# worker


def worker(conn, mod, tier, seed):
    from symex import engine

    limit_memory()
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    scen = [s for s in mod.SCENARIOS]
    explorers = {}
    src = os.path.join(REPO, "src", "openclsim")

    def make(i):
        sc = scen[i]
        b = sc.bounds(tier)
        funcs = set()
        state = {"n": 0}

        def prof(frame, event, arg):
            if event == "call":
                co = frame.f_code
                if co.co_filename.startswith(src):
                    funcs.add(co)

        def h(c):
            state["n"] += 1
            sample = state["n"] <= 2 or state["n"] % 101 == 0
            signal.alarm(PATH_TIMEOUT)
            if sample:
                sys.setprofile(prof)
            try:
                sc.fn(c, **b)
            finally:
                if sample:
                    sys.setprofile(None)
                signal.alarm(0)

        return engine.Explorer(h), funcs

    while True:
        try:
            msg = conn.recv()
        except EOFError:
            return
        if msg is None:
            return
        i, items, secs, maxp = msg
        if i not in explorers:
            explorers[i] = make(i)
        ex, funcs = explorers[i]
        try:
            left, res = ex.explore(items, time.monotonic() + secs, maxp)
            names = sorted({co.co_filename[len(src) + 1:] + ":" + co.co_qualname for co in funcs})
            funcs.clear()
            conn.send((i, left, res, names, None))
        except BaseException as e:  # noqa
            import traceback

            conn.send((i, [], engine.Result(), [], traceback.format_exc()[-3000:]))
            if not isinstance(e, Exception):
                return


# --------------------------------------------------------------------------
# master


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) scenario=(\S+) match=/(.*)/ :: (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append({"scenario": m.group(2), "re": re.compile(m.group(3)),
                            "what": m.group(4), "seen": False})
    return out


def main_check(prop, tier, only=None, budget=None, verbose=False):
    t0 = time.monotonic()
    sys.path.insert(0, os.path.join(REPO, "src"))
    sys.setrecursionlimit(5000)
    import warnings

    warnings.simplefilter("ignore")
    os.environ["TZ"] = "UTC0"
    time.tzset()
    from symex import engine, env

    env.install_pandas()
    mod = load(prop)
    env.install_modules()
    import z3

    seed = int(os.environ.get("VERIF_SEED", "1"))
    if budget is None:
        budget = 240 if tier == "quick" else 2400
    deadline = t0 + budget
    idx = [i for i, s in enumerate(mod.SCENARIOS)
           if s.bounds(tier) is not None and (not only or s.name in only)]
    results = {i: engine.Result() for i in idx}
    funcs = {i: set() for i in idx}
    queues = {i: [[({}, 0, None)]] for i in idx}
    inflight = {i: 0 for i in idx}
    busy_s = {i: 0.0 for i in idx}
    errors = []
    known = known_findings(prop)
    candidates = []  # to replay: (i, inputs, message, traceback)
    tried = {}
    confirmed = []
    undecided = []
    validated = 0

    mpctx = mp.get_context("fork")
    workers = []
    for _ in range(NWORK):
        a, b = mpctx.Pipe()
        p = mpctx.Process(target=worker, args=(b, mod, tier, seed), daemon=True)
        p.start()
        b.close()
        workers.append((a, p))
    idle = [w[0] for w in workers]
    started = {}
    replayed = 0
    rr = 0

    def handle_candidates():
        nonlocal replayed
        batch, meta = [], []
        while candidates and len(batch) < 8:
            i, inp, msg, tb, hist = candidates.pop(0)
            key = (i, re.sub(r"[-\d./<>\[\]*+ ]+", "#", msg)[:160])
            tried[key] = tried.get(key, 0) + 1
            if tried[key] > 3 and tried[key] not in (5, 8, 13, 21, 34, 55, 89, 144, 233, 377, 610):
                continue  # more of the same: a few of them, ever further apart
            batch.append({"property": prop, "scenario": mod.SCENARIOS[i].name, "tier": tier,
                          "inputs": inp})
            meta.append((i, inp, msg, tb, hist))
        if not batch:
            return
        outs = replay_batch(batch, prop, 30 + (PATH_TIMEOUT + 5) * len(batch))
        replayed += len(batch)
        for rec, (i, inp, msg, tb, hist), f in zip(batch, meta, outs or [[]] * len(batch)):
            if f:
                sc = mod.SCENARIOS[i].name
                unlisted = []
                for m in f:
                    for k in known:
                        if k["scenario"] == sc and k["re"].search(m):
                            k["seen"] = True
                            break
                    else:
                        unlisted.append(m)
                if unlisted:
                    confirmed.append((rec, unlisted))
            else:
                undecided.append((rec, msg, tb, hist))
                results[i].complete = False

    while True:
        now = time.monotonic()
        if confirmed:
            break
        # hand out work
        for conn in list(idle):
            live = [i for i in idx if queues[i]]
            if not live or now > deadline:
                break
            i = live[rr % len(live)]
            rr += 1
            chunk = queues[i].pop()
            n = sum(len(q) for q in queues[i]) + inflight[i]
            young = results[i].paths < 200 and n < 4 * NWORK
            conn.send((i, chunk, 1.0 if not young else 0.3, 12 if young else 10**9))
            started[conn] = (i, now)
            inflight[i] += 1
            idle.remove(conn)
        if len(idle) == len(workers):
            if candidates:
                handle_candidates()
                continue
            break
        for conn in mp.connection.wait([w[0] for w in workers if w[0] not in idle], timeout=5):
            try:
                i, left, res, names, err = conn.recv()
            except EOFError:
                i, t1 = started[conn]
                errors.append("worker process ended")
                results[i].complete = False
                inflight[i] -= 1
                workers = [w for w in workers if w[0] is not conn]
                continue
            busy_s[i] += time.monotonic() - started[conn][1]
            inflight[i] -= 1
            idle.append(conn)
            for cnd in res.candidates:
                candidates.append((i,) + tuple(cnd))
            res.candidates = []
            results[i].merge(res)
            funcs[i].update(names)
            if err:
                errors.append(err)
                results[i].complete = False
            if left:
                total = sum(len(q) for q in queues[i])
                if len(queues[i]) < 2 * NWORK:
                    k = min(len(left), NWORK)
                else:
                    k = min(len(left), 2)
                for j in range(k):
                    queues[i].append(left[j::k])
        if not workers:
            break
        if candidates:
            handle_candidates()
        if time.monotonic() > deadline + 30:
            break

    for i in idx:
        if queues[i] or inflight[i]:
            results[i].complete = False
    # validate the encoding: sampled path inputs on plain numbers, no stubs
    samples = []
    if not confirmed:
        for i in idx:
            for s in results[i].samples[:6]:
                samples.append({"property": prop, "scenario": mod.SCENARIOS[i].name, "tier": tier,
                                "inputs": s["inputs"]})
        if samples:
            outs = replay_batch(samples, prop + "v", 60 + 10 * len(samples))
            if outs is None:
                errors.append("validation replay did not answer")
            else:
                for rec, f in zip(samples, outs):
                    if f is None:
                        continue
                    bad = [m for m in f if not any(
                        k["scenario"] == rec["scenario"] and k["re"].search(m) for k in known)]
                    if bad:
                        confirmed.append((rec, bad))
                    else:
                        validated += 1
    for conn, p in workers:
        if p.is_alive():
            p.kill()

    # failures that need another simulation before them in the same process
    def listed(scenario, m):
        return any(k["scenario"] == scenario and k["re"].search(m) for k in known)

    if confirmed:
        for n, (r, f) in enumerate(confirmed[:3]):
            o = replay_batch([r], prop + "a", 30 + PATH_TIMEOUT)
            if o is None or o[0]:
                confirmed = confirmed[n:]
                break
        else:
            before = [x for x, _ in confirmed] + samples
            confirmed = [(dict(r, history=[{"scenario": x["scenario"], "inputs": x["inputs"]}
                                           for x in before if x is not r][:30]), f)
                         for r, f in confirmed]
    elif undecided:
        for r, m, tb, hist in undecided[:3]:
            mine = dict(r, history=[{"scenario": r["scenario"], "inputs": x} for x in hist])
            f = replay_batch([mine], prop + "h", 120)
            bad = [x for x in (f[0] if f else None) or [] if not listed(r["scenario"], x)]
            if bad:
                confirmed.append((mine, bad))
                break

    tot = engine.Result()
    for i in idx:
        r = results[i]
        tot.merge(r)
    missing = []
    for i in idx:
        for lab in mod.SCENARIOS[i].covers:
            if lab not in results[i].covers:
                missing.append(f"{mod.SCENARIOS[i].name}:{lab}")
    wall = time.monotonic() - t0
    per = []
    allf = set()
    for i in idx:
        sc, r = mod.SCENARIOS[i], results[i]
        allf |= funcs[i]
        per.append({"scenario": sc.name, "what": sc.what, "bounds": sc.bounds(tier),
                    "exhausted": bool(r.complete), "paths": r.paths,
                    "paths_excluded_by_assumptions": r.pruned, "decisions": r.branches,
                    "max_decisions_on_a_path": r.maxdepth, "obligations": r.obligations,
                    "discharged": r.discharged, "discharged_syntactically": r.trivial,
                    "queries": r.queries, "solver_s": round(r.solver_s, 2),
                    "slowest_query_s": round(r.slowest_query_s, 3), "unknown": r.unknowns,
                    "values_concretised": r.concretised, "values_left_out": r.pins_dropped,
                    "nondeterministic_runs": r.divergences, "cpu_s": round(busy_s[i], 1),
                    "covers": r.covers, "open_items": sum(len(q) for q in queues[i]),
                    "functions": len(funcs[i])})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot.paths, "transitions": tot.branches,
            "traces_validated_against_impl": validated,
            "samples": [s["inputs"] for s in samples[:6]] or [r["inputs"] for r, _ in confirmed[:3]],
            "exhaustive": bool(tot.complete and not confirmed and not undecided),
            "obligations": tot.obligations, "discharged": tot.discharged,
            "queries": tot.queries, "solver_s": round(tot.solver_s, 2),
            "solver": "z3 " + z3.get_version_string(), "unknown": tot.unknowns,
            "explanation": "states = feasible execution paths of the real code (path-condition "
                           "classes over all inputs within the bounds); transitions = symbolic "
                           "decisions on them; every alternative decision was refuted or queued by "
                           "a solver query; obligations = property conditions, each decided for "
                           "all inputs of its path.",
            "counterexample_candidates_replayed": replayed,
            "candidates_not_reproduced": [
                {"scenario": r["scenario"], "inputs": r["inputs"], "message": m,
                 "traceback": tb} for r, m, tb, _ in undecided[:5]],
            "missing_reachability_witnesses": missing,
            "functions_encoded": sorted(allf), "scenarios": per, "errors": errors[:5],
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + [
            "python ints / dyadic rationals stand for the numbers of the simulation; replays use "
            "plain python numbers",
            "simpy, heapq, pandas and networkx are executed, not modelled",
        ],
        "wall_s": round(wall, 2), "violations": len(confirmed),
    }
    if not only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")
    for p in per:
        print(f"{prop} {p['scenario']}: {p['paths']} paths ({p['paths_excluded_by_assumptions']} excluded), "
              f"{p['queries']} queries, solver {p['solver_s']} s, {p['discharged']}/{p['obligations']} obligations, "
              f"cpu {p['cpu_s']} s, {'exhausted' if p['exhausted'] else 'NOT exhausted'}"
              + (f", pins {p['values_left_out']}" if p["values_left_out"] else "")
              + (f", divergent {p['nondeterministic_runs']}" if p["nondeterministic_runs"] else ""))
        if verbose:
            print("   ", p["covers"], "depth", p["max_decisions_on_a_path"], "slowest", p["slowest_query_s"])
    print(f"{prop} {tier}: wall {wall:.1f} s, {validated} traces validated, {len(allf)} functions encoded")
    for k in known:
        if k["seen"]:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if confirmed:
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        for n, (rec, f) in enumerate(confirmed[:3]):
            path = os.path.join(VERIF, "replay", f"{prop}_{n}.json")
            rec = dict(rec, failures=f[:10], how=f"cd {VERIF} && bash check.sh --replay {path}")
            with open(path, "w") as fh:
                json.dump(rec, fh, indent=1)
            print(f"  {rec['scenario']} {rec['inputs']}: {f[0]}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    for r, m, tb, _ in undecided[:5]:
        print(f"not reproduced: {r['scenario']} {r['inputs']}: {m}\n{tb or ''}", file=sys.stderr)
    for e in errors[:3]:
        print("engine error:", e, file=sys.stderr)
    if missing:
        print("reachability witnesses not reached:", missing, file=sys.stderr)
    decided = tot.discharged > 0 and any(r.discharged for r in results.values())
    if not decided or (missing and (errors or undecided or tot.complete)) or len(errors) > 3:
        print(f"{prop}: nothing decided", file=sys.stderr)
        return 2
    return 0


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", action="append")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    if a.replay:
        return main_replay(a.replay)
    return main_check(a.property.upper(), a.tier, a.only, a.budget, a.v)
