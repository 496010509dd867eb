"""Runs the harnesses of one property: symbolic exploration on all cores, replay of every counterexample
on the plain code, evidence file.

usage: python3-vt -m sym.run ID [--tier quick|thorough] [--only SUBSTR] [--budget S] [--serial] [-v]
"""
import sys, os, json, time, subprocess, multiprocessing as mp, traceback, signal, importlib, collections, select, glob
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
VENV = "/opt/venv"
for p in glob.glob(VENV + "/lib/python3*/site-packages"):
    if p not in sys.path: sys.path.append(p)
sys.setrecursionlimit(5000)
from . import core, inst, rt
from .symctx import SymCtx
from .ctx import enc, dec

class PathTimeout(BaseException): pass

class Replayer:
    def __init__(s): s.p = None
    def start(s):
        env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONNOUSERSITE="1", VERIF_REPO=REPO)
        py = VENV + "/bin/python"
        if not os.path.exists(py): py = sys.executable
        s.p = subprocess.Popen([py, os.path.join(HERE, "sym", "replay.py"), "--server"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                               stderr=subprocess.DEVNULL, text=True, env=env, cwd="/")
    def ask(s, req, timeout=60):
        if s.p is None or s.p.poll() is not None: s.start()
        try:
            s.p.stdin.write(json.dumps(req) + "\n"); s.p.stdin.flush()
            r, _, _ = select.select([s.p.stdout], [], [], timeout)
            if not r:
                s.p.kill(); s.p.wait(); s.p = None
                return {"status": "timeout", "msg": "no answer within %d s" % timeout}
            line = s.p.stdout.readline()
            if not line: return {"status": "error", "msg": "replay process died"}
            return json.loads(line)
        except (OSError, ValueError) as e:
            s.p = None
            return {"status": "error", "msg": repr(e)}
    def close(s):
        if s.p:
            try: s.p.kill(); s.p.wait()
            except Exception: pass

def exc_origin(e):
    fs = traceback.extract_tb(e.__traceback__)
    sym = os.path.join(HERE, "sym")
    code = [f for f in fs if not f.filename.startswith(sym)]
    inner = code[-1] if code else None
    return ("%s:%d" % (os.path.basename(inner.filename), inner.lineno)) if inner else "?"

def explore_task(prop, mod, h, prefixes, slice_s, deadline, tier, replayer, sample_quota):
    """explores from the prefixes for about slice_s seconds -> result dict"""
    eng = core.Engine(deadline=None)
    core.ENG = eng
    if h.mode: eng.check_mode = h.mode
    eng.obl_timeout_ms = h.obl_ms or (60000 if tier == "quick" else 300000)
    eng.deadline = deadline
    core.ENG_FUNCS.clear()
    res = dict(samples=[], mismatches=[], exceptions=[], validated=0, covers=collections.Counter(), hard=None)
    path_s = h.path_s or (60 if tier == "quick" else 240)
    ctx = SymCtx(eng, tier)
    def fn(e):
        rt.reset()
        h.fn(ctx, **h.params)
    def req(values): return dict(module=mod, harness=h.name, tier=tier, values={k: enc(v) for k, v in values.items()})
    eng.pending = list(prefixes)
    t0 = time.monotonic()
    npaths = 0
    quota = sample_quota
    def onalarm(*a): raise PathTimeout()
    signal.signal(signal.SIGALRM, onalarm)
    nviol = 0
    while eng.pending:
        if time.monotonic() > deadline: eng.stats["timeouts"] += 1; break
        if npaths and time.monotonic() - t0 > slice_s: break
        prefix = eng.pending.pop()
        signal.setitimer(signal.ITIMER_REAL, path_s)
        stop = None
        try:
            try:
                ended = eng.run_path(fn, prefix)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except core.EngineStop:
            eng.pending.append(prefix); eng.stats["timeouts"] += 1
            res["stopped"] = True
            break
        except core.Diverged:
            eng.incomplete = True
            res["diverged"] = res.get("diverged", 0) + 1
            npaths += 1
            eng._popto(0)
            continue
        except PathTimeout:
            eng.incomplete = True
            eng.stats["timeouts"] += 1
            res["path_timeouts"] = res.get("path_timeouts", 0) + 1
            ended = "timeout"
            if len(res["exceptions"]) < 5:
                try:
                    m = eng._model()
                    res["exceptions"].append(dict(kind="timeout", msg="path exceeded %d s" % path_s, values={k: enc(v) for k, v in eng.values(m).items()}))
                except BaseException: pass
            npaths += 1
            # the solver state may be inconsistent after an interruption
            pend = eng.pending
            st = eng.stats
            import z3
            eng.solver = z3.Solver(); eng.solver.set("timeout", eng.qtimeout); eng.stack = []
            continue
        except (Exception, SystemExit) as e:
            ended = "exc"
            eng.stats["paths"] += 1
            origin = exc_origin(e)
            if isinstance(e, core.Unsupported): eng.incomplete = True
            if len(res["exceptions"]) < 20:
                try:
                    m = eng._model()
                    res["exceptions"].append(dict(kind="exc", msg="%s: %s" % (type(e).__name__, str(e)[:200] if not rt.hassym(e.args) else "(symbolic)"), origin=origin,
                                                  tb=traceback.format_exc()[-1500:], values={k: enc(v) for k, v in eng.values(m).items()}))
                except core.PathAbort: pass
        npaths += 1
        if ended == "end":
            for c in eng.cover_names: res["covers"][c] += 1
            if quota > 0:
                quota -= 1
                try:
                    m = eng._model()
                    vals = eng.values(m)
                    obs = {k: enc(eng.evalv(m, v)) for k, v in eng.observed}
                except (core.PathAbort,): continue
                r = replayer.ask(req(vals))
                res["validated"] += 1
                if len(res["samples"]) < 2: res["samples"].append(dict(harness=h.name, values={k: show(v) for k, v in vals.items()}))
                if r["status"] == "ok":
                    o2 = r.get("observed", {})
                    bad = [k for k in obs if k in o2 and obs[k] != o2[k]]
                    if bad: res["mismatches"].append(dict(harness=h.name, values={k: enc(v) for k, v in vals.items()}, what={k: [obs[k], o2[k]] for k in bad}))
                elif r["status"] in ("viol", "timeout") or (r["status"] == "exc" and not r.get("harness_error")):
                    if not eng.violations or True:
                        eng.violations.append(dict(msg=r.get("msg", ""), values=vals, confirmed=r))
                elif r["status"] == "assume":
                    res["mismatches"].append(dict(harness=h.name, values={k: enc(v) for k, v in vals.items()}, what="assumption fails concretely"))
                else:
                    res["mismatches"].append(dict(harness=h.name, values={k: enc(v) for k, v in vals.items()}, what=r))
        if len(eng.violations) > nviol + 4: break
    res["pending"] = eng.pending
    res["stats"] = eng.stats
    res["violations"] = [dict(msg=v["msg"], values={k: enc(x) for k, x in v["values"].items()}, confirmed=v.get("confirmed")) for v in eng.violations]
    res["incomplete"] = eng.incomplete
    res["funcs"] = sorted(core.ENG_FUNCS)
    res["unsupported"] = eng.unsupported_notes
    res["concretized_at"] = eng.concrete_notes
    res["wall"] = time.monotonic() - t0
    return res

def show(v):
    if isinstance(v, (bytes, bytearray)): return "bytes " + bytes(v).hex() if len(v) <= 64 else "bytes[%d] %s..." % (len(v), bytes(v[:32]).hex())
    if isinstance(v, str) and len(v) > 80: return v[:80] + "..."
    return v

def worker(conn, prop, mod, harnesses, tier, deadline):
    rep = Replayer()
    try:
        while True:
            try: msg = conn.recv()
            except EOFError: break
            if msg is None: break
            hid, prefixes, slice_s, quota = msg
            try: res = explore_task(prop, mod, harnesses[hid], prefixes, slice_s, deadline, tier, rep, quota)
            except BaseException as e:
                res = dict(error="%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-2000:]))
            conn.send((hid, res))
    finally:
        rep.close()
        os._exit(0)

def load(prop, tier):
    inst.install([REPO, os.path.join(HERE, "props")], [REPO])
    core.ENG = core.Engine()
    m = importlib.import_module(prop.lower())
    return m

def merge(agg, res):
    st = agg["stats"]
    for k, v in res["stats"].items(): st[k] = st.get(k, 0) + v
    agg["validated"] += res["validated"]
    agg["covers"].update(res["covers"])
    agg["funcs"].update(res["funcs"])
    for k, v in res["unsupported"].items(): agg["unsupported"][k] = agg["unsupported"].get(k, 0) + v
    for k, v in res["concretized_at"].items(): agg["concretized_at"][k] = agg["concretized_at"].get(k, 0) + v
    if len(agg["samples"]) < 3: agg["samples"] += res["samples"]
    agg["mismatches"] += res["mismatches"][:3]
    agg["exceptions"] += res["exceptions"]
    agg["cpu"] += res["wall"]
    agg["diverged"] += res.get("diverged", 0)
    agg["incomplete"] |= res["incomplete"]

def run_property(prop, tier="quick", only=None, budget=None, nproc=None, verbose=False):
    t0 = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    m = load(prop, tier)
    hs = [h for h in m.harnesses(tier) if (not only or only in h.name)]
    budget = budget or (getattr(m, "BUDGET_THOROUGH", 780) if tier == "thorough" else getattr(m, "BUDGET", 150))
    deadline = t0 + budget
    nproc = nproc or min(int(os.environ.get("VERIF_PROCS", "8")), os.cpu_count() or 1)
    pending = [collections.deque([([], 0)]) for _ in hs]
    aggs = [dict(stats={}, validated=0, covers=collections.Counter(), funcs=set(), unsupported={}, concretized_at={}, samples=[], mismatches=[], exceptions=[], cpu=0.0, diverged=0, incomplete=False, slices=0, inflight=0) for _ in hs]
    workers = []
    for _ in range(nproc):
        a, b = mp.Pipe()
        pid = os.fork()
        if pid == 0:
            a.close()
            for w in workers: w["conn"].close()
            worker(b, prop, prop.lower(), hs, tier, deadline)
            os._exit(0)
        b.close()
        workers.append(dict(conn=a, pid=pid, busy=None, since=0))
    violations = []
    confirmed = None
    rep = Replayer()
    notes = []
    def confirm(hid, values, msg, kind, already=None):
        req = dict(property=prop, module=prop.lower(), harness=hs[hid].name, tier=tier, values=values)
        r = already or rep.ask(dict(req, timeout=40), 60)
        if r["status"] in ("viol", "timeout") or (r["status"] == "exc" and not r.get("harness_error")):
            if r["status"] == "timeout" and kind != "timeout" and not already: pass
            d = os.path.join(HERE, "evidence", "replay"); os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%s.json" % (prop, tier))
            req["message"] = r.get("msg", msg)
            with open(path, "w") as f: json.dump(req, f)
            return path, r
        return None, r
    try:
        while True:
            now = time.monotonic()
            # hand out work
            idle = [w for w in workers if w["busy"] is None and not w.get("dead")]
            if now < deadline and confirmed is None:
                for w in idle:
                    cand = [i for i in range(len(hs)) if pending[i] and not (hs[i].max_s and aggs[i]["cpu"] > hs[i].max_s)]
                    if not cand: break
                    i = min(cand, key=lambda i: (aggs[i]["cpu"] + 1.5 * aggs[i]["inflight"]) / hs[i].weight)
                    q = pending[i]
                    # spread: few prefixes at a time while there is little work
                    k = max(1, min(len(q) // nproc, 64))
                    pf = [q.popleft() for _ in range(k)]
                    quota = 3 if aggs[i]["validated"] < 24 else 1 if aggs[i]["validated"] < 120 else 0
                    sl = 0.5 if aggs[i]["slices"] < nproc else 3.0
                    w["conn"].send((i, pf, sl, quota))
                    w["busy"] = i; w["since"] = now; w["pf"] = pf
                    aggs[i]["inflight"] += 1
            busy = [w for w in workers if w["busy"] is not None]
            if not busy: break
            if now > deadline + 45:
                break
            ready = mp.connection.wait([w["conn"] for w in busy], timeout=1.0)
            for w in busy:
                if w["conn"] not in ready: continue
                try: hid, res = w["conn"].recv()
                except (EOFError, OSError):
                    notes.append("a worker died in %s" % hs[w["busy"]].name)
                    aggs[w["busy"]]["incomplete"] = True
                    w["dead"] = True; w["busy"] = None
                    continue
                w["busy"] = None
                aggs[hid]["inflight"] -= 1
                aggs[hid]["slices"] += 1
                if "error" in res:
                    notes.append("%s: %s" % (hs[hid].name, res["error"])); aggs[hid]["incomplete"] = True
                    continue
                merge(aggs[hid], res)
                pending[hid].extendleft(reversed(res["pending"]))
                for v in res["violations"]:
                    if confirmed: break
                    path, r = confirm(hid, v["values"], v["msg"], "viol", v.get("confirmed"))
                    if path: confirmed = (hid, path, r, v)
                    else:
                        aggs[hid]["mismatches"].append(dict(harness=hs[hid].name, what="counterexample not reproduced: %s -> %s" % (v["msg"], r), values=v["values"]))
                for x in res["exceptions"]:
                    if confirmed: break
                    path, r = confirm(hid, x["values"], x["msg"], x["kind"])
                    x["replay"] = r
                    if path: confirmed = (hid, path, r, x)
                    else: aggs[hid]["incomplete"] = True
            if confirmed: break
    finally:
        for w in workers:
            try: os.kill(w["pid"], signal.SIGKILL)
            except OSError: pass
        for w in workers:
            try: os.waitpid(w["pid"], 0)
            except OSError: pass
        rep.close()
    wall = time.monotonic() - t0
    for i, h in enumerate(hs):
        if pending[i] or aggs[i]["inflight"]: aggs[i]["incomplete"] = True
    write_evidence(prop, tier, seed, m, hs, aggs, pending, wall, confirmed, notes, only)
    for i, h in enumerate(hs):
        a = aggs[i]
        st = a["stats"]
        missing = [c for c in getattr(h.fn, "covers", []) if not a["covers"].get(c)]
        print("%-46s paths=%d branches=%d queries=%d obl=%d/%d solver=%.1fs cpu=%.1fs val=%d %s%s%s" % (h.name[:46], st.get("paths", 0), st.get("branches", 0), st.get("queries", 0),
              st.get("discharged", 0), st.get("obligations", 0), st.get("solver_s", 0), a["cpu"], a["validated"], "INCOMPLETE(%d)" % len(pending[i]) if a["incomplete"] else "exhaustive", " DIVERGED:%d" % a["diverged"] if a["diverged"] else "", " COVER-MISSING:%s" % missing if missing else ""))
        if verbose or a["mismatches"] or a["exceptions"]:
            if a["concretized_at"] and verbose: print("    concretized", sorted(a["concretized_at"].items(), key=lambda kv: -kv[1])[:8])
            if a["unsupported"]: print("    unsupported", a["unsupported"])
            for x in a["mismatches"][:3]: print("    MISMATCH", str(x)[:1500])
            seen = set()
            for x in a["exceptions"]:
                if x["msg"] in seen or len(seen) > 3: continue
                seen.add(x["msg"])
                print("    EXC", x["kind"], x["msg"], x.get("origin"), "replay:", str(x.get("replay"))[:300])
                if verbose: print(x.get("tb", ""))
    for n in notes: print("note:", n)
    print("wall %.1fs" % wall)
    if confirmed:
        hid, path, r, v = confirmed
        print("counterexample in %s: %s %s" % (hs[hid].name, r.get("msg"), r.get("where", "")))
        print("values: %s" % {k: show(dec(x)) for k, x in v["values"].items()})
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0

def write_evidence(prop, tier, seed, m, hs, aggs, pending, wall, confirmed, notes, only):
    tot = collections.Counter()
    funcs = set()
    for a in aggs:
        for k, v in a["stats"].items(): tot[k] += v
        funcs |= a["funcs"]
    ev = dict(property=prop, tier=tier, seed=seed, level="other", wall_s=round(wall, 2), violations=1 if confirmed else 0,
        coverage=dict(
            explanation="Symbolic execution of the functions listed under functions_encoded, from their current source in /repo: every path feasible within the bounds is "
                        "explored and the assertion is decided by z3 for all input values of the path. Harnesses marked exhaustive had all their paths explored and all "
                        "their obligations decided; the others ran out of their time budget (open_paths) and claim only the explored paths.",
            technique=getattr(m, "TECHNIQUE", "bounded symbolic execution of the real Python code, decided by z3"),
            functions_encoded=sorted(funcs),
            outside_bounds=getattr(m, "OUTSIDE", ""),
            harnesses=[dict(name=h.name, bounds=h.bounds, paths=a["stats"].get("paths", 0), infeasible_or_assumed_away=a["stats"].get("aborted", 0), branch_decisions=a["stats"].get("branches", 0),
                            queries=a["stats"].get("queries", 0), solver_s=round(a["stats"].get("solver_s", 0), 2), obligations=a["stats"].get("obligations", 0), discharged=a["stats"].get("discharged", 0),
                            unknown=a["stats"].get("unknown", 0), exhaustive=not a["incomplete"], open_paths=len(pending[i]), diverged=a["diverged"], reached=dict(a["covers"]),
                            concretized=a["stats"].get("concretized", 0), unsupported=a["unsupported"], replayed_on_plain_code=a["validated"], replay_disagreements=len(a["mismatches"]),
                            harness_errors=sorted(set(str(x["msg"])[:200] for x in a["exceptions"]))[:5])
                       for i, (h, a) in enumerate(zip(hs, aggs))],
            paths=tot["paths"], queries=tot["queries"], solver_s=round(tot["solver_s"], 2), obligations=tot["obligations"], discharged=tot["discharged"], unknown=tot["unknown"],
            replayed_on_plain_code=sum(a["validated"] for a in aggs),
            samples=[x for a in aggs for x in a["samples"][:1]][:12],
            exhaustive=all(not a["incomplete"] for a in aggs),
            notes=notes[:5]),
        assumptions=getattr(m, "ASSUMPTIONS", []))
    d = os.path.join(HERE, "evidence"); os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f: json.dump(ev, f, indent=1, default=str)

def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = budget = nproc = None
    verbose = "-v" in a
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    if "--only" in a: only = a[a.index("--only") + 1]
    if "--budget" in a: budget = float(a[a.index("--budget") + 1])
    if "--serial" in a: nproc = 1
    sys.stdout.reconfigure(line_buffering=True)
    known = known_findings(prop)
    r = run_property(prop, tier, only, budget, nproc, verbose)
    if r == 0:
        for line in known: print(line)
    return r

def known_findings(prop):
    f = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(f): return []
    out = []
    rep = Replayer()
    for e in json.load(open(f)).get("known", []):
        if e["property"] != prop: continue
        out.append("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
    rep.close()
    return out

if __name__ == "__main__":
    sys.exit(main())
