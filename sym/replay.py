"""Concrete replay of harness inputs on the plain (un-instrumented) code of /repo.

usage: replay.py FILE.json        replays one counterexample, exit 1 if it reproduces
       replay.py --server         JSON lines on stdin/stdout
"""
import sys, os, json, traceback, io, signal
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path[:0] = [REPO, HERE, os.path.join(HERE, "props")]
from sym.ctx import ConcreteCtx, AssumeFailed, CheckFailed, enc, dec

class Timeout(BaseException): pass
def _alarm(*a): raise Timeout()

def run(req):
    import importlib
    mod = importlib.import_module(req["module"])
    h = next((x for x in mod.harnesses(req.get("tier", "quick")) if x.name == req["harness"]), None)
    if h is None: return {"status": "missing"}
    ctx = ConcreteCtx({k: dec(v) for k, v in req["values"].items()}, req.get("tier", "quick"))
    res = {}
    old = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = io.StringIO()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(req.get("timeout", 40))
    try:
        try:
            h.fn(ctx, **h.params)
            res["status"] = "ok"
        except AssumeFailed: res["status"] = "assume"
        except CheckFailed as e:
            res["status"] = "viol"; res["msg"] = str(e)
        except Timeout:
            res["status"] = "timeout"; res["msg"] = "does not terminate within %d s" % req.get("timeout", 40)
        except RecursionError as e:
            res["status"] = "viol"; res["msg"] = "RecursionError"
        except (Exception, SystemExit) as e:
            tb = traceback.extract_tb(e.__traceback__)
            frames = [f for f in tb]
            last = frames[-1].filename if frames else ""
            inrepo = any(f.filename.startswith(REPO + "/") for f in frames)
            # an error raised directly in the harness (e.g. a name that is gone) says nothing about the code
            direct = last.startswith(HERE)
            res["status"] = "exc"
            res["harness_error"] = bool(direct and not getattr(e, "verif_ok", False)) or not inrepo
            res["msg"] = "%s: %s" % (type(e).__name__, e)
            res["where"] = ["%s:%d" % (os.path.basename(f.filename), f.lineno) for f in frames[-4:]]
    finally:
        signal.alarm(0)
        sys.stdout, sys.stderr = old
    try: res["observed"] = {k: enc(v) for k, v in ctx.observed.items()}
    except Exception as e: res["observed"] = {}
    res["covered"] = ctx.covered
    return res

def main():
    if sys.argv[1:] == ["--server"]:
        out = sys.stdout
        for line in sys.stdin:
            try: r = run(json.loads(line))
            except BaseException as e: r = {"status": "error", "msg": "%s: %s" % (type(e).__name__, e)}
            out.write(json.dumps(r) + "\n"); out.flush()
        return 0
    req = json.load(open(sys.argv[1]))
    r = run(req)
    print(json.dumps(r, indent=1))
    return 1 if r["status"] in ("viol", "timeout") or (r["status"] == "exc" and not r.get("harness_error")) else 0

if __name__ == "__main__": sys.exit(main())
