"""The harness API, in its symbolic and in its concrete (replay) form.

A property module defines  HARNESSES = [H(fn, name, params..., bounds=...)]  where fn(ctx, **params)
creates its inputs with ctx.int/str/bytes/..., runs the real code and asserts with ctx.check.
"""

class H:
    def __init__(s, fn, name=None, params=None, bounds="", tier="quick", weight=1.0, path_s=None, mode=None, obl_ms=None, max_s=None):
        s.fn = fn
        s.params = params or {}
        s.name = (name or fn.__name__) + ("" if not s.params else "[" + ",".join("%s=%s" % (k, repr(v) if isinstance(v, str) and not v.isalnum() else v) for k, v in s.params.items()) + "]")
        s.bounds = bounds
        s.tier = tier
        s.weight = weight
        s.path_s = path_s
        s.mode = mode
        s.obl_ms = obl_ms
        s.max_s = max_s

class AssumeFailed(BaseException): pass
class CheckFailed(BaseException): pass

def enc(v):
    if isinstance(v, bool) or v is None or isinstance(v, (int, float)): return v
    if isinstance(v, str): return {"s": [ord(c) for c in v]}
    if isinstance(v, (bytes, bytearray)): return {"b": list(v)}
    if isinstance(v, (list, tuple)): return [enc(x) for x in v]
    if isinstance(v, dict): return {"d": [[enc(k), enc(x)] for k, x in v.items()]}
    if isinstance(v, (set, frozenset)): return [enc(x) for x in sorted(v, key=repr)]
    return {"r": type(v).__name__}

def dec(v):
    if isinstance(v, list): return [dec(x) for x in v]
    if isinstance(v, dict):
        if "s" in v: return "".join(chr(c) for c in v["s"])
        if "b" in v: return bytes(v["b"])
        if "d" in v: return {dec(k): dec(x) for k, x in v["d"]}
        return None
    return v

class ConcreteCtx:
    """replays a harness on the plain modules with the given values"""
    symbolic = False
    def __init__(s, values, tier="quick"):
        s.v = values
        s.observed = {}
        s.failed = None
        s.covered = []
        s.tier = tier
    def _get(s, name, default):
        return s.v.get(name, default)
    def int(s, name, lo, hi): return s._get(name, lo)
    def bool(s, name): return bool(s._get(name, 0))
    def choice(s, name, options): return options[s._get(name, 0)]
    def str(s, name, n, lo=0, hi=255, chars=None):
        return s._get(name, chr(lo if chars is None else ord(chars[0])) * n)
    def bytes(s, name, n, lo=0, hi=255): return bytes(s._get(name, bytes([lo]) * n))
    def pick(s, name, options):
        """one of the options (strings)"""
        groups = pick_groups(options)
        if len(groups) > 1:
            g = groups[s._get(name + "#len", 0)]
        else: g = groups[0]
        return s._get(name + "#%d" % len(g[0]), g[0])
    def assume(s, c):
        if not c: raise AssumeFailed()
    def check(s, c, msg):
        if not c:
            s.failed = msg
            raise CheckFailed(msg)
    def cover(s, name): s.covered.append(name)
    def observe(s, name, v): s.observed[name] = v
    def eq(s, a, b): return a == b
    def all(s, conds): return all(conds)
    def any(s, conds): return any(conds)
    def implies(s, a, b): return (not a) or bool(b)
    def ite(s, c, a, b): return a if c else b
    def concretize(s, v): return v
    def bytesof(s, items): return bytes(items)
    def fork(s, c): return bool(c)

def pick_groups(options):
    g = {}
    for o in options: g.setdefault(len(o), []).append(o)
    return [g[k] for k in sorted(g)]
