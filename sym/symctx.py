import z3
from . import core, rt
from .core import SymInt, SymBool, and_, or_, not_, need
from .seq import mkstr, mkbytes, SymStr, chars_of
from .ctx import pick_groups

class SymCtx:
    symbolic = True
    def __init__(s, eng, tier="quick"):
        s.e = eng
        s.tier = tier
    def _var(s, name, lo, hi):
        if lo == hi: return lo
        w = need(lo, hi)
        if lo >= 0:
            e = z3.ZeroExt(1, z3.BitVec(name, w - 1))
            full = hi == (1 << (w - 1)) - 1 and lo == 0
        else:
            e = z3.BitVec(name, w)
            full = hi == (1 << (w - 1)) - 1 and lo == -(1 << (w - 1))
        v = SymInt(e, lo, hi)
        if not full:
            s.e.assume(SymBool(z3.And(e >= z3.BitVecVal(lo, w), e <= z3.BitVecVal(hi, w))))
        return v
    def int(s, name, lo, hi):
        v = s._var(name, lo, hi)
        s.e.vars[name] = v
        return v
    def bool(s, name):
        v = s._var(name, 0, 1)
        s.e.vars[name] = v
        return v == 1
    def choice(s, name, options):
        v = s._var(name, 0, len(options) - 1)
        s.e.vars[name] = v
        return options[s.e.concretize(v) if type(v) is SymInt else v]
    def str(s, name, n, lo=0, hi=255, chars=None):
        cs = []
        for i in range(n):
            if chars is not None:
                co = sorted(set(ord(c) for c in chars))
                v = s._var("%s.%d" % (name, i), co[0], co[-1])
                if len(co) != co[-1] - co[0] + 1: s.e.assume(rt.char_in(v, co))
            else:
                v = s._var("%s.%d" % (name, i), lo, hi)
            cs.append(v)
        v = mkstr(cs)
        s.e.vars[name] = v
        return v
    def bytes(s, name, n, lo=0, hi=255):
        v = mkbytes([s._var("%s.%d" % (name, i), lo, hi) for i in range(n)])
        s.e.vars[name] = v
        return v
    def pick(s, name, options):
        groups = pick_groups(options)
        g = groups[0]
        if len(groups) > 1:
            k = s._var(name + "#len", 0, len(groups) - 1)
            s.e.vars[name + "#len"] = k
            g = groups[s.e.concretize(k)]
        n = len(g[0])
        nm = name + "#%d" % n
        if len(g) == 1:
            v = g[0]
        else:
            cs = []
            for i in range(n):
                co = sorted(set(ord(o[i]) for o in g))
                cs.append(s._var("%s.%d" % (nm, i), co[0], co[-1]))
            v = SymStr(cs)
            s.e.assume(or_(*[v == o for o in g]))
            v = mkstr(v.c)
        s.e.vars[nm] = v
        return v
    def assume(s, c): s.e.assume(c)
    def check(s, c, msg): s.e.check(c, msg)
    def cover(s, name): s.e.cover_names.add(name)
    def observe(s, name, v): s.e.observed.append((name, v))
    def eq(s, a, b): return deq(a, b)
    def all(s, conds): return and_(*list(conds))
    def any(s, conds): return or_(*list(conds))
    def implies(s, a, b): return or_(not_(a), b)
    def ite(s, c, a, b): return core.ite(c, a, b)
    def concretize(s, v): return rt.realize(v)
    def bytesof(s, items): return mkbytes(list(items))
    def fork(s, c): return bool(c)

def deq(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b): return False
        return and_(*[deq(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b): return False
        r = []
        for k in list(a):
            v = rt.dict_load(b, k, NONE)
            if v is NONE: return False
            r.append(deq(a[k] if id(a) not in rt.FLAGGED else rt.dict_load(a, k), v))
        return and_(*r)
    return a == b

NONE = object()
