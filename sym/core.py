"""Core of the symbolic executor: z3 proxies for Python values and the path explorer.

SymInt holds a z3 bit-vector (signed reading) together with a sound interval [lo, hi]; every
operation widens the vector so that Python's unbounded integer semantics are kept exactly.
SymBool forks the path when its truth value is demanded.  SymStr/SymBytes/SymBytearray have a
concrete length and possibly symbolic characters.
"""
import sys, time, os
import z3
import multiprocessing.connection

class PathAbort(BaseException):
    """Ends the current path (infeasible assumption)"""
class EngineStop(BaseException):
    """Ends the exploration (time budget)"""
class Unsupported(Exception):
    pass

def need(lo, hi):
    """signed width needed for [lo, hi]"""
    return max(lo.bit_length() if lo >= 0 else (-lo - 1).bit_length(), hi.bit_length() if hi >= 0 else (-hi - 1).bit_length()) + 1

ENG = None  # the current engine

def fit(e, w):
    s = e.size()
    if s == w: return e
    if s < w: return z3.SignExt(w - s, e)
    return z3.Extract(w - 1, 0, e)

def const(v, w):
    return z3.BitVecVal(v, w)

class SymBool:
    __slots__ = ("e",)
    def __init__(s, e): s.e = e
    def __bool__(s): return ENG.branch(s.e)
    def toint(s): return SymInt(z3.If(s.e, const(1, 2), const(0, 2)), 0, 1)
    def __eq__(s, o):
        if type(o) is SymBool: return mkbool(s.e == o.e)
        if o is True or (type(o) is int and o == 1): return s
        if o is False or (type(o) is int and o == 0): return mkbool(z3.Not(s.e))
        if type(o) is SymInt: return s.toint() == o
        return False
    def __ne__(s, o): return not_(s == o)
    def __hash__(s): return hash(bool(s))
    def __and__(s, o):
        if isbool(o): return and_(s, o)
        return s.toint() & o
    __rand__ = __and__
    def __or__(s, o):
        if isbool(o): return or_(s, o)
        return s.toint() | o
    __ror__ = __or__
    def __xor__(s, o):
        if isbool(o): return mkbool(z3.Xor(s.e, bexpr(o)))
        return s.toint() ^ o
    __rxor__ = __xor__
    def __index__(s): return int(bool(s))
    def __int__(s): return int(bool(s))
    def __repr__(s): return "<SymBool>"
    def __neg__(s): return -s.toint()
    def __invert__(s): return ~s.toint()

def _bool_arith(name):
    def f(s, o): return getattr(s.toint(), name)(o)
    f.__name__ = name
    return f
for _n in ("add radd sub rsub mul rmul lshift rlshift rshift rrshift floordiv rfloordiv mod rmod lt le gt ge truediv rtruediv pow rpow".split()):
    setattr(SymBool, "__%s__" % _n, _bool_arith("__%s__" % _n))

def isbool(o): return type(o) is bool or type(o) is SymBool
def bexpr(o):
    if type(o) is SymBool: return o.e
    if type(o) is bool: return z3.BoolVal(o)
    if type(o) is SymInt: return (o != 0).e if type(o != 0) is SymBool else z3.BoolVal(bool(o != 0))
    return z3.BoolVal(bool(o))
def mkbool(e):
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    return SymBool(e)
def not_(b):
    if type(b) is SymBool: return SymBool(z3.Not(b.e)) if not z3.is_not(b.e) else SymBool(b.e.arg(0))
    if type(b) is SymInt: return b == 0
    return not b
def and_(*bs):
    es = []
    for b in bs:
        if type(b) is SymBool: es.append(b.e)
        elif type(b) is SymInt: es.append(bexpr(b))
        elif not b: return False
    if not es: return True
    return SymBool(z3.And(*es) if len(es) > 1 else es[0])
def or_(*bs):
    es = []
    for b in bs:
        if type(b) is SymBool: es.append(b.e)
        elif type(b) is SymInt: es.append(bexpr(b))
        elif b: return True
    if not es: return False
    return SymBool(z3.Or(*es) if len(es) > 1 else es[0])

def _int(o):
    """-> int / SymInt / None"""
    t = type(o)
    if t is SymInt or t is int: return o
    if t is bool: return int(o)
    if t is SymBool: return o.toint()
    if isinstance(o, int): return int(o)
    return None

class SymInt:
    __slots__ = ("e", "lo", "hi")
    def __init__(s, e, lo, hi):
        s.e, s.lo, s.hi = e, lo, hi
    def w(s, n):
        return fit(s.e, n)
    # --- conversion
    def __bool__(s):
        if s.lo > 0 or s.hi < 0: return True
        return ENG.branch(s.e != 0)
    def __index__(s): return ENG.concretize(s)
    def __int__(s): return ENG.concretize(s)
    def __float__(s): return float(ENG.concretize(s))
    def __hash__(s): return hash(ENG.concretize(s))
    def __repr__(s): return "<SymInt %d..%d>" % (s.lo, s.hi)
    def __str__(s): return str(ENG.concretize(s))
    def __format__(s, spec): return format(ENG.concretize(s), spec)
    def __round__(s, n=None): return s
    def __trunc__(s): return s
    def __floor__(s): return s
    def __ceil__(s): return s
    def bit_length(s):
        a = abs(s)
        if type(a) is int: return a.bit_length()
        r = 0
        for k in range(1, a.hi.bit_length() + 1):
            r = ite(a >= (1 << (k - 1)), k, r)
        return r
    def to_bytes(s, length=1, byteorder="big", *, signed=False):
        lo, hi = (-(1 << (8*length-1)), (1 << (8*length-1)) - 1) if signed else (0, (1 << (8*length)) - 1)
        if s.lo < lo or s.hi > hi:
            if not bool(and_(s >= lo, s <= hi)): raise OverflowError("int too big to convert")
        bs = [(s >> (8 * i)) & 0xff for i in range(length)]
        if byteorder == "big": bs.reverse()
        from .seq import mkbytes
        return mkbytes(bs)
    # --- comparison
    def _cmp(s, o, op):
        o = _int(o)
        if o is None: return NotImplemented
        if type(o) is int:
            ol = oh = o
        else:
            ol, oh = o.lo, o.hi
        if op == "==":
            if s.hi < ol or oh < s.lo: return False
        elif op == "<":
            if s.hi < ol: return True
            if s.lo >= oh: return False
        elif op == "<=":
            if s.hi <= ol: return True
            if s.lo > oh: return False
        W = max(s.e.size(), need(ol, oh) if type(o) is int else o.e.size())
        a = s.w(W)
        b = const(o, W) if type(o) is int else o.w(W)
        if op == "==": e = a == b
        elif op == "<": e = a < b
        else: e = a <= b
        return SymBool(e)
    def __eq__(s, o):
        if type(o) is float:
            if o == int(o) if o == o and abs(o) != float("inf") else False: o = int(o)
            else: return False
        r = s._cmp(o, "==")
        return False if r is NotImplemented else r
    def __ne__(s, o): return not_(s == o)
    def __lt__(s, o):
        if type(o) is float: import math; return s < math.ceil(o)
        return s._cmp(o, "<")
    def __le__(s, o):
        if type(o) is float: import math; return s <= math.floor(o)
        return s._cmp(o, "<=")
    def __gt__(s, o):
        if type(o) is float: import math; return s > math.floor(o)
        r = s._cmp(o, "<=")
        return r if r is NotImplemented else not_(r)
    def __ge__(s, o):
        if type(o) is float: import math; return s >= math.ceil(o)
        r = s._cmp(o, "<")
        return r if r is NotImplemented else not_(r)
    # --- arithmetic
    def __add__(s, o):
        if type(o) is float:
            n, d = o.as_integer_ratio()
            if d.bit_length() > 32 and o >= 0 and s.lo >= 0: return SymRat(n, d.bit_length() - 1, 1, s, 0)
            return SymDyadic(s, 0) + o
        o = _int(o)
        if o is None: return NotImplemented
        if type(o) is int:
            if o == 0: return s
            lo, hi = s.lo + o, s.hi + o
            W = max(need(lo, hi), s.e.size())
            return SymInt(fit(s.w(W) + const(o, W), need(lo, hi)), lo, hi)
        lo, hi = s.lo + o.lo, s.hi + o.hi
        W = need(lo, hi)
        return SymInt(s.w(W) + o.w(W), lo, hi)
    __radd__ = __add__
    def __sub__(s, o):
        if type(o) is float: return SymDyadic(s, 0) - o
        o = _int(o)
        if o is None: return NotImplemented
        if type(o) is int: return s + (-o)
        lo, hi = s.lo - o.hi, s.hi - o.lo
        W = need(lo, hi)
        return mkint(s.w(W) - o.w(W), lo, hi)
    def __rsub__(s, o):
        if type(o) is float: return -(SymDyadic(s, 0) - o)
        o = _int(o)
        if o is None: return NotImplemented
        lo, hi = o - s.hi, o - s.lo
        W = max(need(lo, hi), s.e.size(), need(o, o))
        return mkint(fit(const(o, W) - s.w(W), need(lo, hi)), lo, hi)
    def __neg__(s):
        if s.e.decl().kind() == z3.Z3_OP_BSUB and z3.is_bv_value(s.e.arg(0)) and s.e.arg(0).as_long() == 0:
            # -(0 - x): x again (the widths make the negation exact)
            x = s.e.arg(1)
            lo, hi = -s.hi, -s.lo
            return mkint(fit(x, need(lo, hi)) if x.size() != need(lo, hi) else x, lo, hi)
        return s.__rsub__(0)
    def __pos__(s): return s
    def __invert__(s): return s.__rsub__(-1)
    def __abs__(s):
        if s.lo >= 0: return s
        if s.hi <= 0: return -s
        return ite(s < 0, -s, s)
    def __mul__(s, o):
        t = type(o)
        if t is float: return SymDyadic.of(s) * o
        if t in (str, bytes, list, tuple): return o_mul_seq(s, o)
        o = _int(o)
        if o is None: return NotImplemented
        if type(o) is int:
            if o == 0: return 0
            if o == 1: return s
            if o > 0 and o & (o - 1) == 0: return s << (o.bit_length() - 1)
            lo, hi = sorted((s.lo * o, s.hi * o))
            W = need(lo, hi)
            return SymInt(s.w(W) * const(o, W), lo, hi)
        c = (s.lo * o.lo, s.lo * o.hi, s.hi * o.lo, s.hi * o.hi)
        lo, hi = min(c), max(c)
        W = max(need(lo, hi), s.e.size(), o.e.size())
        a, b = s.w(W), o.w(W)
        if a.hash() > b.hash(): a, b = b, a   # (not get_id: that differs between runs)
        return mkint(fit(a * b, need(lo, hi)), lo, hi)
    __rmul__ = __mul__
    def __lshift__(s, o):
        o = _int(o)
        if o is None: return NotImplemented
        if type(o) is int:
            if o < 0: raise ValueError("negative shift count")
            if o == 0: return s
            return SymInt(z3.Concat(s.e, const(0, o)), s.lo << o, s.hi << o)
        if o.lo < 0 and bool(o < 0): raise ValueError("negative shift count")
        ol, oh = max(o.lo, 0), o.hi
        if oh > 128:
            if not bool(o <= 128): return s << ENG.concretize(o)
            oh = 128
        lo = min(s.lo << oh, s.lo << ol); hi = max(s.hi << oh, s.hi << ol)
        W = max(need(lo, hi), o.e.size(), s.e.size())
        return mkint(fit(s.w(W) << o.w(W), need(lo, hi)), lo, hi)
    def __rlshift__(s, o):
        o = _int(o)
        if o is None: return NotImplemented
        return lift(o).__lshift__(s)
    def __rshift__(s, o):
        o = _int(o)
        if o is None: return NotImplemented
        if type(o) is int:
            if o < 0: raise ValueError("negative shift count")
            if o == 0: return s
            lo, hi = s.lo >> o, s.hi >> o
            if lo == hi: return lo
            if o >= s.e.size(): return ite(s < 0, -1, 0)
            return SymInt(fit(z3.Extract(s.e.size() - 1, o, s.e), need(lo, hi)), lo, hi)
        if o.lo < 0 and bool(o < 0): raise ValueError("negative shift count")
        ol, oh = max(o.lo, 0), o.hi
        if oh > 256:
            if not bool(o <= 256): return ite(s < 0, -1, 0)
            oh = 256
        lo = min(s.lo >> ol, s.lo >> min(oh, 4096)); hi = max(s.hi >> ol, s.hi >> min(oh, 4096))
        W = max(s.e.size(), o.e.size())
        return mkint(fit(s.w(W) >> o.w(W), need(lo, hi)), lo, hi)
    def __rrshift__(s, o):
        o = _int(o)
        if o is None: return NotImplemented
        return lift(o).__rshift__(s)
    def __and__(s, o):
        o = _int(o)
        if o is None: return NotImplemented
        if type(o) is int:
            if o == 0: return 0
            if o == -1: return s
            if s.lo >= 0 and o > 0 and (o & (o + 1)) == 0 and s.hi <= o: return s
            if o > 0 and (o & (o + 1)) == 0:  # low mask
                k = o.bit_length()
                e = s.e if s.e.size() >= k else s.w(k)
                hi = o
                if s.lo >= 0: hi = min(hi, s.hi)
                return SymInt(z3.ZeroExt(1, z3.Extract(k - 1, 0, e)), 0, o) if hi == o else SymInt(fit(z3.ZeroExt(1, z3.Extract(k - 1, 0, e)), need(0, hi)), 0, hi)
            ol = oh = o
        else:
            ol, oh = o.lo, o.hi
        if s.lo >= 0 and ol >= 0:
            lo, hi = 0, min(s.hi, oh)
        elif s.lo >= 0: lo, hi = 0, s.hi
        elif ol >= 0: lo, hi = 0, oh
        else:
            k = max(need(s.lo, s.hi), need(ol, oh)) - 1
            lo, hi = -(1 << k), (1 << k) - 1
            hi = min(hi, max(s.hi, oh))if (s.hi >= 0 or oh >= 0) else -1
            hi = max(hi, lo)
        return s._bit(o, lambda a, b: a & b, lo, hi)
    __rand__ = __and__
    def _bit(s, o, op, lo, hi):
        W = max(s.e.size(), need(o, o) if type(o) is int else o.e.size())
        a, b = s.w(W), (const(o, W) if type(o) is int else o.w(W))
        return mkint(fit(op(a, b), need(lo, hi)), lo, hi)
    def _orbounds(s, o):
        ol, oh = (o, o) if type(o) is int else (o.lo, o.hi)
        k = max(need(s.lo, s.hi), need(ol, oh)) - 1
        return ol, oh, k
    def __or__(s, o):
        o = _int(o)
        if o is None: return NotImplemented
        if type(o) is int and o == 0: return s
        ol, oh, k = s._orbounds(o)
        if s.lo >= 0 and ol >= 0: lo, hi = max(s.lo, ol), (1 << k) - 1
        else:
            lo, hi = -(1 << k), (1 << k) - 1
            if s.hi < 0 or oh < 0: hi = -1
        return s._bit(o, lambda a, b: a | b, lo, hi)
    __ror__ = __or__
    def __xor__(s, o):
        o = _int(o)
        if o is None: return NotImplemented
        if type(o) is int and o == 0: return s
        ol, oh, k = s._orbounds(o)
        if s.lo >= 0 and ol >= 0: lo, hi = 0, (1 << k) - 1
        else: lo, hi = -(1 << k), (1 << k) - 1
        return s._bit(o, lambda a, b: a ^ b, lo, hi)
    __rxor__ = __xor__
    def __floordiv__(s, o): 
        if type(o) is float: return NotImplemented
        return divmod_(s, o, 0)
    def __rfloordiv__(s, o): return divmod_(o, s, 0)
    def __mod__(s, o): return divmod_(s, o, 1)
    def __rmod__(s, o):
        if isinstance(o, (str, bytes)):
            from . import rt
            return rt.mod(o, s)
        return divmod_(o, s, 1)
    def __divmod__(s, o): return divmod_(s, o, 0), divmod_(s, o, 1)
    def __rdivmod__(s, o): return divmod_(o, s, 0), divmod_(o, s, 1)
    def __truediv__(s, o): return SymDyadic.of(s) / o
    def __rtruediv__(s, o):
        return ENG.concretize_num(o) / ENG.concretize(s)
    def __pow__(s, o, mod=None):
        if type(o) is SymInt: o = ENG.concretize(o)
        if o < 0: return ENG.concretize(s) ** o
        r = 1
        for _ in range(o): r = r * s
        return r
    def __rpow__(s, o, mod=None):
        if type(o) is int and o == 2 and s.lo >= 0: return 1 << s
        return o ** ENG.concretize(s)
    @property
    def real(s): return s
    def is_integer(s): return True
    def conjugate(s): return s

def o_mul_seq(s, o):
    return o * ENG.concretize(s)

def raise_unsupported(msg):
    ENG.note_unsupported(msg)
    raise Unsupported(msg)

def mkint(e, lo, hi):
    if lo == hi: return lo
    return SymInt(e, lo, hi)

def lift(o):
    if type(o) is int: return SymInt(const(o, need(o, o)), o, o)
    return _int(o)

def divmod_(a, b, which):
    a, b = _int(a), _int(b)
    if a is None or b is None: return NotImplemented
    if type(b) is int:
        if b == 0: raise ZeroDivisionError("integer division or modulo by zero")
        if b == 1: return 0 if which else a
        if b > 0 and b & (b - 1) == 0:
            k = b.bit_length() - 1
            return (a & (b - 1)) if which else (a >> k)
        b_ = lift(b)
    else:
        b_ = b
        if b.lo <= 0 <= b.hi and bool(b == 0): raise ZeroDivisionError("integer division or modulo by zero")
    a_ = lift(a)
    A, B = a_, b_
    W = max(A.e.size(), B.e.size()) + 1
    if A.lo >= 0 and B.lo >= 0:
        return _udivmod(A, B, which)
    if type(b) is not int or A.e.size() > 24:
        # wide signed division: split on the signs so that equal quotients are equal terms
        an = A.hi < 0 or (A.lo < 0 and bool(A < 0))
        bn = B.hi < 0 or (B.lo < 0 and bool(B < 0))
        X = lift(-A) if an else A
        Y = lift(-B) if bn else B
        X = nonneg(X); Y = nonneg(Y)
        if which:
            r = _udivmod(X, Y, 1)
            if an != bn: r = ite(r == 0, 0, Y - r)
            return -r if bn else r
        q = _udivmod(X, Y, 0)
        if an != bn:
            r = _udivmod(X, Y, 1)
            return -q - ite(r == 0, 0, 1)
        return q
    x, y = A.w(W), B.w(W)
    r = z3.SRem(x, y)
    adj = z3.And(r != 0, (r < 0) != (y < 0))
    if which:
        m = max(abs(B.lo), abs(B.hi))
        lo, hi = (-(m - 1) if B.lo < 0 else 0), (m - 1 if B.hi > 0 else 0)
        return mkint(fit(z3.If(adj, r + y, r), need(lo, hi)), lo, hi)
    q = x / y
    m = max(abs(A.lo), abs(A.hi))
    lo, hi = -m - 1, m
    if B.lo > 0:
        lo, hi = (A.lo // B.lo if A.lo < 0 else 0), (A.hi // B.lo if A.hi >= 0 else -1)
    return mkint(fit(z3.If(adj, q - 1, q), max(need(lo, hi), 1)), lo, hi)

def digits(v, base, n):
    """the n digits of 0 <= v < base**n, most significant first, as fresh variables the solver gets the defining equation of"""
    eng = ENG
    key = (v.e.get_id(), base, n)
    hit = eng.digit_cache.get(key)
    if hit is not None: return hit[0]
    dw = need(0, base - 1) - 1
    W = need(0, base ** n - 1)
    def fn(x):
        conds, acc = [], None
        for i in range(n):
            d = z3.Extract((n - i) * dw - 1, (n - i - 1) * dw, x)
            conds.append(z3.ULE(d, z3.BitVecVal(base - 1, dw)))
            de = z3.ZeroExt(W - dw, d)
            acc = de if acc is None else acc * const(base, W) + de
        return z3.And(acc == v.w(W), *conds)
    x = eng.define(n * dw, "digits", fn)
    out = [SymInt(z3.Concat(z3.BitVecVal(0, 1), z3.Extract((n - i) * dw - 1, (n - i - 1) * dw, x)), 0, base - 1) for i in range(n)]
    eng.digit_cache[key] = (out, v)
    return out

def clip(x, lo, hi):
    """x with the bounds lo..hi: the caller only uses the value where it lies in them (it is wrapped to that width elsewhere)"""
    if type(x) is int: return x
    w = need(lo, hi)
    e = x.e
    e = z3.Extract(w - 1, 0, e) if e.size() > w else fit(e, w)
    if lo >= 0: return SymInt(z3.ZeroExt(1, z3.Extract(w - 2, 0, e)), 0, (1 << (w - 1)) - 1)
    return SymInt(e, -(1 << (w - 1)), (1 << (w - 1)) - 1)

def nonneg(x):
    """x is known to be >= 0"""
    if x.lo >= 0: return x
    return SymInt(x.e, 0, max(x.hi, 0))

def _udivmod(A, B, which):
    W = max(A.e.size(), B.e.size()) + 1
    x, y = A.w(W), B.w(W)
    if which:
        lo, hi = 0, min(A.hi, max(B.hi - 1, 0))
        return mkint(fit(z3.URem(x, y), need(lo, hi)), lo, hi)
    lo, hi = A.lo // max(B.hi, 1), A.hi // max(B.lo, 1)
    return mkint(fit(z3.UDiv(x, y), need(lo, hi)), lo, hi)

def ite(c, a, b):
    if type(c) is bool: return a if c else b
    if type(c) is SymInt: c = c != 0
    if type(c) is bool: return a if c else b
    if a is b: return a
    ai, bi = _int(a), _int(b)
    if isbool(a) and isbool(b):
        # (no z3.simplify: it orders the operands by the terms' ids, which differ between runs)
        if type(a) is bool and type(b) is bool: return a if a == b else SymBool(c.e if a else z3.Not(c.e))
        if type(a) is bool: return SymBool(z3.Or(c.e, b.e) if a else z3.And(z3.Not(c.e), b.e))
        if type(b) is bool: return SymBool(z3.Or(z3.Not(c.e), a.e) if b else z3.And(c.e, a.e))
        return SymBool(z3.If(c.e, a.e, b.e))
    if ai is not None and bi is not None:
        if type(ai) is int and type(bi) is int and ai == bi: return ai
        A, B = lift(ai), lift(bi)
        lo, hi = min(A.lo, B.lo), max(A.hi, B.hi)
        W = need(lo, hi)
        return SymInt(z3.If(c.e, A.w(W), B.w(W)), lo, hi)
    from .seq import SymStr, SymBytes, chars_of, mkstr, mkbytes
    for base, sym, mk in ((str, SymStr, mkstr), (bytes, SymBytes, mkbytes)):
        if isinstance(a, (base, sym)) and isinstance(b, (base, sym)):
            ca, cb = chars_of(a), chars_of(b)
            if len(ca) == len(cb):
                return mk([ite(c, x, y) for x, y in zip(ca, cb)])
    return a if c else b

def table(idx, pairs):
    """merged load: idx SymInt known to be among the keys of pairs [(key, intvalue|SymInt)] -> SymInt"""
    pairs = sorted(pairs, key=lambda p: p[0])
    segs = []  # (last key, kind, c)
    for k, v in pairs:
        if type(v) is bool: v = int(v)
        if type(v) is int:
            if segs:
                last, first, kind, c = segs[-1]
                if kind == "c" and v == c: segs[-1] = (k, first, kind, c); continue
                if kind == "a" and v - k == c: segs[-1] = (k, first, kind, c); continue
                if kind == "c" and first == last and v - k == c - first and last != k:
                    segs[-1] = (k, first, "a", v - k); continue
            segs.append((k, k, "c", v))
        else:
            segs.append((k, k, "s", v))
    def val(seg):
        last, first, kind, c = seg
        if kind == "a":
            r = idx + c
            lo, hi = first + c, last + c   # the idx is within the segment when selected
            if type(r) is int: return r
            W = need(lo, hi)
            return mkint(fit(r.e, W), lo, hi)
        return c
    def build(a, b):
        if b - a == 1: return val(segs[a])
        mid = (a + b) // 2
        return ite(idx <= segs[mid - 1][0], build(a, mid), build(mid, b))
    return build(0, len(segs))

class SymDyadic:
    """exact dyadic rational num / 2**k (a float whose computation is exact)"""
    __slots__ = ("n", "k")
    def __init__(s, n, k): s.n, s.k = n, k
    @staticmethod
    def of(v): return SymDyadic(v, 0)
    def _chk(s):
        m = lift(s.n)
        if max(abs(m.lo), abs(m.hi)) >= 1 << 53: raise_unsupported("float precision")
        return s
    def __truediv__(s, o):
        if type(o) is float and o == int(o): o = int(o)
        if type(o) is int and o > 0 and o & (o - 1) == 0:
            return SymDyadic(s.n, s.k + o.bit_length() - 1)._chk()
        if type(o) is int and 0 < o < 1 << 53 and lift(s.n).lo >= 0:
            z = (o & -o).bit_length() - 1
            return SymRat(s.n, s.k + z, o >> z)
        return ENG.concretize_num(s) / ENG.concretize_num(o)
    def __rtruediv__(s, o): return ENG.concretize_num(o) / ENG.concretize_num(s)
    def _al(s, o):
        if type(o) is float:
            n, d = o.as_integer_ratio(); o = SymDyadic(n, d.bit_length() - 1)
        elif type(o) is not SymDyadic:
            o = _int(o)
            if o is None: return None
            o = SymDyadic(o, 0)
        k = max(s.k, o.k)
        return s.n << (k - s.k), o.n << (k - o.k), k
    def __add__(s, o):
        r = s._al(o)
        return NotImplemented if r is None else SymDyadic(r[0] + r[1], r[2])._chk()
    __radd__ = __add__
    def __sub__(s, o):
        r = s._al(o)
        return NotImplemented if r is None else SymDyadic(r[0] - r[1], r[2])._chk()
    def __rsub__(s, o):
        r = s._al(o)
        return NotImplemented if r is None else SymDyadic(r[1] - r[0], r[2])._chk()
    def __mul__(s, o):
        if type(o) is float:
            n, d = o.as_integer_ratio(); o = SymDyadic(n, d.bit_length() - 1)
        elif type(o) is not SymDyadic:
            o = _int(o)
            if o is None: return NotImplemented
            o = SymDyadic(o, 0)
        return SymDyadic(s.n * o.n, s.k + o.k)._chk()
    __rmul__ = __mul__
    def __neg__(s): return SymDyadic(-s.n, s.k)
    def __abs__(s): return SymDyadic(abs(s.n), s.k)
    def __eq__(s, o):
        r = s._al(o)
        return False if r is None else r[0] == r[1]
    def __ne__(s, o): return not_(s == o)
    def __lt__(s, o): r = s._al(o); return r[0] < r[1]
    def __le__(s, o): r = s._al(o); return r[0] <= r[1]
    def __gt__(s, o): r = s._al(o); return r[0] > r[1]
    def __ge__(s, o): r = s._al(o); return r[0] >= r[1]
    def __hash__(s): return hash(ENG.concretize_num(s))
    def __bool__(s): return bool(s.n != 0)
    def trunc(s):
        return ite(s.n < 0, -((-s.n) >> s.k), s.n >> s.k)
    def __floor__(s): return s.n >> s.k
    def __ceil__(s): return -((-s.n) >> s.k)
    def __float__(s): return ENG.concretize_num(s)
    def __repr__(s): return "<SymDyadic>"

class SymRat:
    """the float nearest to num / (2**k * c), c odd, num >= 0 (possibly after adding an int and scaling by a power of 2).

    Only what is exact is supported: as both the division and the addition round correctly, the float differs from the
    rational by less than max * 2**-51; when that is less than the distance between a rational with this denominator and
    an integer it is not equal to, and as a rational that is an integer (over 2**k) is computed exactly, truncating
    the float equals truncating the rational."""
    __slots__ = ("n", "k", "c", "ip", "j")
    def __init__(s, n, k, c, ip=0, j=0): s.n, s.k, s.c, s.ip, s.j = n, k, c, ip, j    # n / (2**k * c) + ip * 2**j
    def __add__(s, o):
        if type(o) is float and o == int(o): o = int(o)
        o = _int(o)
        if o is None or lift(o).lo < 0 or s.j: raise_unsupported("rational addition")
        return SymRat(s.n, s.k, s.c, s.ip + o, 0)
    __radd__ = __add__
    def __mul__(s, o):
        if type(o) is float and o == int(o): o = int(o)
        if type(o) is int and o > 0 and o & (o - 1) == 0:
            z = o.bit_length() - 1
            return SymRat(s.n, s.k - z, s.c, s.ip, s.j + z)
        raise_unsupported("rational multiplication")
    __rmul__ = __mul__
    def trunc(s):
        top = lift(s.n).hi * 2.0 ** -s.k / s.c + lift(s.ip).hi * 2.0 ** s.j
        den = s.c << max(s.k, 0)
        if type(s.n) is int:
            from fractions import Fraction
            fr = Fraction(s.n, s.c) / Fraction(2) ** s.k % 1
            if fr and min(fr, 1 - fr) <= top * 2.0 ** -50: raise_unsupported("float precision")
        elif top * 2.0 ** -51 * den >= 0.5: raise_unsupported("float precision")
        return (s.ip << s.j) + ((s.n << -s.k) // s.c if s.k <= 0 else s.n // (s.c << s.k))
    def __float__(s): raise_unsupported("rational to float")
    def __repr__(s): return "<SymRat>"

# ---------------------------------------------------------------------------

class Diverged(BaseException):
    """the conditions on the way to a prefix's end are not those of the run that created it"""

class Engine:
    """explores the paths of one harness"""
    def __init__(s, deadline=None, qtimeout_ms=20000, step_limit=None):
        s.deadline = deadline
        s.solver = z3.Solver()
        s.solver.set("timeout", qtimeout_ms)
        s.qtimeout = qtimeout_ms
        s.stats = dict(paths=0, aborted=0, branches=0, queries=0, solver_s=0.0, obligations=0, discharged=0,
                       unknown=0, concretized=0, unsupported=0, covers=0, timeouts=0)
        s.unsupported_notes = {}
        s.concrete_notes = {}
        s.pending = []      # prefixes
        s.violations = []
        s.samples = []
        s.funcs = set()
        s.vars = {}
        s.incomplete = False
        s.stack = []        # decisions asserted in the solver
        s.max_obl_witness = 3

    # --- solver
    def _check(s, *extra):
        t = time.perf_counter()
        r = s.solver.check(*extra)
        s.stats["queries"] += 1
        s.stats["solver_s"] += time.perf_counter() - t
        return r

    def _assert(s, e, key):
        """assert e (None: already implied) as the decision number len(decs)"""
        i = len(s.decs)
        if i < len(s.stack) and s.stack[i][0] == key:
            pass
        else:
            s._popto(i)
            if e is not None:
                s.solver.push()
                s.solver.add(e)
            s.stack.append((key, e is not None))
        s.decs.append(key)
        if len(s.decs) == s.plen and s.want != s.roll: raise Diverged()

    def _saw(s, e): s.roll = hash((s.roll, e.hash()))

    def _popto(s, i):
        while len(s.stack) > i:
            if s.stack.pop()[1]: s.solver.pop()

    def _model(s):
        if s.model is None:
            s._popto(len(s.decs))
            r = s._check()
            if r == z3.unsat: raise PathAbort()
            if r == z3.unknown:
                s.stats["unknown"] += 1
                raise PathAbort()
            s.model = s.solver.model()
        return s.model

    def _trim(s):
        s._popto(len(s.decs))

    def _tick(s):
        if s.deadline and time.monotonic() > s.deadline:
            raise EngineStop()

    def branch(s, e):
        k = e.get_id()
        hit = s.known.get(k)
        if hit is not None: return hit[0]
        n = len(s.decs)
        s._saw(e)
        if n < len(s.prefix):
            v = s.prefix[n]
            if type(v) is tuple:
                s._assert(None, v); v = v[1]
            else:
                s._assert(e if v else z3.Not(e), v)
            s.known[k] = (v, e)
            return v
        s._tick()
        s._trim()
        s.stats["branches"] += 1
        m = s._model()
        v = z3.is_true(m.eval(e, model_completion=True))
        other = z3.Not(e) if v else e
        r = s._check(other)
        if r == z3.unsat:
            s._assert(None, ("i", v))
            s.known[k] = (v, e)
            return v
        if r == z3.unknown: s.stats["unknown"] += 1
        s.pending.append((s.decs + [not v], s.roll))
        s._assert(e if v else z3.Not(e), v)
        s.known[k] = (v, e)
        return v

    def concretize(s, x):
        """forks over the feasible values of x"""
        if type(x) is int: return x
        if type(x) is SymBool: return int(bool(x))
        if x.lo == x.hi: return x.lo
        kid = ("c", x.e.get_id())
        if kid in s.known: return s.known[kid][0]
        import traceback
        while True:
            n = len(s.decs)
            s._saw(x.e)
            if n < len(s.prefix):
                d = s.prefix[n]
                if d[0] == "i":
                    s._assert(None, d); v = d[1]; break
                c = const(d[1], x.e.size())
                s._assert(x.e == c if d[0] else x.e != c, d)
                if d[0]:
                    v = d[1]; break
                continue
            s._tick()
            s._trim()
            m = s._model()
            v = m.eval(x.e, model_completion=True).as_signed_long()
            c = const(v, x.e.size())
            r = s._check(x.e != c)
            if r == z3.unsat:
                s._assert(None, ("i", v))
                break
            if r == z3.unknown: s.stats["unknown"] += 1
            s.stats["concretized"] += 1
            if s.stats["concretized"] < 300 or s.stats["concretized"] % 50 == 0:
                f = sys._getframe(1)
                where = "?"
                while f is not None:
                    fn = f.f_code.co_filename
                    if not fn.startswith(os.path.dirname(__file__)):
                        where = "%s:%d" % (os.path.basename(fn), f.f_lineno); break
                    f = f.f_back
                s.concrete_notes[where] = s.concrete_notes.get(where, 0) + 1
            s.pending.append((s.decs + [(False, v)], s.roll))
            s._assert(x.e == c, (True, v))
            break
        s.known[kid] = (v, x.e)
        return v

    def concretize_num(s, x):
        if type(x) is SymInt: return s.concretize(x)
        if type(x) is SymBool: return bool(x)
        if type(x) is SymDyadic: return s.concretize_num(x.n) / (1 << x.k)
        return x

    def note_unsupported(s, msg):
        s.stats["unsupported"] += 1
        s.unsupported_notes[msg] = s.unsupported_notes.get(msg, 0) + 1

    def assume(s, c):
        if type(c) is bool:
            if not c: raise PathAbort()
            return
        e = bexpr(c)
        if z3.is_true(e): return
        k = e.get_id()
        n = len(s.decs)
        s._saw(e)
        s._assert(e, ("A",))
        s.known[k] = (True, e)
        if n < len(s.prefix):
            return
        if s.model is not None and z3.is_true(s.model.eval(e, model_completion=True)): return
        s.model = None
        s._model()

    def define(s, w, name, fn):
        """a fresh bit vector of width w with the constraint fn(it), which must determine it uniquely and always be satisfiable"""
        s.nfresh += 1
        x = z3.BitVec("!%s%d" % (name, s.nfresh), w)
        e = fn(x)
        n = len(s.decs)
        s._saw(e)
        s._assert(e, ("D",))
        if n >= len(s.prefix): s.model = None
        return x

    def check(s, c, msg, info=None):
        """assertion; a violation is recorded with a model, the path then continues where c holds"""
        s.stats["obligations"] += 1
        if type(c) is SymInt: c = c != 0
        if type(c) is not SymBool:
            if c:
                s.stats["discharged"] += 1
                return
            n = len(s.decs)
            m = s._model()
            s.violate(m, msg)
            raise PathAbort()
        n = len(s.decs)
        k = c.e.get_id()
        hit = s.known.get(k)
        if hit is not None and hit[0]:
            s.stats["discharged"] += 1
            return
        s._saw(c.e)
        if n < len(s.prefix):
            # already decided on the run that created this prefix
            s.stats["obligations"] -= 1
            key = s.prefix[n]
            s._assert(c.e if key == ("K",) else None, key)
            s.known[k] = (True, c.e)
            return
        s._tick()
        s._trim()
        ne = z3.Not(c.e)
        if s.model is not None and z3.is_false(s.model.eval(c.e, model_completion=True)):
            s.violate(s.model, msg)
        else:
            r, m = s.prove(ne)
            if r == z3.sat:
                s.violate(m, msg)
            elif r == z3.unknown:
                s.stats["unknown"] += 1
                s.incomplete = True
            else:
                s.stats["discharged"] += 1
                s._assert(None, ("k",))
                s.known[k] = (True, c.e)
                return
        # continue where c holds
        s._assert(c.e, ("K",))
        s.known[k] = (True, c.e)
        s.model = None
        s._model()

    def prove(s, ne):
        """-> (result of path /\\ ne, model)"""
        if s.check_mode == "incr":
            r = s._check(ne)
            if r != z3.unknown:
                return r, (s.solver.model() if r == z3.sat else None)
        t = time.perf_counter()
        sol = z3.Then("simplify", "propagate-values", "solve-eqs", "elim-uncnstr", "max-bv-sharing", "bit-blast", "sat").solver()
        left = s.obl_timeout_ms
        if s.deadline: left = max(1000, min(left, int((s.deadline - time.monotonic()) * 1000)))
        sol.set("timeout", left)
        for a in s.solver.assertions(): sol.add(a)
        sol.add(ne)
        r = sol.check()
        s.stats["queries"] += 1
        s.stats["solver_s"] += time.perf_counter() - t
        return r, (sol.model() if r == z3.sat else None)

    check_mode = "incr"
    obl_timeout_ms = 120000

    def values(s, m):
        out = {}
        for name, v in s.vars.items():
            out[name] = s.evalv(m, v)
        return out

    def evalv(s, m, v):
        if type(v) is SymInt: return m.eval(v.e, model_completion=True).as_signed_long()
        if type(v) is SymBool: return z3.is_true(m.eval(v.e, model_completion=True))
        if type(v) is SymDyadic: return s.evalv(m, v.n) / (1 << v.k)
        from .seq import SymStr, SymBytes, SymBytearray
        if type(v) is SymStr: return "".join(chr(s.evalv(m, c)) for c in v.c)
        if type(v) is SymBytes: return bytes(s.evalv(m, c) for c in v.c)
        if isinstance(v, SymBytearray): return bytes(s.evalv(m, c) for c in v.c)
        if isinstance(v, (list, tuple)): return [s.evalv(m, x) for x in v]
        if type(v) in (set, frozenset): return sorted((s.evalv(m, x) for x in v), key=repr)
        if type(v) is dict: return {s.evalv(m, k): s.evalv(m, x) for k, x in v.items()}
        if type(v) in (bytearray,): return bytes(v)
        return v

    def violate(s, m, msg):
        vals = s.values(m)
        s.violations.append(dict(msg=str(msg), values=vals))

    # --- exploration
    def run_path(s, fn, prefix):
        global ENG
        ENG = s
        s.prefix, s.want = prefix
        s.plen = len(s.prefix)
        s.roll = 0
        s.decs = []
        s.known = {}
        s.model = None
        s.vars = {}
        s.observed = []
        s.cover_names = set()
        s.nvars = 0
        s.nfresh = 0
        s.digit_cache = {}
        try:
            fn(s)
            ended = "end"
        except PathAbort:
            ended = "abort"
            s.stats["aborted"] += 1
        if ended == "end":
            s.stats["paths"] += 1
        return ended

    def explore(s, fn, start=None, max_violations=5, on_path_end=None, slice_s=None, max_paths=None):
        s.pending = list(start if start is not None else [([], 0)])
        t0 = time.monotonic()
        done = 0
        while s.pending:
            if s.deadline and time.monotonic() > s.deadline:
                s.stats["timeouts"] += 1; s.incomplete = True
                return
            if slice_s and time.monotonic() - t0 > slice_s: return
            if max_paths is not None and done >= max_paths: return
            prefix = s.pending.pop()
            npend = len(s.pending)
            nviol = len(s.violations)
            try:
                ended = s.run_path(fn, prefix)
                if ended == "end" and on_path_end: on_path_end(s)
            except EngineStop:
                s.stats["timeouts"] += 1; s.incomplete = True
                return
            done += 1
            if len(s.violations) >= max_violations: return
