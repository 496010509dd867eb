"""Run-time helpers called by instrumented code (name __s in it)"""
import sys, builtins, struct as _struct, re as _re, io as _io, collections, math as _math, os as _os, base64 as _b64, hashlib as _hashlib, copy as _copy, itertools, functools, operator as _op
from . import core
from .core import (SymInt, SymBool, SymDyadic, SymRat, ite, table, and_, or_, not_, isbool, _int, lift, need, const, mkint, fit,
                   raise_unsupported, Unsupported, PathAbort)
from .seq import (SymStr, SymBytes, SymBytearray, SymSeq, mkstr, mkbytes, chars_of, is_str, is_bytes, char_in, iter_bytes, seq_eq, norm, in_ranges, narrow, ceq)

HASH_OK = False
SYM = {SymInt, SymBool, SymStr, SymBytes, SymDyadic, SymRat}
SYMSET = frozenset(SYM)

def issym(x):
    t = type(x)
    if t in SYMSET: return True
    if t is tuple: return any(issym(y) for y in x)
    return isinstance(x, SymBytearray)

def hassym(args):
    for x in args:
        t = type(x)
        if t in SYMSET: return True
        if t is tuple and issym(x): return True
        if isinstance(x, SymBytearray): return True
    return False

def deepsym(x, d=3):
    t = type(x)
    if t in SYMSET or isinstance(x, SymBytearray): return True
    if d and t in (list, tuple, set, frozenset): return any(deepsym(y, d - 1) for y in x)
    if d and t is dict: return any(deepsym(y, d - 1) for y in x.values())
    return False

def realize(x):
    t = type(x)
    if t is SymInt: return core.ENG.concretize(x)
    if t is SymBool: return bool(x)
    if t is SymDyadic: return core.ENG.concretize_num(x)
    if t is SymStr or t is SymBytes: return x.realize()
    if isinstance(x, SymBytearray): return x.realize()
    if t is tuple: return tuple(realize(y) for y in x)
    if t is list: return [realize(y) for y in x]
    if t is dict: return {realize(k): realize(v) for k, v in x.items()}
    if t is set: return {realize(y) for y in x}
    return x

# --- containment, boolean helpers

def contains(cont, item):
    """item in cont -> bool | SymBool"""
    t = type(cont)
    if t is SymStr or t is SymBytes or isinstance(cont, SymBytearray):
        return cont.has(item)
    if t in FLAGGED_TYPES and id(cont) in FLAGGED and isinstance(cont, (dict, set)):
        return find_key(cont, item) is not MISSING
    if not issym(item):
        if t in (list, tuple):
            for x in cont:
                if deepsym(x, 1):
                    return or_(*[eq_(x, item) for x in cont])
        return item in cont
    ti = type(item)
    if t is str:
        if ti is SymStr and len(item) == 1: return char_in(item.c[0], [ord(c) for c in cont])
        return SymStr(chars_of(cont)).has(item)
    if t in (bytes, bytearray):
        if ti is SymInt: return char_in(item, list(cont))
        return SymBytes(chars_of(cont)).has(item)
    if t in (list, tuple):
        return or_(*[eq_(x, item) for x in cont])
    if t in (set, frozenset, dict, type({}.keys()), collections.defaultdict, collections.Counter, collections.OrderedDict) or isinstance(cont, (dict, set, frozenset)) and not overrides(cont, "__contains__"):
        if ti is SymInt:
            return char_in(item, [int(k) for k in cont if type(k) in (int, bool) or type(k) is SymInt])
        if ti is SymStr or ti is SymBytes:
            n = len(item)
            keys = [k for k in cont if (is_str(k) if ti is SymStr else is_bytes(k)) and len(k) == n]
            if n == 1 and all(not issym(k) for k in keys):
                return char_in(item.c[0], [chars_of(k)[0] for k in keys])
            return or_(*[item == k for k in keys])
        return or_(*[eq_(k, item) for k in cont])
    if t is range:
        if cont.step == 1: return and_(item >= cont.start, item < cont.stop)
        return or_(*[item == v for v in cont])
    if hasattr(t, "__contains__"):
        return item in cont
    return item in cont

def overrides(o, name):
    for c in type(o).__mro__:
        if name in c.__dict__:
            return c.__module__ not in ("builtins", "collections")
    return False

def eq_(a, b):
    ta, tb = type(a), type(b)
    if ta in (tuple, list) and ta is tb:
        if len(a) != len(b): return False
        return and_(*[eq_(x, y) for x, y in zip(a, b)])
    r = a == b
    return r

def not_contains(cont, item):
    return not_(contains(cont, item))

def cmp_chain(*parts):
    """operands alternate with operator names; operands are pure so no short circuit is needed"""
    conds = []
    for i in range(1, len(parts), 2):
        op, a, b = parts[i], parts[i - 1], parts[i + 1]
        r = CMPS[op](a, b)
        if r is False: return False
        conds.append(r)
    for r in conds:
        if not isbool(r):   # unusual: fall back on the python semantics
            for x in conds:
                if not x: return x
            return conds[-1]
    return and_(*conds)
CMPS = {"<": _op.lt, "<=": _op.le, ">": _op.gt, ">=": _op.ge, "==": _op.eq, "!=": _op.ne,
        "in": lambda a, b: contains(b, a), "notin": lambda a, b: not_contains(b, a), "is": _op.is_, "isnot": _op.is_not}

def bool_and(first, *thunks):
    if type(first) is not SymBool:
        r = first
        i = 0
        for t in thunks:
            if not r: return r
            r = t(); i += 1
            if type(r) is SymBool: return _and_rest(r, thunks[i:])
        return r
    return _and_rest(first, thunks)

def _and_rest(r, thunks):
    for i, t in enumerate(thunks):
        try: v = t()
        except Exception:
            if not bool(r): return False
            v = t()
            if not isbool(v): return v if not (i + 1 < len(thunks)) or not v else bool_and(v, *thunks[i + 1:])
        if not isbool(v):
            if not bool(r): return False
            return v if i + 1 >= len(thunks) else bool_and(v, *thunks[i + 1:])
        r = and_(r, v)
        if r is False: return False
    return r

def bool_or(first, *thunks):
    if type(first) is not SymBool:
        r = first
        i = 0
        for t in thunks:
            if r: return r
            r = t(); i += 1
            if type(r) is SymBool: return _or_rest(r, thunks[i:])
        return r
    return _or_rest(first, thunks)

def _or_rest(r, thunks):
    for i, t in enumerate(thunks):
        try: v = t()
        except Exception:
            if bool(r): return True
            v = t()
            if not isbool(v): return v if i + 1 >= len(thunks) or v else bool_or(v, *thunks[i + 1:])
        if not isbool(v):
            if bool(r): return True
            return v if i + 1 >= len(thunks) else bool_or(v, *thunks[i + 1:])
        r = or_(r, v)
        if r is True: return True
    return r

def lnot(x):
    t = type(x)
    if t is SymBool: return not_(x)
    if t is SymInt: return x == 0
    return not x

def ifexp(c, a, b):
    """a if c else b with total operands"""
    if type(c) is SymBool:
        if a is b: return a
        ai, bi = _int(a), _int(b)
        if ai is not None and bi is not None and type(a) is not bool and type(b) is not bool: return ite(c, a, b)
        if isbool(a) and isbool(b): return ite(c, a, b)
        if is_str(a) and is_str(b) and len(a) == len(b): return ite(c, a, b)
        return a if bool(c) else b
    return a if c else b

def ifexp_t(c, a, b):
    if type(c) is SymInt: c = c != 0
    if type(c) is not SymBool: return a() if c else b()
    try: x, y = a(), b()
    except Exception: return a() if bool(c) else b()
    return ifexp(c, x, y)

# --- subscripts

def _groups(items):
    """[(key, value)] -> groups of mergeable values: {kind: [(key, value)]}"""
    g = {}
    for k, v in items:
        t = type(v)
        if t is int or t is SymInt: kind = ("i",)
        elif t is bool or t is SymBool: kind = ("b",)
        elif t is str or t is SymStr: kind = ("s", len(v))
        elif t is bytes or t is SymBytes: kind = ("y", len(v))
        elif t is tuple:
            try:
                hash(v); kind = ("h", v)
            except Exception: kind = ("o", id(v))
            if issym(v): kind = ("o", id(v))
        elif v is None: kind = ("n",)
        else: kind = ("o", id(v))
        g.setdefault(kind, []).append((k, v))
    return sorted(g.items(), key=lambda kv: -len(kv[1]))

def merged(idx, groups):
    for gi, (kind, items) in enumerate(groups):
        if gi == len(groups) - 1 or bool(char_in(idx, [k for k, _ in items])):
            if kind[0] == "i": return table(idx, items)
            if kind[0] == "b":
                return char_in(idx, [k for k, v in items if v is True]) if all(type(v) is bool for _, v in items) else (table(idx, [(k, _int(v)) for k, v in items]) != 0)
            if kind[0] in "sy":
                n = kind[1]
                mk = mkstr if kind[0] == "s" else mkbytes
                cs = [(k, chars_of(v)) for k, v in items]
                return mk([table(idx, [(k, c[j]) for k, c in cs]) for j in range(n)])
            return items[0][1]

def seq_load(seq, i, err="list index out of range"):
    n = len(seq)
    if i.lo < -n or i.hi >= n:
        if not bool(and_(i >= -n, i < n)): raise IndexError(err)
    if n > 70000: return seq[core.ENG.concretize(i)]
    if i.lo < 0: i = ite(i < 0, i + n, i)
    if type(i) is int: return seq[i]
    lo, hi = max(i.lo, 0), min(i.hi, n - 1)
    return merged(i, _groups([(k, seq[k]) for k in range(lo, hi + 1)]))

MISSING = object()
FLAGGED = {}   # id -> container with symbolic keys
FLAGGED_TYPES = set()
SERIAL = {}   # id -> (hash, the symbolic key)

def flag(d):
    FLAGGED[id(d)] = d
    FLAGGED_TYPES.add(type(d))

def reset():
    FLAGGED.clear()
    FLAGGED_TYPES.clear()
    SERIAL.clear()

def find_key(d, key):
    """the key of d equal to key (forks), or MISSING"""
    tk = type(key)
    for k in list(d):
        if k is key: return k
    if id(d) not in FLAGGED and not issym(key):
        return key if key in d else MISSING
    for k in list(d):
        r = eq_(k, key)
        if r is True or (r is not False and bool(r)): return k
    return MISSING

def native_set(d, k, v):
    global HASH_OK
    HASH_OK = True
    try: dict.__setitem__(d, k, v)
    finally: HASH_OK = False
def native_get(d, k):
    global HASH_OK
    HASH_OK = True
    try: return dict.__getitem__(d, k)
    finally: HASH_OK = False
def native_del(d, k):
    global HASH_OK
    HASH_OK = True
    try: return dict.__delitem__(d, k)
    finally: HASH_OK = False

def dict_load(d, key, default=MISSING):
    """symbolic key, or flagged dict"""
    tk = type(key)
    if id(d) not in FLAGGED:
        idx = None
        if tk is SymInt:
            idx, items = key, [(int(k), v) for k, v in d.items() if type(k) in (int, bool)]
        elif tk is SymStr and len(key) == 1:
            idx, items = key.c[0], [(ord(k), v) for k, v in d.items() if type(k) is str and len(k) == 1]
        if idx is not None:
            if items and bool(char_in(idx, [k for k, _ in items])):
                return merged(idx, _groups(items))
            return miss(d, key, default)
        if tk is SymStr:
            items = [(k, v) for k, v in d.items() if type(k) is str and len(k) == len(key)]
            g = _groups(items)
            for kind, its in g:
                if kind[0] in "hon" or len(its) == 1:
                    if bool(or_(*[key == k for k, _ in its])): return its[0][1]
                else:
                    for k, v in its:
                        if bool(key == k): return v
            return miss(d, key, default)
    k = find_key(d, key)
    if k is not MISSING: return native_get(d, k)
    return miss(d, key, default)

def miss(d, key, default):
    if default is not MISSING: return default
    if isinstance(d, collections.defaultdict) or hasattr(type(d), "__missing__"):
        if isinstance(d, collections.Counter): return 0
        m = type(d).__missing__
        if isinstance(d, collections.defaultdict) and m is collections.defaultdict.__missing__:
            if d.default_factory is None: raise KeyError(key)
            v = d.default_factory()
            dict_store(d, key, v)
            return v
        return d.__missing__(key)
    raise KeyError(key)

def dict_store(d, key, v):
    k = find_key(d, key)
    if k is MISSING:
        if issym(key): flag(d)
        k = key
    native_set(d, k, v)

def getitem(o, i):
    t = type(o)
    ti = type(i)
    if ti is SymBool: i = i.toint(); ti = SymInt
    if ti in SYMSET or (ti is tuple and issym(i)):
        if t is list or t is tuple:
            if ti is SymInt: return seq_load(o, i)
        elif t is str:
            if ti is SymInt: return seq_load(o, i, "string index out of range")
        elif t is bytes:
            if ti is SymInt: return seq_load(o, i, "index out of range")
        elif isinstance(o, dict) and not overrides(o, "__getitem__"):
            return dict_load(o, i)
        return o[i]
    if t in FLAGGED_TYPES and id(o) in FLAGGED and isinstance(o, dict):
        return dict_load(o, i)
    return o[i]

def setitem(o, i, v):
    ti = type(i)
    if ti is SymBool: i = i.toint(); ti = SymInt
    t = type(o)
    if ti in SYMSET or (ti is tuple and issym(i)):
        if t is list and ti is SymInt:
            n = len(o)
            if not bool(and_(i >= -n, i < n)): raise IndexError("list assignment index out of range")
            j = ite(i < 0, i + n, i) if i.lo < 0 else i
            if n <= 64 and _int(v) is not None and all(_int(x) is not None for x in o) and type(v) is not bool:
                for k in range(n): o[k] = norm(ite(j == k, v, o[k]))
            else:
                o[core.ENG.concretize(j)] = v
            return
        if isinstance(o, dict) and not overrides(o, "__setitem__"):
            return dict_store(o, i, v)
    elif t in FLAGGED_TYPES and id(o) in FLAGGED and isinstance(o, dict):
        return dict_store(o, i, v)
    o[i] = v

def delitem(o, i):
    if isinstance(o, dict) and (issym(i) or id(o) in FLAGGED) and not overrides(o, "__delitem__"):
        k = find_key(o, i)
        if k is MISSING: raise KeyError(i)
        native_del(o, k)
        return
    del o[i]

# --- displays

def mkdict(pairs, cls=dict):
    d = cls()
    for k, v in pairs:
        if issym(k) or id(d) in FLAGGED: dict_store(d, k, v)
        else: d[k] = v
    return d

def set_add(s, x):
    global HASH_OK
    if issym(x) or id(s) in FLAGGED:
        if find_key(s, x) is MISSING:
            HASH_OK = True
            try:
                if issym(x): flag(s)
                set.add(s, x)
            finally: HASH_OK = False
    else: s.add(x)

def mkset(items):
    s = set()
    for x in items: set_add(s, x)
    return s

# --- digits and formatting

def digit(d, upper=False):
    if type(d) is int: return ord("0123456789ABCDEF"[d] if upper else "0123456789abcdef"[d])
    off = 55 if upper else 87
    if d.hi < 10: return d + 48
    return narrow(ite(d < 10, d + 48, d + off), 48, off + 15)

def fmt_uint(v, base, upper=False, mindigits=1):
    """digits of the non-negative v (forks on their number)"""
    if type(v) is int:
        s = {10: "%d", 16: "%X" if upper else "%x", 8: "%o"}[base] % v if base != 2 else bin(v)[2:]
        return [ord(c) for c in s.rjust(mindigits, "0")]
    n = mindigits
    while base ** n <= v.hi:
        if bool(v < base ** n): break
        n += 1
    if v.hi >= base ** n: v = narrow(v, 0, base ** n - 1)
    if base & (base - 1) and type(v) is SymInt and n > 1:
        return [digit(d, upper) for d in core.digits(v, base, n)]
    out = []
    for i in reversed(range(n)):
        q = v // (base ** i)
        d = q % base if i < n - 1 else q
        if type(d) is not int: d = narrow(d, 0, base - 1)
        out.append(digit(d, upper))
    return out

def fmt_int(v, base=10, upper=False):
    v = _int(v)
    if type(v) is SymInt and v.lo < 0:
        if bool(v < 0): return [45] + fmt_uint(-v if v.hi < 0 else narrow(-v, 1, -v.lo), base, upper)
        v = narrow(v, 0, v.hi)
    elif type(v) is int and v < 0:
        return [45] + fmt_uint(-v, base, upper)
    return fmt_uint(v, base, upper)

def fmt_spec(v, flags, width, prec, conv):
    """-> chars; the format of one printf-like conversion"""
    left, zero, plus, alt, space = ("-" in flags), ("0" in flags), ("+" in flags), ("#" in flags), (" " in flags)
    if conv in "diuxXo":
        if type(v) is SymDyadic: v = v.trunc()
        if _int(v) is None: v = int(v)
        base = {"d": 10, "i": 10, "u": 10, "x": 16, "X": 16, "o": 8}[conv]
        v = _int(v)
        if type(v) is SymInt and v.lo >= 0 and zero and width and not plus and not left and not space and not alt:
            return fmt_uint(v, base, conv == "X", width)
        cs = fmt_int(v, base, conv == "X")
        sign = []
        if cs and cs[0] == 45: sign, cs = [45], cs[1:]
        elif plus: sign = [43]
        elif space: sign = [32]
        if alt and base == 16: sign = sign + [48, ord(conv)]
        if prec is not None: cs = [48] * (prec - len(cs)) + cs
        if zero and not left and prec is None: cs = [48] * (width - len(sign) - len(cs)) + cs
        cs = sign + cs
    elif conv == "c":
        cs = list(chars_of(v)) if is_str(v) else [v]
    elif conv in "sra":
        if conv == "r": raise_unsupported("%r")
        cs = list(chars_of(to_str(v)))
        if prec is not None: cs = cs[:prec]
    elif conv == "f" and type(v) is SymDyadic and prec and not flags and not width:
        sign = []
        n = v.n
        if lift(n).lo < 0:
            if bool(n < 0): sign, n = [45], narrow(-n, 1, -lift(n).lo) if type(-n) is SymInt else -n
            else: n = narrow(n, 0, lift(n).hi)
        if v.k > 0:
            ip, fr, half = n >> v.k, (n & ((1 << v.k) - 1)) * 10 ** prec, 1 << (v.k - 1)
            q, r = fr >> v.k, fr & ((1 << v.k) - 1)
            up = or_(r > half, and_(r == half, (q & 1) == 1))
            q = ite(up, q + 1, q)
            if lift(q).hi >= 10 ** prec:
                if bool(q >= 10 ** prec): ip, q = ip + 1, 0
                else: q = narrow(q, 0, 10 ** prec - 1)
        else: ip, q = n << -v.k, 0
        return sign + fmt_uint(ip, 10) + [46] + fmt_uint(q, 10, False, prec)
    else:
        v = realize(v)
        return [ord(c) for c in ("%" + flags + (str(width) if width else "") + (".%d" % prec if prec is not None else "") + conv) % v]
    pad = [32] * (width - len(cs))
    return cs + pad if left else pad + cs

_fmt_re = _re.compile(r"%(?:\((\w+)\))?([-+ #0]*)(\*|\d+)?(?:\.(\d+))?([hlL]?)([diouxXeEfFgGcrsa%])")

def mod(a, b):
    if type(a) is str:
        args = b if type(b) is tuple else (b,)
        if not deepsym(b, 1) and not any(deepsym(x, 0) for x in args): return a % b
        if isinstance(b, dict): return a % realize(b)
        out, pos, ai = [], 0, 0
        for m in _fmt_re.finditer(a):
            out += [ord(c) for c in a[pos:m.start()]]
            pos = m.end()
            if m.group(6) == "%": out.append(37); continue
            w = m.group(3)
            if w == "*":
                w = args[ai]; ai += 1
            flags = m.group(2)
            w = int(w) if w else 0
            if w < 0: flags += "-"; w = -w
            out += fmt_spec(args[ai], flags, w, int(m.group(4)) if m.group(4) else None, m.group(6))
            ai += 1
        if ai != len(args): raise TypeError("not all arguments converted during string formatting")
        out += [ord(c) for c in a[pos:]]
        return mkstr(out)
    return a % b

_spec_re = _re.compile(r"(?:(.)?([<>=^]))?([-+ ])?(#)?(0)?(\d+)?(,)?(?:\.(\d+))?([a-zA-Z%])?\Z", _re.S)

def format_(v, spec=""):
    if not issym(v): 
        return format(v, realize(spec))
    spec = realize(spec)
    if spec == "": return to_str(v)
    m = _spec_re.match(spec)
    if not m or m.group(7): return format(realize(v), spec)
    fill, align, sign, alt, zero, width, _, prec, conv = m.groups()
    isnum = not is_str(v)
    if type(v) is SymDyadic: return format(realize(v), spec)
    width = int(width) if width else 0
    if conv is None: conv = "d" if isnum else "s"
    if conv == "b":
        v = _int(v)
        neg = False
        if lift(v).lo < 0 and bool(v < 0): neg, v = True, -v
        cs = fmt_uint(v, 2); sg = [45] if neg else []
    else:
        cs = fmt_spec(v, ("+" if sign == "+" else " " if sign == " " else "") + ("#" if alt else ""), 0, int(prec) if prec else None, conv)
        sg = []
        if isnum and conv != "c" and cs and cs[0] in (45, 43, 32): sg, cs = cs[:1], cs[1:]
    if zero and align is None: fill, align = "0", "="
    fill = fill or " "
    align = align or (">" if isnum else "<")
    n = max(0, width - len(sg) - len(cs))
    f = [ord(fill)] * n
    if align == "=": return mkstr(sg + f + cs)
    if align == ">": return mkstr(f + sg + cs)
    if align == "<": return mkstr(sg + cs + f)
    return mkstr(f[:n // 2] + sg + cs + f[n // 2:])

def fstr(*parts):
    if not any(type(p) is tuple and deepsym(p[0], 2) for p in parts):
        pass
    out = []
    for p in parts:
        if type(p) is str: out.append(p); continue
        v, conv, spec = p
        if conv == 115: v = to_str(v)
        elif conv == 114: v = repr_(v)
        elif conv == 97: v = ascii(v)
        out.append(format_(v, spec))
    return join("", out)

def to_str(v=""):
    t = type(v)
    if t is SymStr: return v
    if t is SymInt or t is SymBool and False: return mkstr(fmt_int(v))
    if t is SymBool: return str(bool(v))
    if t is SymDyadic: return str(realize(v))
    if t is SymBytes: return str(realize(v))
    if isinstance(v, BaseException) and hassym(v.args):
        if len(v.args) == 1: return to_str(v.args[0])
        return str(tuple(realize(x) for x in v.args))
    if deepsym(v, 3) and t in (list, tuple, dict, set): return str(realize(v))
    f = getattr(t, "__str__", None)
    if f is not None and f is not object.__str__ and isinstance(f, FunctionType): return f(v)
    return str(v)

def repr_(v):
    if deepsym(v, 3): return repr(realize(v))
    return repr(v)

FunctionType = type(lambda: 0)
MethodType = type(core.Engine().branch)

def join(sep, it):
    items = list(it)
    for x in items:
        if type(x) in SYMSET or isinstance(x, SymBytearray): break
    else:
        if type(sep) in (str, bytes):
            return sep.join(items)
    if is_str(sep): return SymStr(chars_of(sep)).join(items)
    return SymBytes(chars_of(sep)).join(items)

# --- builtins

def b_len(x): return len(x)
def b_ord(x):
    if type(x) is SymStr or type(x) is SymBytes or isinstance(x, SymBytearray):
        if len(x) != 1: raise TypeError("ord() expected a character, but string of length %d found" % len(x))
        return x.c[0]
    return ord(x)
def b_chr(x):
    x = _int(x) if type(x) is SymBool else x
    if type(x) is SymInt:
        if x.lo < 0 or x.hi > 0x10ffff:
            if not bool(and_(x >= 0, x <= 0x10ffff)): raise ValueError("chr() arg not in range(0x110000)")
            x = narrow(x, 0, 0x10ffff)
        return mkstr([x])
    return chr(x)

def digit_val(c, base):
    """-> (valid, value)"""
    if type(c) is int:
        ch = chr(c)
        if ch.isascii():
            try:
                return True, int(ch, 36) if int(ch, 36) < base else None
            except ValueError: return False, 0
        return None, 0
    d = in_ranges(c, [(48, min(57, 47 + base))])
    if base <= 10:
        return d, c - 48
    up = in_ranges(c, [(65, 65 + base - 11)])
    lw = in_ranges(c, [(97, 97 + base - 11)])
    v = ite(d, c - 48, ite(up, c - 55, c - 87))
    if type(v) is SymInt: v = SymInt(fit(v.e, need(-87, v.hi)), max(v.lo, -87), v.hi)
    return or_(d, up, lw), v

def b_int(x=0, base=MISSING):
    t = type(x)
    if t is SymInt: return x
    if t is SymBool: return x.toint()
    if t is SymDyadic or t is SymRat: return x.trunc()
    if t is SymStr or t is SymBytes:
        b = 10 if base is MISSING else int(base)
        cs = x.c
        if b == 0: return int(realize(x), 0)
        pc = {16: (88, 120), 2: (66, 98), 8: (79, 111)}.get(b)
        if pc and len(cs) > 2 and bool(and_(cs[0] == 48, char_in(cs[1], list(pc)))):
            rest = [ok for ok, v in (digit_val(c, b) if type(c) is not int or chr(c).isascii() else (None, None) for c in cs[2:])]
            if None not in rest:
                if bool(and_(*[digit_val(c, b)[0] is True and digit_val(c, b)[1] is not None if type(c) is int else ok for c, ok in zip(cs[2:], rest)])):
                    return b_int(type(x)(cs[2:]), b)
                if not bool(or_(*[char_in(c, [95]) for c in cs[2:]])): raise ValueError("invalid literal for int() with base %d" % b)
            return int(realize(x), b)
        oks, vals = [], []
        for c in cs:
            ok, v = digit_val(c, b)
            if ok is True and v is None: ok = False
            if ok is None: return int(realize(x), b)
            oks.append(ok); vals.append(v)
        if cs and bool(and_(*oks)):
            r = 0
            for v in vals:
                if type(v) is SymInt: v = narrow(v, 0, b - 1)
                r = r * b + v
            return r
        # not plain digits: sign, blanks, underscores, prefixes, other unicode digits
        special = or_(*[or_(char_in(c, [43, 45, 95, 9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 0x85, 0xa0]), (c >= 0x660)) for c in cs]) if cs else False
        if b == 16: special = or_(special, or_(*[char_in(c, [88, 120]) for c in cs]))
        if b in (2, 8): special = or_(special, or_(*[char_in(c, [66, 98, 79, 111]) for c in cs]))
        if special is False or not bool(special): raise ValueError("invalid literal for int() with base %d" % b)
        if cs and len(cs) > 1 and bool(and_(char_in(cs[0], [43, 45]), *oks[1:])):
            r = 0
            for v in vals[1:]:
                if type(v) is SymInt: v = narrow(v, 0, b - 1)
                r = r * b + v
            return -r if bool(cs[0] == 45) else r
        return int(realize(x), b)
    if base is not MISSING: return int(x, base)
    f = getattr(t, "__int__", None)
    if isinstance(f, FunctionType): return f(x)
    return int(x)

def b_float(x=0.0):
    t = type(x)
    if t is SymInt:
        if max(abs(x.lo), abs(x.hi)) < 1 << 53: return SymDyadic(x, 0)
        return float(realize(x))
    if t is SymDyadic: return x
    if t in SYMSET: return float(realize(x))
    return float(x)

def b_bool(x=False):
    t = type(x)
    if t is SymBool: return x
    if t is SymInt: return x != 0
    return bool(x)

def b_isinstance(o, c):
    t = type(o)
    if t in SYMSET or isinstance(o, SymBytearray):
        cs = c if type(c) is tuple else (c,)
        for k in cs:
            if type(k) is tuple and b_isinstance(o, k): return True
            if t is SymInt and k in (int, object): return True
            if t is SymBool and k in (bool, int, object): return True
            if t is SymStr and k in (str, object): return True
            if t is SymBytes and k in (bytes, object): return True
            if t is SymDyadic and k in (float, object): return True
            if isinstance(o, SymBytearray) and (k in (bytearray, object) or isinstance(k, type) and isinstance(o, k)): return True
            if type(k) is type and hasattr(k, "__supertype__"): return True
        return False
    return isinstance(o, c)

def b_issubclass(a, c): return issubclass(a, c)

def b_type(*a):
    if len(a) == 1:
        t = type(a[0])
        return {SymInt: int, SymBool: bool, SymStr: str, SymBytes: bytes, SymDyadic: float, SymBytearray: bytearray}.get(t, t)
    return type(*a)

def b_range(*a):
    if not hassym(a): return range(*a)
    a = [_int(x) for x in a]
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    step = core.ENG.concretize(step)
    return SymRange(start, stop, step)

class SymRange:
    def __init__(s, a, b, st): s.start, s.stop, s.step = a, b, st
    def __iter__(s):
        i = s.start
        while (bool(i < s.stop) if s.step > 0 else bool(i > s.stop)):
            yield i
            i = i + s.step
    def __len__(s): return len(range(core.ENG.concretize(s.start), core.ENG.concretize(s.stop), s.step))
    def __reversed__(s): return reversed(range(core.ENG.concretize(s.start), core.ENG.concretize(s.stop), s.step))
    def __getitem__(s, i):
        if isinstance(i, slice): return range(core.ENG.concretize(s.start), core.ENG.concretize(s.stop), s.step)[i]
        return s.start + i * s.step
    def __contains__(s, v):
        if s.step == 1: return bool(and_(v >= s.start, v < s.stop))
        return v in range(core.ENG.concretize(s.start), core.ENG.concretize(s.stop), s.step)

def _minmax(native, lt):
    def f(*a, **k):
        items = list(a[0]) if len(a) == 1 else list(a)
        key = k.get("key")
        if not items:
            if "default" in k: return k["default"]
            return native(items)
        if key is None and all(_int(x) is not None for x in items):
            if not any(type(x) in SYMSET for x in items): return native(items)
            r = items[0]
            for x in items[1:]:
                c = lt(x, r)
                if type(c) is bool:
                    if c: r = x
                else:
                    r = ite(c, x, r)
                    if type(r) is SymInt:   # tighter bounds
                        r = r
            A = [lift(_int(x)) for x in items]
            lo = native(x.lo for x in A); hi = native(x.hi for x in A)
            return narrow(r, lo, hi) if type(r) is SymInt else r
        return native(items, **{kk: v for kk, v in k.items() if kk != "default"})
    return f
b_min = _minmax(min, lambda a, b: a < b)
b_max = _minmax(max, lambda a, b: a > b)

def b_bytes(*a, **k):
    if not a: return b""
    if is_str(a[0]): return a[0].encode(*a[1:], **k)
    x = a[0]
    if isinstance(x, int): return bytes(x)
    if type(x) is SymInt: return bytes(core.ENG.concretize(x))
    if type(x) is SymBytes: return x
    if hasattr(type(x), "__bytes__") and not isinstance(x, (bytes, SymBytearray)): return type(x).__bytes__(x)
    return mkbytes(iter_bytes(x))

def b_list(*a):
    if a and type(a[0]) is SymStr: return list(iter(a[0]))
    return list(*a)
def b_str(*a, **k):
    if not a: return ""
    if len(a) > 1 or k:
        if deepsym(a[0]): return a[0].decode(*a[1:], **k)
        return str(*a, **k)
    return to_str(a[0])
def b_print(*a, **k): return None
def b_set(*a):
    if not a: return set()
    items = list(a[0])
    if any(issym(x) for x in items): return mkset(items)
    return set(items)
def b_frozenset(*a):
    if not a: return frozenset()
    items = list(a[0])
    if any(issym(x) for x in items): return mkset(items)
    return frozenset(items)
def b_dict(*a, **k):
    if a:
        src = a[0]
        items = list(src.items()) if hasattr(src, "items") else list(src)
        if (isinstance(src, dict) and id(src) in FLAGGED) or any(issym(kk) for kk, _ in items):
            d = mkdict(items)
            for kk, v in k.items(): d[kk] = v
            return d
        return dict(items, **k)
    return dict(**k)
def b_sum(it, start=0):
    r = start
    for x in it: r = r + x
    return r
def b_any(it):
    for x in it:
        if x: return True
    return False
def b_hex(x):
    if type(x) is SymInt:
        cs = fmt_int(x, 16)
        return mkstr([45, 48, 120] + cs[1:] if cs[0] == 45 else [48, 120] + cs)
    return hex(x)
def b_hash(x): return hash(realize(x))
def b_repr(x): return repr_(x)
def b_format(x, spec=""): return format_(x, spec)
def b_map(f, *its): return (call(f, *xs) for xs in zip(*its))
def b_filter(f, it): return (x for x in it if (call(f, x) if f is not None else x))
def b_sorted(it, key=None, reverse=False): return sorted(it, key=(lambda x: call(key, x)) if key is not None else None, reverse=reverse)
def b_getattr(o, n, *d):
    return getattr(o, realize(n), *d)
def b_setattr(o, n, v): setattr(o, realize(n), v)
def b_hasattr(o, n): return hasattr(o, realize(n))
def b_open(*a, **k): raise_unsupported("open")
def b_round(x, n=None):
    if type(x) is SymInt: return x
    return round(realize(x), n) if n is not None else round(realize(x))
def b_divmod(a, b): return (a // b, a % b)
def b_pow(*a): return pow(*[realize(x) if i else x for i, x in enumerate(a)])
def b_memoryview(x):
    return memoryview(x) if not isinstance(x, (SymBytes, SymBytearray)) else x
def b_sha1(*a, **k): return _hashlib.sha1(*[realize(x) for x in a], **k)

def fromhex(h):
    cs = [c for c in chars_of(h)]
    out, i = [], 0
    while i < len(cs):
        if bool(char_in(cs[i], [9, 10, 11, 12, 13, 32])): i += 1; continue
        if i + 1 >= len(cs): raise ValueError("non-hexadecimal number found in fromhex() arg")
        o1, v1 = digit_val(cs[i], 16); o2, v2 = digit_val(cs[i + 1], 16)
        if o1 is None or o2 is None or v1 is None or v2 is None or not bool(and_(o1, o2)): raise ValueError("non-hexadecimal number found in fromhex() arg")
        v1 = narrow(v1, 0, 15); v2 = narrow(v2, 0, 15)
        out.append((v1 << 4) | v2); i += 2
    return mkbytes(out)

# --- struct

_codes = {"b": (1, True), "B": (1, False), "h": (2, True), "H": (2, False), "i": (4, True), "I": (4, False), "l": (4, True), "L": (4, False), "q": (8, True), "Q": (8, False)}

def _struct_items(fmt):
    if isinstance(fmt, bytes): fmt = fmt.decode()
    order = "<"
    if fmt and fmt[0] in "<>=!@":
        order = fmt[0]; fmt = fmt[1:]
    big = order in ">!"
    out = []
    for n, c in _re.findall(r"(\d*)([a-zA-Z?])", fmt):
        if c == "s": out.append(("s", int(n or 1)))
        elif c == "x": out += [("x", 1)] * int(n or 1)
        else: out += [(c, 1)] * int(n or 1)
    return big, out

def st_pack(fmt, *vals):
    if not hassym(vals): return _struct.pack(fmt, *vals)
    big, items = _struct_items(fmt)
    out, vi = [], 0
    for c, n in items:
        if c == "x": out.append(0); continue
        v = vals[vi]; vi += 1
        if c == "s":
            cs = chars_of(v)[:n]; out += cs + [0] * (n - len(cs)); continue
        if c not in _codes:
            out += list(_struct.pack((">" if big else "<") + c, realize(v))); continue
        size, signed = _codes[c]
        v = _int(v)
        if v is None: raise _struct.error("required argument is not an integer")
        lo, hi = (-(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1) if signed else (0, (1 << (8 * size)) - 1)
        L = lift(v)
        if L.lo < lo or L.hi > hi:
            if not bool(and_(v >= lo, v <= hi)): raise _struct.error("format requires %d <= number <= %d" % (lo, hi))
        bs = [(v >> (8 * i)) & 0xff for i in range(size)]
        out += bs[::-1] if big else bs
    if vi != len(vals): raise _struct.error("wrong number of items")
    return mkbytes(out)

def st_unpack_from(fmt, data, off=0):
    big, items = _struct_items(fmt)
    cs = chars_of(data)
    i, out = off, []
    size = _struct.calcsize(fmt)
    if len(cs) - off < size: raise _struct.error("unpack requires a buffer of %d bytes" % size)
    for c, n in items:
        if c == "x": i += 1; continue
        if c == "s": out.append(mkbytes(cs[i:i + n])); i += n; continue
        if c not in _codes:
            k = _struct.calcsize("<" + c)
            b = bytes(core.ENG.concretize(x) for x in cs[i:i + k]); i += k
            out.append(_struct.unpack((">" if big else "<") + c, b)[0]); continue
        sz, signed = _codes[c]
        bs = cs[i:i + sz]; i += sz
        if big: bs = bs[::-1]
        out.append(from_bytes(bs, signed))
    return tuple(out)

def from_bytes(bs, signed):
    """little-endian list of elements -> int"""
    import z3
    if all(type(b) is int for b in bs): return int.from_bytes(bytes(bs), "little", signed=signed)
    n = len(bs)
    parts = [z3.Extract(7, 0, lift(b).w(9)) for b in reversed(bs)]
    e = z3.Concat(*parts) if n > 1 else parts[0]
    if signed: return SymInt(e, -(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1)
    return SymInt(z3.ZeroExt(1, e), 0, (1 << (8 * n)) - 1)

def st_unpack(fmt, data):
    if not deepsym(data): return _struct.unpack(fmt, data)
    if len(data) != _struct.calcsize(fmt): raise _struct.error("unpack requires a buffer of %d bytes" % _struct.calcsize(fmt))
    return st_unpack_from(fmt, data)

def int_from_bytes(data, byteorder="big", *, signed=False):
    if not deepsym(data): return int.from_bytes(data, byteorder, signed=signed)
    cs = iter_bytes(data)
    return from_bytes(cs[::-1] if byteorder == "big" else cs, signed)

# --- io

class SymBytesIO:
    def __init__(s, initial=b""):
        s.c = list(chars_of(initial)) if not isinstance(initial, memoryview) else list(initial)
        s.p = 0
        s.closed = False
    def read(s, n=-1):
        n = -1 if n is None else int(n)
        end = len(s.c) if n < 0 else min(len(s.c), s.p + n)
        r = s.c[s.p:end]; s.p = max(s.p, end)
        return mkbytes(r)
    read1 = read
    def readinto(s, b):
        r = s.c[s.p:s.p + len(b)]
        s.p += len(r)
        b[:len(r)] = mkbytes(r)
        return len(r)
    def write(s, b):
        cs = chars_of(b)
        if s.p > len(s.c): s.c += [0] * (s.p - len(s.c))
        s.c[s.p:s.p + len(cs)] = cs
        s.p += len(cs)
        return len(cs)
    def tell(s): return s.p
    def seek(s, off, whence=0):
        off = int(off)
        if whence == 0:
            if off < 0: raise ValueError("negative seek value %d" % off)
            s.p = off
        elif whence == 1: s.p = max(0, s.p + off)
        else: s.p = max(0, len(s.c) + off)
        return s.p
    def getvalue(s): return mkbytes(s.c)
    def getbuffer(s): return mkbytes(s.c)
    def truncate(s, n=None):
        n = s.p if n is None else int(n)
        del s.c[n:]
        return n
    def flush(s): pass
    def close(s): s.closed = True
    def seekable(s): return True
    def readable(s): return True
    def writable(s): return True
    def readline(s, n=-1):
        out = []
        while s.p < len(s.c):
            c = s.c[s.p]; s.p += 1
            out.append(c)
            if bool(ceq(c, 10)): break
        return mkbytes(out)
    def readlines(s):
        out = []
        while True:
            l = s.readline()
            if not len(l): return out
            out.append(l)
    def __iter__(s):
        while True:
            l = s.readline()
            if not len(l): return
            yield l
    def __enter__(s): return s
    def __exit__(s, *a): s.close()

class SymStringIO:
    def __init__(s, initial="", newline="\n"):
        s.parts = [initial] if len(initial) else []
    def write(s, t): s.parts.append(t); return len(t)
    def getvalue(s): return join("", s.parts)
    def read(s): return s.getvalue()
    def close(s): pass
    def __enter__(s): return s
    def __exit__(s, *a): pass

# --- base64

def b64encode(data, altchars=None):
    if not deepsym(data): return _b64.b64encode(bytes(chars_of(data)), altchars)
    alpha = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
    if altchars: alpha = alpha[:62] + bytes(altchars)
    cs = iter_bytes(data)
    out = []
    for i in range(0, len(cs), 3):
        g = cs[i:i + 3]
        n = len(g)
        g = g + [0] * (3 - n)
        v = (g[0] << 16) | (g[1] << 8) | g[2]
        q = [getitem(alpha, (v >> (18 - 6 * k)) & 63) for k in range(4)]
        out += q[:n + 1] + [61] * (3 - n)
    return mkbytes(out)

def b64decode(data, altchars=None, validate=False):
    if not deepsym(data): return _b64.b64decode(realize(data), altchars, validate)
    alpha = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
    if altchars: alpha = alpha[:62] + (altchars if isinstance(altchars, bytes) else altchars.encode())
    dec = {c: i for i, c in enumerate(alpha)}
    cs = list(chars_of(data))
    vals, pad = [], 0
    for c in cs:
        if pad or bool(ceq(c, 61)):
            if not bool(ceq(c, 61)): return _b64.b64decode(realize(data), altchars, validate)
            pad += 1; continue
        if not bool(char_in(c, list(alpha))):
            if not validate: continue
            return _b64.b64decode(realize(data), altchars, validate)
        vals.append(getitem(dec, c) if type(c) is SymInt else dec[c])
    if (len(vals) + pad) % 4 or len(vals) % 4 == 1:
        import binascii
        raise binascii.Error("Incorrect padding")
    out = []
    for i in range(0, len(vals), 4):
        g = vals[i:i + 4]; n = len(g)
        g = g + [0] * (4 - n)
        v = (g[0] << 18) | (g[1] << 12) | (g[2] << 6) | g[3]
        out += [(v >> 16) & 255, (v >> 8) & 255, v & 255][:n - 1]
    return mkbytes(out)

# --- native methods with symbolic arguments

NATIVE = {str, bytes, dict, list, set, frozenset, tuple, collections.defaultdict, collections.Counter, collections.OrderedDict, _re.Pattern, _struct.Struct, bytearray, int, collections.deque}

def callm(o, name, *a, **k):
    t = type(o)
    if t in NATIVE:
        if t is str or t is bytes:
            if name == "join": return join(o, a[0])
            if not hassym(a):
                if k: return getattr(o, name)(*a, **k)
                if a and name == "translate": return getattr(o, name)(*a)
                return getattr(o, name)(*a)
            if name in ("translate", "format", "__mod__"):
                if name == "format": return fmt_method(o, a, k)
                return getattr(o, name)(*[realize(x) for x in a], **k)
            return getattr((SymStr if t is str else SymBytes)(chars_of(o)), name)(*a, **k)
        if t is _re.Pattern:
            from . import rx
            return rx.call(o, name, a, k)
        if t is _struct.Struct:
            if name == "pack": return st_pack(o.format, *a)
            if name == "unpack": return st_unpack(o.format, *a)
            if name == "unpack_from": return st_unpack_from(o.format, *a) if deepsym(a[0]) else o.unpack_from(*a)
            if name == "pack_into" and (type(a[0]) is SymBytearray or hassym(a[2:])):
                off = core.ENG.concretize(a[1]) if type(a[1]) is SymInt else a[1]
                if off < 0 or off + o.size > len(a[0]): raise _struct.error("pack_into requires a buffer of at least %d bytes" % (off + o.size))
                b = st_pack(o.format, *a[2:])
                a[0][off:off + o.size] = b
                return None
            return getattr(o, name)(*a, **k)
        if t is list or t is tuple or t is collections.deque:
            if name == "index" and t is not collections.deque and hassym(a[:1]):
                for i, x in enumerate(o):
                    if (len(a) < 2 or i >= a[1]):
                        r = eq_(x, a[0])
                        if r is True or (r is not False and bool(r)): return i
                raise ValueError("%r is not in list" % (a[0],))
            if name == "count": return b_sum(ifexp(eq_(x, a[0]), 1, 0) for x in o)
            if name == "sort" and k.get("key") is not None:
                key = k["key"]
                return o.sort(key=lambda x: call(key, x), reverse=k.get("reverse", False))
            if name in ("pop", "insert") and a and type(a[0]) is SymInt: a = (core.ENG.concretize(a[0]),) + a[1:]
            return getattr(o, name)(*a, **k)
        if isinstance(o, dict): return dictm(o, name, a, k)
        if isinstance(o, (set, frozenset)): return setm(o, name, a, k)
        if hassym(a): a = [realize(x) for x in a]
        return getattr(o, name)(*a, **k)
    f = getattr(o, name)
    if t is ModuleType: return call(f, *a, **k)
    if type(f) is MethodType: return f(*a, **k)
    if isinstance(o, dict) and hasattr(dict, name) and not overrides(o, name): return dictm(o, name, a, k)
    if o is int and name == "from_bytes": return int_from_bytes(*a, **k)
    if o is bytes and name == "fromhex": return fromhex(*a) if deepsym(a[0]) else bytes.fromhex(*a)
    if o is bytearray and name == "fromhex": return SymBytearray.fromhex(*a)
    if o is str and name in ("lower", "upper", "join", "strip", "encode", "startswith", "isdigit"):
        return callm(a[0], name, *a[1:], **k)
    if isinstance(o, list) and name in ("index",): return callm(list(o), name, *a, **k)
    return call(f, *a, **k)

ModuleType = type(sys)

def fmt_method(o, a, k):
    out, pos = [], 0
    import string
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(o):
        out.append(lit)
        if field is None: continue
        if field == "": v = a[auto]; auto += 1
        elif field.isdigit(): v = a[int(field)]
        elif field in k: v = k[field]
        else: raise_unsupported("str.format")
        out.append(format_(v, spec))
    return join("", out)

def dictm(d, name, a, k):
    fl = id(d) in FLAGGED
    if name in ("get", "setdefault", "pop", "__getitem__", "__contains__") and (fl or issym(a[0])):
        if name == "get": return dict_load(d, a[0], a[1] if len(a) > 1 else None)
        if name == "__getitem__": return dict_load(d, a[0])
        if name == "__contains__": return contains(d, a[0])
        if name == "setdefault":
            kk = find_key(d, a[0])
            if kk is not MISSING: return native_get(d, kk)
            v = a[1] if len(a) > 1 else None
            dict_store(d, a[0], v)
            return v
        kk = find_key(d, a[0])
        if kk is MISSING:
            if len(a) > 1: return a[1]
            raise KeyError(a[0])
        v = native_get(d, kk); native_del(d, kk)
        return v
    if name == "update":
        for src in a:
            items = list(src.items()) if hasattr(src, "items") else src
            if isinstance(d, collections.Counter) and not isinstance(src, dict):
                for x in src: setitem(d, x, getitem(d, x) + 1)
                continue
            for kk, v in items:
                if isinstance(d, collections.Counter): v = v + getitem(d, kk)
                if fl or issym(kk): dict_store(d, kk, v)
                else: d[kk] = v
        for kk, v in k.items(): d[kk] = v
        return None
    if name == "copy" and fl:
        r = _copy_native(d)
        return r
    if name == "clear" and fl: FLAGGED.pop(id(d), None)
    return getattr(d, name)(*a, **k)

def _copy_native(d):
    global HASH_OK
    HASH_OK = True
    try: r = d.copy()
    finally: HASH_OK = False
    flag(r)
    return r

def setm(s, name, a, k):
    global HASH_OK
    fl = id(s) in FLAGGED
    if name == "add": return set_add(s, a[0])
    if name == "__contains__": return contains(s, a[0])
    if name in ("discard", "remove") and (fl or issym(a[0])):
        kk = find_key(s, a[0])
        if kk is MISSING:
            if name == "remove": raise KeyError(a[0])
            return
        HASH_OK = True
        try: s.remove(kk)
        finally: HASH_OK = False
        return
    if name == "update":
        for src in a:
            for x in list(src): set_add(s, x)
        return
    if name in ("union", "intersection", "difference", "issubset", "issuperset", "isdisjoint") and (fl or any(any(issym(x) for x in list(src)) for src in a if hasattr(src, "__iter__"))):
        items = list(s)
        if name == "union":
            return mkset(items + [x for src in a for x in src])
        if name == "intersection": return mkset([x for x in items if all(bool(contains(list(src), x)) for src in a)])
        if name == "difference": return mkset([x for x in items if not any(bool(contains(list(src), x)) for src in a)])
        if name == "issubset": return and_(*[contains(list(a[0]), x) for x in items])
        if name == "issuperset": return and_(*[contains(items, x) for x in a[0]])
        if name == "isdisjoint": return not_(or_(*[contains(items, x) for x in a[0]]))
    if name == "copy" and fl: return _copy_native(s)
    return getattr(s, name)(*a, **k)

# --- calls

CALLS = {}
ALWAYS = {}

def call(f, *a, **k):
    t = type(f)
    if t is MethodType: return f(*a, **k)
    h = CALLS.get(id(f))
    if h is not None: return h(*a, **k)
    if t is FunctionType: return f(*a, **k)
    if t is BuiltinMethod:
        o = f.__self__
        if o is not None and type(o) in NATIVE: return callm(o, f.__name__, *a, **k)
        if type(o) is type and o in (dict, list, set, str, bytes, int) : return callm(o, f.__name__, *a, **k) if f.__name__ == "fromhex" or f.__name__ == "from_bytes" else f(*a, **k)
        if hassym(a) and (o is None or type(o) is ModuleType): return native_fallback(f, a, k)
    elif t is MethodDescr:   # e.g. str.lower(x)
        if a and type(a[0]) in SYMSET: return getattr(a[0], f.__name__)(*a[1:], **k)
        if a and hassym(a): return callm(a[0], f.__name__, *a[1:], **k)
    return f(*a, **k)

BuiltinMethod = type(len)
MethodDescr = type(str.lower)

OKFUNCS = {id(x) for x in (id, callable, iter, next, enumerate, zip, reversed, all, delattr, vars, sys.exit, repr)}
def native_fallback(f, a, k):
    if id(f) in OKFUNCS: return f(*a, **k)
    core.ENG.note_unsupported("native call %s" % getattr(f, "__qualname__", f))
    return f(*[realize(x) for x in a], **{kk: realize(v) for kk, v in k.items()})

def m_floor(x):
    if type(x) is SymInt: return x
    if type(x) is SymDyadic: return x.__floor__()
    return _math.floor(x)
def m_ceil(x):
    if type(x) is SymInt: return x
    if type(x) is SymDyadic: return x.__ceil__()
    return _math.ceil(x)
def m_log2(x): return _math.log2(realize(x))
def c_Counter(*a, **k):
    c = collections.Counter()
    if a:
        src = a[0]
        if hasattr(src, "items"):
            for kk, v in src.items(): setitem(c, kk, v)
        else:
            for x in src: setitem(c, x, getitem(c, x) + 1)
    for kk, v in k.items(): c[kk] = v
    return c
def c_defaultdict(*a, **k):
    if len(a) > 1:
        d = collections.defaultdict(a[0])
        dictm(d, "update", a[1:], k)
        return d
    return collections.defaultdict(*a, **k)
def c_copy(x):
    if type(x) in SYMSET: return x
    if isinstance(x, SymBytearray): return x._copy()
    if isinstance(x, (dict, set)) and id(x) in FLAGGED: return _copy_native(x)
    return _copy.copy(x)
def c_deepcopy(x, memo=None):
    return _copy.deepcopy(x, memo)
def f_reduce(f, it, *init):
    it = iter(it)
    r = init[0] if init else next(it)
    for x in it: r = call(f, r, x)
    return r
def b_exec(code, *a):
    if isinstance(code, str):
        from . import inst
        ns = a[0] if a else {}
        ns["_zs_"] = sys.modules[__name__]
        return exec(inst.compile_source(code, "<exec>", "exec"), *a)
    return exec(code, *a)
def b_iter(*a): return iter(*a)
def b_abs(x): return abs(x)
def b_bytearray(*a, **k): return SymBytearray(*a, **k)

def _reg():
    R = {len: b_len, ord: b_ord, chr: b_chr, int: b_int, float: b_float, bool: b_bool, isinstance: b_isinstance, type: b_type,
         range: b_range, min: b_min, max: b_max, bytes: b_bytes, list: b_list, str: b_str, print: b_print, set: b_set, frozenset: b_frozenset,
         dict: b_dict, sum: b_sum, hex: b_hex, hash: b_hash, repr: b_repr, format: b_format, map: b_map, filter: b_filter, sorted: b_sorted,
         getattr: b_getattr, setattr: b_setattr, hasattr: b_hasattr, abs: b_abs, round: b_round, divmod: b_divmod, pow: b_pow, memoryview: b_memoryview,
         bytearray: b_bytearray, _io.BytesIO: SymBytesIO, _io.StringIO: SymStringIO, _struct.pack: st_pack, _struct.unpack: st_unpack,
         _struct.unpack_from: st_unpack_from, _math.floor: m_floor, _math.ceil: m_ceil, collections.Counter: c_Counter,
         collections.defaultdict: c_defaultdict, _copy.copy: c_copy, functools.reduce: f_reduce, exec: b_exec, any: b_any,
         _b64.b64encode: b64encode, _b64.b64decode: b64decode, bytes.fromhex: fromhex,
         _re.match: lambda p, s, fl=0: callm(_re.compile(p, fl), "match", s),
         _re.fullmatch: lambda p, s, fl=0: callm(_re.compile(p, fl), "fullmatch", s),
         _re.search: lambda p, s, fl=0: callm(_re.compile(p, fl), "search", s),
         _re.finditer: lambda p, s, fl=0: callm(_re.compile(p, fl), "finditer", s),
         _re.findall: lambda p, s, fl=0: callm(_re.compile(p, fl), "findall", s),
         _re.split: lambda p, s, maxsplit=0, flags=0: callm(_re.compile(p, flags), "split", s, maxsplit),
         _re.sub: lambda p, r, s, count=0, flags=0: callm(_re.compile(p, flags), "sub", r, s, count),
         _hashlib.sha1: b_sha1}
    def path_fn(name):
        native = getattr(_os.path, name)
        def f(*a, **k):
            if not any(type(y) in SYMSET for x in a for y in (x if isinstance(x, (list, tuple)) else (x,))): return native(*a, **k)
            import pathsim
            return getattr(pathsim, name)(*a, **k)
        return f
    for name in ("join", "normpath", "isabs", "abspath", "relpath", "basename", "dirname", "splitext", "realpath", "split", "normcase", "commonpath"): R[getattr(_os.path, name)] = path_fn(name)
    for f, h in R.items(): CALLS[id(f)] = h
    _KEEP.extend(R)
_KEEP = []
_reg()
bytearray_ = SymBytearray

def enter(name):
    core.ENG_FUNCS.add(name)
core.ENG_FUNCS = set()

def setitem_v(v, o, i): setitem(o, i, v)

_AUG = {"Add": _op.iadd, "Sub": _op.isub, "Mult": _op.imul, "Div": _op.itruediv, "FloorDiv": _op.ifloordiv, "Mod": lambda a, b: mod(a, b), "Pow": _op.ipow,
        "LShift": _op.ilshift, "RShift": _op.irshift, "BitOr": _op.ior, "BitXor": _op.ixor, "BitAnd": _op.iand, "MatMult": _op.imatmul}
def augitem(o, i, opname, val):
    setitem(o, i, _AUG[opname](getitem(o, i), val()))
