"""Symbolic strings / bytes / bytearrays: concrete length, possibly symbolic elements"""
import z3
from . import core
from .core import SymInt, SymBool, ite, table, and_, or_, not_, mkbool, Unsupported, raise_unsupported, _int, const, need

def chars_of(v):
    t = type(v)
    if t is SymStr or t is SymBytes: return v.c
    if isinstance(v, SymBytearray): return v.c
    if isinstance(v, str): return [ord(c) for c in v]
    if isinstance(v, (bytes, bytearray)): return list(v)
    raise TypeError("expected a string or bytes-like object, got %s" % type(v).__name__)

def norm(c):
    if type(c) is SymInt and c.lo == c.hi: return c.lo
    return c

def mkstr(chars):
    for c in chars:
        if type(c) is not int: break
    else:
        return "".join(map(chr, chars))
    return SymStr(chars)

def mkbytes(chars):
    for c in chars:
        if type(c) is not int: break
    else:
        return bytes(chars)
    return SymBytes(chars)

def is_str(v): return isinstance(v, str) or type(v) is SymStr
def is_bytes(v): return isinstance(v, (bytes, bytearray)) or type(v) is SymBytes or isinstance(v, SymBytearray)

def ceq(a, b):
    """equality of two elements -> bool | SymBool"""
    if type(a) is int and type(b) is int: return a == b
    return a == b

def seq_eq(a, b):
    if len(a) != len(b): return False
    conds = []
    for x, y in zip(a, b):
        r = ceq(x, y)
        if r is False: return False
        if r is not True: conds.append(r)
    return and_(*conds)

def seq_lt(a, b, oreq):
    """lexicographic <, or <= """
    n = min(len(a), len(b))
    r = (len(a) <= len(b)) if oreq else (len(a) < len(b))
    for i in reversed(range(n)):
        r = or_(a[i] < b[i], and_(ceq(a[i], b[i]), r))
    return r

_range_cache = {}
def pred_ranges(fn, lo, hi):
    key = (fn, lo, hi)
    r = _range_cache.get(key)
    if r is None:
        r = []
        for i in range(lo, hi + 1):
            if fn(chr(i)):
                if r and r[-1][1] == i - 1: r[-1][1] = i
                else: r.append([i, i])
        _range_cache[key] = r
    return r

def char_pred(c, fn):
    if type(c) is int: return bool(fn(chr(c)))
    rs = pred_ranges(fn, max(c.lo, 0), c.hi)
    return in_ranges(c, rs)

def in_ranges(c, rs):
    if not rs: return False
    conds = []
    for a, b in rs:
        if a == b: x = c == a
        else: x = and_(c >= a, c <= b)
        if x is True: return True
        if x is not False: conds.append(x)
    return or_(*conds)

def char_in(c, chars):
    """c (element) in the collection of code points"""
    if type(c) is int: return c in chars
    rs = []
    for v in sorted(set(x for x in chars if type(x) is int)):
        if rs and rs[-1][1] == v - 1: rs[-1][1] = v
        else: rs.append([v, v])
    r = in_ranges(c, rs)
    for x in chars:
        if type(x) is not int: r = or_(r, ceq(c, x))
    return r

_map_cache = {}
def char_map(chars, fn):
    """map each char by fn (str->str); forks when the result length varies"""
    out = []
    for c in chars:
        if type(c) is int:
            out.extend(ord(x) for x in fn(chr(c))); continue
        lo, hi = max(c.lo, 0), c.hi
        if hi > 0x2ff:
            if bool(c <= 0x7f):
                lo, hi = min(lo, 0x7f), 0x7f
            else:
                v = core.ENG.concretize(c)
                out.extend(ord(x) for x in fn(chr(v))); continue
        key = (fn, lo, hi)
        m = _map_cache.get(key)
        if m is None:
            m = {}
            for i in range(lo, hi + 1):
                r = fn(chr(i))
                m.setdefault(len(r), []).append((i, r))
            _map_cache[key] = m
        groups = sorted(m.items(), key=lambda kv: -len(kv[1]))
        for gi, (n, items) in enumerate(groups):
            if gi == len(groups) - 1 or bool(char_in(c, [i for i, _ in items])):
                for k in range(n):
                    out.append(norm(table(c, [(i, ord(r[k])) for i, r in items])))
                break
    return out

k_ws_str = [i for i in range(0x10000) if chr(i).isspace()]
k_ws_bytes = [9, 10, 11, 12, 13, 32]

class SymSeq:
    __slots__ = ("c",)
    def __init__(s, c):
        s.c = [norm(x) for x in c]
    def __len__(s): return len(s.c)
    def _other(s, o):
        if s.str_:
            return o.c if type(o) is SymStr else [ord(x) for x in o] if isinstance(o, str) else None
        if type(o) is SymBytes or isinstance(o, SymBytearray): return o.c
        if isinstance(o, (bytes, bytearray)): return list(o)
        return None
    def _need(s, o):
        r = s._other(o)
        if r is None: raise TypeError("must be %s, not %s" % ("str" if s.str_ else "bytes-like", type(o).__name__))
        return r
    def __add__(s, o):
        r = s._other(o)
        if r is None: return NotImplemented
        return s.mk(s.c + list(r))
    def __radd__(s, o):
        r = s._other(o)
        if r is None: return NotImplemented
        return s.mk(list(r) + s.c)
    def __mul__(s, n):
        if not hasattr(n, "__index__"): return NotImplemented
        return s.mk(s.c * n.__index__())
    __rmul__ = __mul__
    def __eq__(s, o):
        r = s._other(o)
        if r is None: return False
        return seq_eq(s.c, r)
    def __ne__(s, o): return not_(s == o)
    def __lt__(s, o): return seq_lt(s.c, s._need(o), False)
    def __le__(s, o): return seq_lt(s.c, s._need(o), True)
    def __gt__(s, o): return seq_lt(s._need(o), s.c, False)
    def __ge__(s, o): return seq_lt(s._need(o), s.c, True)
    def __hash__(s):
        from . import rt
        if not rt.HASH_OK:
            return hash(s.realize())
        h = rt.SERIAL.get(id(s)) # the same on every run along a path, unlike an id
        if h is None:
            h = rt.SERIAL[id(s)] = (len(rt.SERIAL), s)
        return h[0]
    def realize(s):
        return s.mk([core.ENG.concretize(x) for x in s.c])
    def __str__(s): return s.realize() if s.str_ else str(s.realize())
    def __repr__(s): return "<%s %s>" % (type(s).__name__, "".join((chr(x) if 32 <= x < 127 else "\\x%x" % x) if type(x) is int else "?" for x in s.c))
    def __format__(s, spec): return format(s.realize(), spec)
    # -- search
    def _match_at(s, sub, i):
        return seq_eq(s.c[i:i + len(sub)], sub)
    def _subarg(s, sub):
        if not s.str_ and _int(sub) is not None: return [_int(sub)]
        return s._need(sub)
    def _bounds(s, start, end):
        st, en, _ = slice(start, end).indices(len(s.c))
        return st, en
    def find(s, sub, start=None, end=None):
        sub = s._subarg(sub); st, en = s._bounds(start, end)
        if start is not None and _int(start) is not None and int(start) > len(s.c): return -1
        if len(sub) == 1 and type(sub[0]) is SymInt and en - st > 1 and all(type(x) is int for x in s.c[st:en]):
            seen = {}
            for i in range(st, en): seen.setdefault(s.c[i], i)
            if not bool(or_(*[sub[0] == x for x in seen])): return -1
            pairs = [(x, i) for x, i in seen.items()]
            r = pairs[-1][1]
            # runs of consecutive characters at consecutive positions become one linear piece
            runs = []
            for x, i in sorted(pairs):
                if runs and runs[-1][1] + 1 == x and runs[-1][2] + (x - runs[-1][0]) == i: runs[-1][1] = x
                else: runs.append([x, x, i])
            r = None
            for a, b, i in runs:
                v = i if a == b else core.clip(sub[0] - a + i, i, i + b - a)
                r = v if r is None else ite(and_(sub[0] >= a, sub[0] <= b), v, r)
            return r
        for i in range(st, en - len(sub) + 1):
            if bool(s._match_at(sub, i)): return i
        return -1
    def rfind(s, sub, start=None, end=None):
        sub = s._subarg(sub); st, en = s._bounds(start, end)
        for i in reversed(range(st, en - len(sub) + 1)):
            if bool(s._match_at(sub, i)): return i
        return -1
    def index(s, sub, start=None, end=None):
        r = s.find(sub, start, end)
        if r < 0: raise ValueError("substring not found")
        return r
    def rindex(s, sub, start=None, end=None):
        r = s.rfind(sub, start, end)
        if r < 0: raise ValueError("substring not found")
        return r
    def has(s, sub):
        sub = s._subarg(sub)
        if len(sub) == 0: return True
        if len(sub) == 1: return or_(*[ceq(x, sub[0]) for x in s.c])
        return or_(*[s._match_at(sub, i) for i in range(len(s.c) - len(sub) + 1)])
    def __contains__(s, sub): return bool(s.has(sub))
    def count(s, sub, start=None, end=None):
        sub = s._subarg(sub); st, en = s._bounds(start, end)
        if len(sub) == 1:
            r = 0
            for i in range(st, en):
                e = ceq(s.c[i], sub[0])
                r = r + (int(e) if type(e) is bool else e.toint())
            return r
        if not sub: return en - st + 1
        n, i = 0, st
        while i + len(sub) <= en:
            if bool(s._match_at(sub, i)): n += 1; i += len(sub)
            else: i += 1
        return n
    def startswith(s, p, start=None, end=None):
        if start is not None or end is not None:
            return s.mkraw(s.c[slice(start, end)]).startswith(p)
        if isinstance(p, tuple): return or_(*[s.startswith(x) for x in p])
        p = s._need(p)
        return seq_eq(s.c[:len(p)], p)
    def endswith(s, p, start=None, end=None):
        if start is not None or end is not None:
            return s.mkraw(s.c[slice(start, end)]).endswith(p)
        if isinstance(p, tuple): return or_(*[s.endswith(x) for x in p])
        p = s._need(p)
        if len(p) > len(s.c): return False
        return seq_eq(s.c[len(s.c) - len(p):], p)
    def removeprefix(s, p):
        return s.mk(s.c[len(p):]) if bool(s.startswith(p)) else s.mk(s.c)
    def removesuffix(s, p):
        return s.mk(s.c[:len(s.c) - len(p)]) if len(p) and bool(s.endswith(p)) else s.mk(s.c)
    def _strip(s, chars, l, r):
        cs = (k_ws_str if s.str_ else k_ws_bytes) if chars is None else s._need(chars)
        a, b = 0, len(s.c)
        if l:
            while a < b and bool(char_in(s.c[a], cs)): a += 1
        if r:
            while b > a and bool(char_in(s.c[b - 1], cs)): b -= 1
        return s.mk(s.c[a:b])
    def strip(s, chars=None): return s._strip(chars, True, True)
    def lstrip(s, chars=None): return s._strip(chars, True, False)
    def rstrip(s, chars=None): return s._strip(chars, False, True)
    def split(s, sep=None, maxsplit=-1):
        out, cur, n = [], [], 0
        i = 0
        if sep is None:
            ws = k_ws_str if s.str_ else k_ws_bytes
            inw = False
            while i < len(s.c):
                if not inw and bool(char_in(s.c[i], ws)): i += 1; continue
                if not inw:
                    inw = True; start = i
                    if maxsplit >= 0 and n >= maxsplit:
                        rest = s.mkraw(s.c[i:]).rstrip()
                        out.append(rest); return out
                    i += 1; continue
                if bool(char_in(s.c[i], ws)):
                    out.append(s.mk(s.c[start:i])); n += 1; inw = False
                i += 1
            if inw: out.append(s.mk(s.c[start:]))
            return out
        sub = s._need(sep)
        if not sub: raise ValueError("empty separator")
        start = 0
        while i + len(sub) <= len(s.c) and (maxsplit < 0 or n < maxsplit):
            if bool(s._match_at(sub, i)):
                out.append(s.mk(s.c[start:i])); n += 1
                i += len(sub); start = i
            else: i += 1
        out.append(s.mk(s.c[start:]))
        return out
    def rsplit(s, sep=None, maxsplit=-1):
        if maxsplit < 0: return s.split(sep)
        if sep is None: raise_unsupported("rsplit whitespace")
        sub = s._need(sep)
        out, end, i, n = [], len(s.c), len(s.c) - len(sub), 0
        while i >= 0 and n < maxsplit:
            if bool(s._match_at(sub, i)):
                out.append(s.mk(s.c[i + len(sub):end])); end = i; i -= len(sub); n += 1
            else: i -= 1
        out.append(s.mk(s.c[:end])); out.reverse()
        return out
    def partition(s, sep):
        i = s.find(sep)
        if i < 0: return s.mk(s.c), s.mk([]), s.mk([])
        return s.mk(s.c[:i]), sep, s.mk(s.c[i + len(sep):])
    def rpartition(s, sep):
        i = s.rfind(sep)
        if i < 0: return s.mk([]), s.mk([]), s.mk(s.c)
        return s.mk(s.c[:i]), sep, s.mk(s.c[i + len(sep):])
    def splitlines(s, keepends=False):
        out, start, i = [], 0, 0
        brk = [10, 11, 12, 13, 0x1c, 0x1d, 0x1e, 0x85, 0x2028, 0x2029] if s.str_ else [10, 13]
        while i < len(s.c):
            if bool(char_in(s.c[i], brk)):
                j = i + 1
                if j < len(s.c) and bool(and_(ceq(s.c[i], 13), ceq(s.c[j], 10))): j += 1
                out.append(s.mk(s.c[start:j if keepends else i])); start = i = j
            else: i += 1
        if start < len(s.c): out.append(s.mk(s.c[start:]))
        return out
    def replace(s, old, new, count=-1):
        old, new = s._need(old), list(s._need(new))
        if len(old) == 1 and len(new) == 1 and count < 0:
            return s.mk([ite(ceq(c, old[0]), new[0], c) for c in s.c])
        if not old: raise_unsupported("replace empty")
        out, i, n = [], 0, 0
        while i < len(s.c):
            if i + len(old) <= len(s.c) and (count < 0 or n < count) and bool(s._match_at(old, i)):
                out += new; i += len(old); n += 1
            else:
                out.append(s.c[i]); i += 1
        return s.mk(out)
    def join(s, it):
        out, first = [], True
        for x in it:
            if not first: out += s.c
            first = False
            out += s._need(x)
        return s.mk(out)
    def ljust(s, n, ch=None):
        ch = s._need(ch)[0] if ch is not None else 32
        return s.mk(s.c + [ch] * max(0, int(n) - len(s.c)))
    def rjust(s, n, ch=None):
        ch = s._need(ch)[0] if ch is not None else 32
        return s.mk([ch] * max(0, int(n) - len(s.c)) + s.c)
    def zfill(s, n):
        if s.c and bool(char_in(s.c[0], [43, 45])):
            return s.mk([s.c[0]] + [48] * max(0, n - len(s.c)) + s.c[1:])
        return s.mk([48] * max(0, n - len(s.c)) + s.c)
    def _all(s, fn):
        if not s.c: return False
        return and_(*[char_pred(c, fn) for c in s.c])
    def isdigit(s): return s._all(str.isdigit)
    def isdecimal(s): return s._all(str.isdecimal)
    def isnumeric(s): return s._all(str.isnumeric)
    def isalpha(s): return s._all(str.isalpha)
    def isalnum(s): return s._all(str.isalnum)
    def isspace(s): return s._all(str.isspace)
    def isprintable(s): return and_(*[char_pred(c, str.isprintable) for c in s.c])
    def isascii(s): return and_(*[(c < 128) for c in s.c])
    def isidentifier(s):
        if not s.c: return False
        return and_(char_pred(s.c[0], str.isidentifier), *[char_pred(c, _idcont) for c in s.c[1:]])
    def isupper(s): return and_(or_(*[char_pred(c, str.isupper) for c in s.c]), not_(or_(*[char_pred(c, _lowertitle) for c in s.c])))
    def islower(s): return and_(or_(*[char_pred(c, str.islower) for c in s.c]), not_(or_(*[char_pred(c, _uppertitle) for c in s.c])))
    def lower(s): return s.mk(char_map(s.c, str.lower))
    def upper(s): return s.mk(char_map(s.c, str.upper))
    def swapcase(s): return s.mk(char_map(s.c, str.swapcase))
    def casefold(s): return s.mk(char_map(s.c, str.casefold))
    def capitalize(s): return s.mk(char_map(s.c[:1], str.upper) + char_map(s.c[1:], str.lower))
    def __reversed__(s): return iter([s.mk1(c) for c in reversed(s.c)])
    def __getnewargs__(s): raise_unsupported("pickle")
    def __deepcopy__(s, memo): return s
    def __copy__(s): return s

def _idcont(c): return ("a" + c).isidentifier()
def _lowertitle(c): return c.islower() or c.istitle()  and not c.isupper()
def _uppertitle(c): return c.isupper() or c.istitle() and not c.isupper()

class SymStr(SymSeq):
    __slots__ = ()
    str_ = True
    mk = staticmethod(mkstr)
    @staticmethod
    def mkraw(c): return SymStr(c)
    @staticmethod
    def mk1(c): return mkstr([c])
    def __iter__(s):
        return iter([mkstr([c]) for c in s.c])
    def __getitem__(s, i):
        if isinstance(i, slice): return mkstr(s.c[i])
        if type(i) is SymInt:
            from . import rt
            return rt.seq_load([mkstr([c]) for c in s.c], i, "string index out of range")
        return mkstr([s.c[i]])
    def __mod__(s, o):
        from . import rt
        return rt.mod(s.realize(), o)
    def encode(s, encoding="utf-8", errors="strict"):
        enc = encoding.lower().replace("_", "-")
        if enc in ("latin-1", "latin1", "iso-8859-1", "ascii"):
            top = 127 if enc == "ascii" else 255
            for c in s.c:
                if bool(c > top):
                    raise UnicodeEncodeError(enc, "?", 0, 1, "ordinal not in range")
            return mkbytes(s.c)
        if enc not in ("utf-8", "utf8"): raise_unsupported("encode " + enc)
        out = []
        for c in s.c:
            if bool(c < 0x80): out.append(narrow(c, 0, 0x7f)); continue
            if bool(c < 0x800): out += [narrow(0xc0 | (c >> 6), 0, 0xff), 0x80 | (c & 0x3f)]; continue
            if bool(c < 0x10000):
                if bool(and_(c >= 0xd800, c <= 0xdfff)):
                    if errors == "surrogateescape" and bool(and_(c >= 0xdc80, c <= 0xdcff)):
                        out.append(narrow(c - 0xdc00, 0x80, 0xff)); continue
                    if errors == "surrogatepass": pass
                    else: raise UnicodeEncodeError("utf-8", "?", 0, 1, "surrogates not allowed")
                out += [narrow(0xe0 | (c >> 12), 0, 0xff), 0x80 | ((c >> 6) & 0x3f), 0x80 | (c & 0x3f)]; continue
            out += [narrow(0xf0 | (c >> 18), 0, 0xff), 0x80 | ((c >> 12) & 0x3f), 0x80 | ((c >> 6) & 0x3f), 0x80 | (c & 0x3f)]
        return mkbytes(out)

def narrow(c, lo, hi):
    """the value is known to lie in [lo, hi]"""
    if type(c) is int: return c
    lo, hi = max(lo, c.lo), min(hi, c.hi)
    return SymInt(core.fit(c.e, need(lo, hi)), lo, hi)

def decode_utf8(cs, errors):
    out, i, n = [], 0, len(cs)
    def bad(i):
        if errors == "surrogateescape": out.append(0xdc00 + cs[i]); return
        if errors == "replace": out.append(0xfffd); return
        if errors == "ignore": return
        raise UnicodeDecodeError("utf-8", b"?", 0, 1, "invalid start byte")
    def cont(j): return j < n and bool(and_(cs[j] >= 0x80, cs[j] <= 0xbf))
    while i < n:
        c = cs[i]
        if bool(c < 0x80): out.append(narrow(c, 0, 0x7f)); i += 1
        elif bool(and_(c >= 0xc2, c <= 0xdf)):
            if cont(i + 1): out.append(narrow(((c & 0x1f) << 6) | (cs[i + 1] & 0x3f), 0x80, 0x7ff)); i += 2
            else: bad(i); i += 1
        elif bool(and_(c >= 0xe0, c <= 0xef)):
            ok1 = cont(i + 1) and not bool(and_(c == 0xe0, cs[i + 1] < 0xa0)) and not bool(and_(c == 0xed, cs[i + 1] >= 0xa0))
            if ok1 and cont(i + 2):
                out.append(narrow(((c & 0xf) << 12) | ((cs[i + 1] & 0x3f) << 6) | (cs[i + 2] & 0x3f), 0x800, 0xffff)); i += 3
            else:
                bad(i); i += 1   # (the continuation byte is bad by itself as well)
                if ok1 and errors in ("replace", "ignore"): i += 1
        elif bool(and_(c >= 0xf0, c <= 0xf4)):
            ok1 = cont(i + 1) and not bool(and_(c == 0xf0, cs[i + 1] < 0x90)) and not bool(and_(c == 0xf4, cs[i + 1] >= 0x90))
            if ok1 and cont(i + 2) and cont(i + 3):
                out.append(narrow(((c & 7) << 18) | ((cs[i + 1] & 0x3f) << 12) | ((cs[i + 2] & 0x3f) << 6) | (cs[i + 3] & 0x3f), 0x10000, 0x10ffff)); i += 4
            else: bad(i); i += 1
        else: bad(i); i += 1
    return mkstr(out)

class SymBytesBase(SymSeq):
    __slots__ = ()
    str_ = False
    mk = staticmethod(mkbytes)
    @staticmethod
    def mkraw(c): return SymBytes(c)
    @staticmethod
    def mk1(c): return c
    def __iter__(s): return iter(list(s.c))
    def decode(s, encoding="utf-8", errors="strict"):
        enc = encoding.lower().replace("_", "-")
        if enc in ("latin-1", "latin1", "iso-8859-1"): return mkstr(s.c)
        if enc == "ascii":
            for c in s.c:
                if bool(c > 127): raise UnicodeDecodeError("ascii", b"?", 0, 1, "ordinal not in range(128)")
            return mkstr(s.c)
        if enc not in ("utf-8", "utf8"): raise_unsupported("decode " + enc)
        return decode_utf8(s.c, errors)
    def hex(s, *a):
        from . import rt
        if a: raise_unsupported("hex sep")
        return mkstr([d for c in s.c for d in (rt.digit(c >> 4), rt.digit(c & 15))])
    def tobytes(s): return mkbytes(s.c)

class SymBytes(SymBytesBase):
    __slots__ = ()
    def __getitem__(s, i):
        if isinstance(i, slice): return mkbytes(s.c[i])
        if type(i) is SymInt:
            from . import rt
            return rt.seq_load(s.c, i, "index out of range")
        return s.c[i]
    def __bytes__(s): return s.realize()

def iter_bytes(src):
    t = type(src)
    if t is SymBytes or isinstance(src, SymBytearray): return list(src.c)
    if isinstance(src, (bytes, bytearray)): return list(src)
    if isinstance(src, memoryview): return list(src)
    out = []
    for x in src:
        v = _int(x)
        if v is None:
            if hasattr(x, "__index__"): v = x.__index__()
            else: raise TypeError("%r object cannot be interpreted as an integer" % type(x).__name__)
        if type(v) is SymInt:
            if v.lo < 0 or v.hi > 255:
                if not bool(and_(v >= 0, v <= 255)): raise ValueError("bytes must be in range(0, 256)")
                v = narrow(v, 0, 255)
        elif not 0 <= v <= 255: raise ValueError("bytes must be in range(0, 256)")
        out.append(v)
    return out

class SymBytearray(SymBytesBase):
    """stands for bytearray in instrumented code (and can be subclassed)"""
    __hash__ = None
    def __init__(s, src=None, encoding=None, errors="strict"):
        if src is None: s.c = []
        elif is_str(src): s.c = list(chars_of(src.encode(encoding, errors)))
        elif type(src) in (int, SymInt, bool): s.c = [0] * int(src)
        else: s.c = iter_bytes(src)
    def mk(s, c):
        r = SymBytearray(); r.c = [norm(x) for x in c]
        return r
    mkraw = mk
    def __bytes__(s): return bytes(core.ENG.concretize(x) for x in s.c)
    def realize(s): return bytearray(core.ENG.concretize(x) for x in s.c)
    def __deepcopy__(s, memo): return s._copy()
    def __copy__(s): return s._copy()
    def _copy(s):
        r = type(s).__new__(type(s)); r.c = list(s.c)
        if hasattr(s, "__dict__"): r.__dict__.update(s.__dict__)
        return r
    def copy(s): return s.mk(s.c)
    def __getitem__(s, i):
        if isinstance(i, slice): return s.mk(s.c[i])
        if type(i) is SymInt:
            from . import rt
            return rt.seq_load(s.c, i, "bytearray index out of range")
        return s.c[i]
    def _byte(s, v):
        return iter_bytes([v])[0]
    def __setitem__(s, i, v):
        if isinstance(i, slice):
            s.c[i] = iter_bytes(v)
        elif type(i) is SymInt:
            v = s._byte(v)
            n = len(s.c)
            if not bool(and_(i >= -n, i < n)): raise IndexError("bytearray index out of range")
            j = ite(i < 0, i + n, i) if i.lo < 0 else i
            if n <= 64:
                s.c = [norm(ite(j == k, v, s.c[k])) if (type(j == k) is not bool or (j == k)) else s.c[k] for k in range(n)]
            else:
                s.c[core.ENG.concretize(j)] = v
        else:
            s.c[i] = s._byte(v)
    def __delitem__(s, i): del s.c[i]
    def __iadd__(s, o):
        s.c = s.c + iter_bytes(o)
        return s
    def append(s, v): s.c.append(s._byte(v))
    def extend(s, v): s.c.extend(iter_bytes(v))
    def insert(s, i, v): s.c.insert(i, s._byte(v))
    def pop(s, i=-1): return s.c.pop(i)
    def clear(s): s.c = []
    def reverse(s): s.c.reverse()
    @staticmethod
    def fromhex(h):
        from . import rt
        return SymBytearray(rt.fromhex(h))
