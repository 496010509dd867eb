"""A backtracking regex matcher over symbolic strings (the python pattern is parsed by re's own parser)"""
import re as _re
from re import _parser, _constants as C
from . import core
from .core import and_, or_, not_, SymInt
from .seq import SymStr, SymBytes, mkstr, mkbytes, chars_of, char_in, char_pred, in_ranges, ceq, is_str

_cache = {}

class Match:
    def __init__(s, rx, string, chars, groups, pos):
        s.re, s.string, s._c, s._g, s.pos = rx, string, chars, groups, pos
    def _mk(s, a, b):
        return (mkstr if s._isstr() else mkbytes)(s._c[a:b])
    def _isstr(s): return is_str(s.string)
    def _idx(s, g): return s.re.groupindex[g] if isinstance(g, str) else g
    def group(s, *gs):
        if not gs: gs = (0,)
        r = []
        for g in gs:
            sp = s._g.get(s._idx(g))
            r.append(None if sp is None else s._mk(*sp))
        return r[0] if len(r) == 1 else tuple(r)
    def __getitem__(s, g): return s.group(g)
    def groups(s, default=None):
        return tuple(default if i not in s._g else s.group(i) for i in range(1, s.re.groups + 1))
    def span(s, g=0): return s._g.get(s._idx(g), (-1, -1))
    def start(s, g=0): return s.span(g)[0]
    def end(s, g=0): return s.span(g)[1]
    @property
    def lastindex(s):
        ks = [k for k in s._g if k]
        return max(ks) if ks else None

def _cat(cat, c):
    if cat == C.CATEGORY_DIGIT: return char_pred(c, str.isdecimal)
    if cat == C.CATEGORY_NOT_DIGIT: return not_(char_pred(c, str.isdecimal))
    if cat == C.CATEGORY_SPACE: return char_pred(c, str.isspace)
    if cat == C.CATEGORY_NOT_SPACE: return not_(char_pred(c, str.isspace))
    if cat == C.CATEGORY_WORD: return or_(char_pred(c, str.isalnum), ceq(c, 95))
    if cat == C.CATEGORY_NOT_WORD: return not_(or_(char_pred(c, str.isalnum), ceq(c, 95)))
    core.raise_unsupported("regex category %s" % cat)

class M:
    def __init__(s, rx, chars):
        s.flags = rx.flags
        s.c = chars
        s.n = len(chars)
    def bset(s, items, c):
        neg, r = False, False
        for op, av in items:
            if op == C.NEGATE: neg = True
            elif op == C.LITERAL: r = or_(r, ceq(c, av))
            elif op == C.RANGE: r = or_(r, in_ranges(c, [av]))
            elif op == C.CATEGORY: r = or_(r, _cat(av, c))
            else: core.raise_unsupported("regex set %s" % op)
        return not_(r) if neg else r
    def one(s, op, av, i):
        """single char matchers: condition that the char at i matches"""
        c = s.c[i]
        if op == C.LITERAL:
            if s.flags & _re.I: core.raise_unsupported("regex ignorecase")
            return ceq(c, av)
        if op == C.NOT_LITERAL: return not_(ceq(c, av))
        if op == C.ANY: return True if s.flags & _re.S else not_(ceq(c, 10))
        if op == C.IN: return s.bset(av, c)
        return None
    def seq(s, pat, k, i, g, cont):
        """match items pat[k:] at i, then cont(i, g) -> result or None"""
        if k == len(pat): return cont(i, g)
        op, av = pat[k]
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            if i < s.n and bool(s.one(op, av, i)): return s.seq(pat, k + 1, i + 1, g, cont)
            return None
        if op == C.AT:
            if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
                ok = i == 0 or (av == C.AT_BEGINNING and s.flags & _re.M and bool(ceq(s.c[i - 1], 10)))
            elif av == C.AT_END:
                ok = i == s.n or (i == s.n - 1 and bool(ceq(s.c[i], 10))) or (s.flags & _re.M and bool(ceq(s.c[i], 10)))
            elif av == C.AT_END_STRING: ok = i == s.n
            elif av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
                a = i > 0 and bool(_cat(C.CATEGORY_WORD, s.c[i - 1]))
                b = i < s.n and bool(_cat(C.CATEGORY_WORD, s.c[i]))
                ok = (a != b) == (av == C.AT_BOUNDARY)
            else: core.raise_unsupported("regex at %s" % av)
            return s.seq(pat, k + 1, i, g, cont) if ok else None
        if op == C.SUBPATTERN:
            gid, add, dele, sub = av
            sub = list(sub)
            def after(j, g2, i=i):
                if gid is not None: g2 = {**g2, gid: (i, j)}
                return s.seq(pat, k + 1, j, g2, cont)
            return s.seq(sub, 0, i, g, after)
        if op == C.ATOMIC_GROUP:
            r = s.seq(list(av), 0, i, g, lambda j, g2: (j, g2))
            if r is None: return None
            return s.seq(pat, k + 1, r[0], r[1], cont)
        if op == C.BRANCH:
            for alt in av[1]:
                r = s.seq(list(alt), 0, i, g, lambda j, g2: s.seq(pat, k + 1, j, g2, cont))
                if r is not None: return r
            return None
        if op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
            lo, hi, sub = av
            sub = list(sub)
            if op == C.POSSESSIVE_REPEAT: core.raise_unsupported("possessive")
            def rep(n, i, g, greedy=(op == C.MAX_REPEAT)):
                def more():
                    if n >= hi and hi != C.MAXREPEAT: return None
                    return s.seq(sub, 0, i, g, lambda j, g2: None if j == i and n >= lo else rep(n + 1, j, g2))
                def stop(): return s.seq(pat, k + 1, i, g, cont) if n >= lo else None
                first, second = (more, stop) if greedy else (stop, more)
                r = first()
                return r if r is not None else second()
            if len(sub) == 1 and sub[0][0] in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):      # iterative, for single characters
                sop, sav = sub[0]
                def ok(j): return j < s.n and (j - i < hi or hi == C.MAXREPEAT) and bool(s.one(sop, sav, j))
                j = i
                if op == C.MAX_REPEAT:
                    while ok(j): j += 1
                    while j - i >= lo:
                        r = s.seq(pat, k + 1, j, g, cont)
                        if r is not None: return r
                        j -= 1
                    return None
                while True:
                    if j - i >= lo:
                        r = s.seq(pat, k + 1, j, g, cont)
                        if r is not None: return r
                    if not ok(j): return None
                    j += 1
            return rep(0, i, g)
        if op == C.GROUPREF:
            if av not in g: return None
            a, b = g[av]
            L = b - a
            if i + L > s.n: return None
            if not bool(and_(*[ceq(s.c[a + t], s.c[i + t]) for t in range(L)])): return None
            return s.seq(pat, k + 1, i + L, g, cont)
        if op in (C.ASSERT, C.ASSERT_NOT):
            dirn, sub = av
            if dirn < 0:
                w = sub.getwidth()
                if w[0] != w[1]: core.raise_unsupported("lookbehind")
                j0 = i - w[0]
                r = s.seq(list(sub), 0, j0, g, lambda j, g2: True if j == i else None) if j0 >= 0 else None
            else:
                r = s.seq(list(sub), 0, i, g, lambda j, g2: True)
            if (r is not None) != (op == C.ASSERT): return None
            return s.seq(pat, k + 1, i, g, cont)
        core.raise_unsupported("regex op %s" % op)

def parse(rx):
    p = _cache.get(rx)
    if p is None:
        p = _cache[rx] = list(_parser.parse(rx.pattern, rx.flags & ~_re.U if isinstance(rx.pattern, bytes) else rx.flags))
    return p

def match_at(rx, string, chars, pos, full=False):
    m = M(rx, chars)
    pat = parse(rx)
    def done(j, g):
        if full and j != len(chars): return None
        return (j, g)
    r = m.seq(pat, 0, pos, {}, done)
    if r is None: return None
    j, g = r
    return Match(rx, string, chars, {**g, 0: (pos, j)}, pos)

def call(rx, name, a, k):
    from . import rt
    which = 1 if name in ("sub", "subn") else 0
    s = a[which] if len(a) > which else k.get("string")
    if not rt.issym(s):
        if any(rt.issym(x) for x in a): a = [rt.realize(x) for x in a]
        return getattr(rx, name)(*a, **k)
    chars = list(chars_of(s))
    mk = mkstr if is_str(s) else mkbytes
    if name in ("match", "fullmatch"):
        pos = a[1] if len(a) > 1 else 0
        if len(a) > 2: chars = chars[:int(a[2])]
        return match_at(rx, s, chars, int(pos), name == "fullmatch")
    if name == "search":
        for i in range(int(a[1]) if len(a) > 1 else 0, len(chars) + 1):
            m = match_at(rx, s, chars, i)
            if m: return m
        return None
    def matches():
        i = 0
        while i <= len(chars):
            m = match_at(rx, s, chars, i)
            if m is None: i += 1; continue
            yield m
            i = m.end() if m.end() > m.start() else m.end() + 1
    if name == "finditer": return matches()
    if name == "findall":
        out = []
        for m in matches():
            out.append(m.group(0) if rx.groups == 0 else m.group(1) if rx.groups == 1 else m.groups())
        return out
    if name == "split":
        mx = a[1] if len(a) > 1 else k.get("maxsplit", 0)
        out, last, n = [], 0, 0
        for m in matches():
            if mx and n >= mx: break
            out.append(mk(chars[last:m.start()])); out.extend(m.groups()); last = m.end(); n += 1
        out.append(mk(chars[last:]))
        return out
    if name in ("sub", "subn"):
        repl = a[0]
        cnt = a[2] if len(a) > 2 else k.get("count", 0)
        out, last, n = [], 0, 0
        for m in matches():
            if cnt and n >= cnt: break
            out += chars[last:m.start()]
            if callable(repl): r = rt.call(repl, m)
            else:
                if not rt.issym(repl) and ("\\" if isinstance(repl, str) else b"\\") in repl: core.raise_unsupported("re.sub template")
                r = repl
            out += chars_of(r); last = m.end(); n += 1
        out += chars[last:]
        return mk(out) if name == "sub" else (mk(out), n)
    return getattr(rx, name)(*[rt.realize(x) for x in a], **k)
