"""An independent reader and evaluator of Lua (PICO-8 / Picotron flavours), for translation validation.

parse(text, lang) -> AST (tuples). Run(ctx, world, ast).main() executes it in a symbolic world: what the
program does not define itself - globals it reads, what unknown functions return, truth of unknown values -
are solver variables, shared by name between the runs that are compared. The outcome is the trace of
observable events (calls to unknown functions with their arguments and the globals they can see, accesses
to unknown tables, the final globals, returned values).
Written from the Lua 5.2/5.4 manuals and the PICO-8 manual, not from /repo.
"""
from props import luaspec as sp

KEYWORDS = set("and break do else elseif end false for function goto if in local nil not or repeat return then true until while".split())
PUNCT8 = [">>>=", "<<>=", ">><=", "...", "..=", ">>>", "<<>", ">><", "<<=", ">>=", "^^=", "==", "~=", "!=", "<=", ">=", "..", "::", "<<", ">>", "^^", "+=", "-=", "*=", "/=", "\\=", "%=", "^=", "&=", "|="]
PUNCTN = ["...", "..=", "//=", "<<=", ">>=", "^^=", "==", "~=", "!=", "<=", ">=", "..", "::", "<<", ">>", "//", "^^", "+=", "-=", "*=", "/=", "\\=", "%=", "^=", "&=", "|="]
SINGLE = "+-*/\\%&|^<>=~#()[]{};,?@$.:"

class Bad(Exception): pass

def isid(c, p8): return c.isascii() and (c.isalnum() or c == "_") or (p8 and (c in "\x1e\x1f" or c >= "\x80"))

def long_open(s, i):
    """the level of the long bracket that opens at i, None if there is none"""
    j = i + 1
    while j < len(s) and s[j] == "=": j += 1
    return j - i - 1 if j < len(s) and s[j] == "[" else None

ESC = {"*": 1, "#": 2, "-": 3, "|": 4, "+": 5, "^": 6, "a": 7, "b": 8, "t": 9, "n": 10, "v": 11, "f": 12, "r": 13, "\\": 92, '"': 34, "'": 39, "\n": 10}

def lex(s, lang):
    """-> [(kind, text/value, line, start, end)]; kinds: name, kw, num, str, op, eof"""
    p8 = lang == "pico8"
    puncts = PUNCT8 if p8 else PUNCTN
    out, i, n, line = [], 0, len(s), 0
    while i < n:
        c = s[i]
        if c in " \t\r": i += 1; continue
        if c == "\n": line += 1; i += 1; continue
        if s.startswith("--", i) or (p8 and s.startswith("//", i)):
            if c == "-" and i + 2 < n and s[i + 2] == "[":
                lv = long_open(s, i + 2)
                if lv is not None:
                    e = s.find("]" + "=" * lv + "]", i + 4 + lv)
                    if e < 0: raise Bad("unfinished comment")
                    i = e + lv + 2
                    continue
            while i < n and s[i] != "\n": i += 1
            continue
        st = i
        if c.isascii() and c.isdigit() or (c == "." and i + 1 < n and s[i + 1] in "0123456789"):
            if p8:
                digs = "0123456789"
                if s[i:i + 2].lower() == "0x": digs = "0123456789abcdefABCDEF"; i += 2
                elif s[i:i + 2].lower() == "0b": digs = "01"; i += 2
                while i < n and (s[i] in digs or s[i] == "."): i += 1
            else:
                hexa = s[i:i + 2].lower() == "0x"
                while i < n and (isid(s[i], False) or s[i] == "." or (s[i] in "+-" and s[i - 1] in ("pP" if hexa else "eE"))): i += 1
            out.append(("num", s[st:i], line, st, i))
        elif isid(c, p8):
            while i < n and isid(s[i], p8): i += 1
            w = s[st:i]
            out.append(("kw" if w in KEYWORDS else "name", w, line, st, i))
        elif c in "\"'":
            v, i = [], i + 1
            while True:
                if i >= n or s[i] == "\n": raise Bad("unfinished string")
                d = s[i]
                if d == c: i += 1; break
                if d != "\\": v.append(d); i += 1; continue
                i += 1
                if i >= n: raise Bad("unfinished string")
                d = s[i]
                if d == "z":
                    i += 1
                    while i < n and s[i] in " \t\r\n": i += 1
                elif d == "x": v.append(chr(int(s[i + 1:i + 3], 16))); i += 3
                elif d.isdigit():
                    j = i
                    while j < n and j < i + 3 and s[j].isdigit(): j += 1
                    v.append(chr(int(s[i:j]))); i = j
                elif d in ESC: v.append(chr(ESC[d])); i += 1
                else: raise Bad("escape")
            out.append(("str", "".join(v), line, st, i))
        elif c == "[" and long_open(s, i) is not None:
            lv = long_open(s, i)
            b = i + lv + 2
            e = s.find("]" + "=" * lv + "]", b)
            if e < 0: raise Bad("unfinished string")
            if s[b:b + 1] == "\n": b += 1
            i = max(e, b) + lv + 2
            out.append(("str", s[b:e], line, st, i))
        else:
            for p in puncts:
                if s.startswith(p, i): break
            else:
                if c not in SINGLE: raise Bad("character")
                if c == "[" and i + 1 < n and s[i + 1] == "=": raise Bad("long bracket")
                p = c
            i += len(p)
            out.append(("op", p, line, st, i))
    out.append(("eof", "<eof>", line + 1, n, n))
    return out

SAME = {"pico8": {"!=": "~=", "~": "^^"}, "picotron": {"!=": "~=", "//": "\\", "^^": "~"}} # two ways to write an operator
PREC = {"or": (1, 1), "and": (2, 2), "<": (3, 3), ">": (3, 3), "<=": (3, 3), ">=": (3, 3), "~=": (3, 3), "!=": (3, 3), "==": (3, 3),
        "|": (4, 4), "^^": (5, 5), "~": (5, 5), "&": (6, 6), "<<": (7, 7), ">>": (7, 7), ">>>": (7, 7), "<<>": (7, 7), ">><": (7, 7),
        "..": (9, 8), "+": (10, 10), "-": (10, 10), "*": (11, 11), "/": (11, 11), "//": (11, 11), "\\": (11, 11), "%": (11, 11), "^": (14, 13)}
UNPREC = 12

class Parser:
    def __init__(p, text, lang, key="str"):
        p.key = key         # what a '.name' is: "str" (the string it stands for) or "member"
        p.lang, p.p8 = lang, lang == "pico8"
        p.t = lex(text, lang)
        p.i = 0
        p.limit = None      # the line a shorthand ends with
        p.marks = set()     # newer syntax that is used: "do" instead of "then", "nested" shorthands
    def peek(p):
        t = p.t[p.i]
        if p.limit is not None and t[2] > p.limit: return ("eof", "<eol>", t[2], t[3], t[3])
        return t
    def is_(p, *ops): t = p.peek(); return t[0] in ("op", "kw") and t[1] in ops
    def acc(p, op):
        if p.is_(op): p.i += 1; return True
        return False
    def need(p, op):
        if not p.acc(op): raise Bad("expected %s, not %s" % (op, p.peek()[1]))
    def name(p):
        t = p.peek()
        if t[0] != "name": raise Bad("name expected, not %s" % t[1])
        p.i += 1
        return t[1]
    def chunk(p):
        b = p.block()
        if p.peek()[0] != "eof": raise Bad("unexpected %s" % p.peek()[1])
        return b
    def block(p, line=None):
        old = p.limit
        if line is not None: p.limit = line if old is None else min(old, line)
        try: return p.stmts(line)
        finally: p.limit = old
    def stmts(p, line):
        out = []
        while True:
            t = p.peek()
            if t[0] == "eof" or p.is_("end", "else", "elseif", "until"): break
            if p.acc(";"): continue
            s = p.stmt(line)
            out.append(s)
            if s[0] == "return":
                p.acc(";")
                t = p.peek()
                if not (t[0] == "eof" or p.is_("end", "else", "elseif", "until")):
                    raise Bad("statement after return")
                break
        return out
    def then(p):
        if p.acc("then"): return True
        if not (p.p8 and p.acc("do")): return False
        p.marks.add("do")
        return True
    def shortline(p):
        """in a shorthand: the line it ends with, when the condition is in parentheses"""
        prev = p.t[p.i - 1]
        if not (prev[0] == "op" and prev[1] == ")"): raise Bad("then expected, not %s" % p.peek()[1])
        if p.peek()[2] > prev[2] or p.is_("end", "elseif", "until"): raise Bad("a shorthand with nothing after the condition")
        if p.limit is not None: p.marks.add("nested")
        return prev[2]
    def stmt(p, line):
        if p.acc("do"):
            b = p.block(); p.need("end"); return ("do", b)
        if p.acc("while"):
            c = p.expr()
            if p.acc("do"): b = p.block(); p.need("end")
            else:
                b = p.block(p.shortline())
            return ("while", c, b)
        if p.acc("repeat"):
            b = p.block(); p.need("until"); return ("repeat", b, p.expr())
        if p.acc("if"):
            c = p.expr()
            if p.then():
                conds, els = [(c, p.block())], None
                while True:
                    if p.acc("elseif"):
                        c = p.expr()
                        if not p.then(): raise Bad("then expected")
                        conds.append((c, p.block()))
                    elif p.acc("else"):
                        els = p.block(); p.need("end"); break
                    else: p.need("end"); break
                return ("if", conds, els)
            ln = p.shortline()
            b, els = p.block(ln), None
            if p.is_("else") and p.peek()[2] == ln:
                p.i += 1
                els = p.block(ln)
            return ("if", [(c, b)], els)
        if p.acc("for"):
            n = p.name()
            if p.acc("="):
                es = [p.expr()]; p.need(","); es.append(p.expr())
                if p.acc(","): es.append(p.expr())
                p.need("do"); b = p.block(); p.need("end")
                return ("fornum", n, es, b)
            ns = [n]
            while p.acc(","): ns.append(p.name())
            p.need("in"); es = p.exprs(); p.need("do"); b = p.block(); p.need("end")
            return ("forin", ns, es, b)
        if p.acc("function"):
            t = ("name", p.name())
            while p.acc("."): t = ("index", t, (p.key, p.name()))
            slf = False
            if p.acc(":"): t = ("index", t, (p.key, p.name())); slf = True
            return ("assign", [t], [p.funcbody(slf)])
        if p.acc("local"):
            if p.acc("function"):
                n = p.name()
                return ("localfunc", n, p.funcbody())
            ns, at = [], []
            while True:
                ns.append(p.name())
                if not p.p8 and p.acc("<"): at.append(p.name()); p.need(">")
                else: at.append(None)
                if not p.acc(","): break
            es = p.exprs() if p.acc("=") else []
            return ("local", ns, at, es)
        if p.acc("return"):
            t = p.peek()
            if t[0] == "eof" or p.is_("end", "else", "elseif", "until", ";"): return ("return", [])
            return ("return", p.exprs())
        if p.acc("break"): return ("break",)
        if p.acc("goto"): return ("goto", p.name())
        if p.acc("::"):
            n = p.name(); p.need("::"); return ("label", n)
        if p.is_("?"): return ("callstat", p.printexpr())
        e = p.suffixed()
        if p.is_("=", ","):
            ts = [e]
            while p.acc(","): ts.append(p.suffixed())
            p.need("=")
            for x in ts:
                if x[0] not in ("name", "index"): raise Bad("cannot assign")
            return ("assign", ts, p.exprs())
        t = p.peek()
        if t[0] == "op" and t[1].endswith("=") and t[1] not in ("==", "~=", "!=", "<=", ">=", "="):
            if e[0] not in ("name", "index"): raise Bad("cannot assign")
            p.i += 1
            return ("opassign", SAME[p.lang].get(t[1][:-1], t[1][:-1]), e, p.expr())
        if e[0] not in ("call", "method"): raise Bad("an expression is not a statement")
        return ("callstat", e)
    def printexpr(p):
        ln, old = p.peek()[2], p.limit
        p.need("?")
        p.limit = ln if old is None else min(ln, old)
        try:
            if p.peek()[0] == "eof": raise Bad("? without arguments")
            return ("call", ("name", "print"), p.exprs(), ln)
        finally: p.limit = old
    def exprs(p):
        es = [p.expr()]
        while p.acc(","): es.append(p.expr())
        return es
    def funcbody(p, slf=False):
        p.need("(")
        ps, va = ["self"] if slf else [], False
        if not p.acc(")"):
            while True:
                if p.acc("..."): va = True; p.need(")"); break
                ps.append(p.name())
                if p.acc(")"): break
                p.need(",")
        b = p.block(); p.need("end")
        return ("func", ps, va, b)
    def suffixed(p):
        t = p.peek()
        if t[0] == "name": p.i += 1; e = ("name", t[1])
        elif p.acc("("):
            e = p.expr(); p.need(")"); e = ("paren", e)
        else: raise Bad("unexpected %s" % t[1])
        while True:
            t = p.peek()
            if p.acc("."): e = ("index", e, (p.key, p.name()))
            elif p.acc("["): k = p.expr(); p.need("]"); e = ("index", e, k)
            elif p.acc(":"): n = p.name(); e = ("method", e, n, p.args())
            elif p.is_("(", "{") or t[0] == "str": e = ("call", e, p.args())
            else: return e
    def args(p):
        t = p.peek()
        if t[0] == "str": p.i += 1; return [("str", t[1])]
        if p.is_("{"): return [p.table()]
        p.need("(")
        if p.acc(")"): return []
        es = p.exprs(); p.need(")")
        return es
    def table(p):
        p.need("{")
        items = []
        while not p.acc("}"):
            if p.acc("["):
                k = p.expr(); p.need("]"); p.need("="); items.append((k, p.expr()))
            elif p.peek()[0] == "name" and p.t[p.i + 1][0] == "op" and p.t[p.i + 1][1] == "=":
                k = (p.key, p.name()); p.need("="); items.append((k, p.expr()))
            else: items.append((None, p.expr()))
            if p.acc("}"): break
            if not p.acc(","): p.need(";")
        return ("table", items)
    def simple(p):
        t = p.peek()
        if t[0] == "num":
            number_shape(t[1], p.lang)
            p.i += 1; return ("num", t[1])
        if t[0] == "str": p.i += 1; return ("str", t[1])
        for k in ("nil", "true", "false"):
            if p.acc(k): return (k,)
        if p.acc("..."): return ("vararg",)
        if p.is_("{"): return p.table()
        if p.acc("function"): return p.funcbody()
        if p.p8 and p.is_("?"): return p.printexpr()
        return p.suffixed()
    def expr(p, limit=0):
        t = p.peek()
        if t[0] in ("op", "kw") and t[1] in ("-", "~", "not", "#", "@", "%", "$") + (() if p.p8 else ("*",)):
            p.i += 1
            e = ("un", t[1], p.expr(UNPREC))
        else: e = p.simple()
        while True:
            t = p.peek()
            if t[0] not in ("op", "kw") or t[1] not in PREC: return e
            if p.p8 and t[1] == "//" or not p.p8 and t[1] in (">>>", "<<>", ">><"): return e
            l, r = PREC[t[1]]
            if l <= limit: return e
            p.i += 1
            e = ("bin", SAME[p.lang].get(t[1], t[1]), e, p.expr(r))

def parse(text, lang="pico8", key="str"):
    b = Parser(text, lang, key).chunk()
    check_block(b, False, [])
    return b

def marks(text, lang="pico8"):
    p = Parser(text, lang)
    p.chunk()
    for i, t in enumerate(p.t):
        if t[0] == "op" and t[1] == "~" and i and (p.t[i - 1][0] in ("name", "num", "str") or p.t[i - 1][1] in (")", "]", "}", "...", "end", "nil", "true", "false")): p.marks.add("xor")
        if t[0] == "str" and text[t[3]:t[3] + 2] == "[=": p.marks.add("level")
    return p.marks

def check_block(body, inloop, outer, until=None):
    """where break and goto may be. outer: the enclosing blocks (body, position) of the function"""
    for i, s in enumerate(body):
        k, here = s[0], outer + [(body, i)]
        for e in s[1:]: check_funcs(e)
        if k == "break":
            if not inloop: raise Bad("break outside a loop")
        elif k == "goto":
            for b, at in reversed(here):
                at2 = [j for j, x in enumerate(b) if x == ("label", s[1])]
                if at2:
                    if at2[0] > at and any(x[0] in ("local", "localfunc") for x in b[at:at2[0]]) and any(x[0] != "label" for x in b[at2[0]:]): raise Bad("goto into the scope of a local")
                    break
            else: raise Bad("no label %s" % s[1])
        elif k == "label":
            for b, at in here[:-1] + [(body[:i], 0)]:
                if s in b: raise Bad("a label is defined twice")
        elif k == "do": check_block(s[1], inloop, here)
        elif k == "while": check_block(s[2], True, here)
        elif k == "repeat": check_block(s[1], True, here)
        elif k == "if":
            for c, b in s[1]: check_block(b, inloop, here)
            if s[2] is not None: check_block(s[2], inloop, here)
        elif k in ("fornum", "forin"): check_block(s[3], True, here)

def check_funcs(e):
    """the functions within an expression"""
    if not isinstance(e, (tuple, list)): return
    if isinstance(e, tuple) and e and e[0] == "func": check_block(e[3], False, [])
    elif isinstance(e, tuple) and e and e[0] in ("local", "localfunc", "assign", "opassign", "callstat", "do", "while", "repeat", "if", "fornum", "forin", "return", "break", "goto", "label"): pass
    else:
        for x in e: check_funcs(x)

# ---------------------------------------------------------------- evaluation

NIL, TRUE, FALSE = ("nil",), ("bool", True), ("bool", False)
class Unsupported(Exception): pass
class Stop(Exception):
    """beyond the bounds of the evaluation: the path is given up"""
class Break_(Exception): pass
class Return_(Exception):
    def __init__(s, vals): s.vals = vals
class Goto_(Exception):
    def __init__(s, label): s.label = label

class World:
    """what the program cannot know, as solver variables shared by name"""
    def __init__(w, ctx, lang="pico8", pure=(), loops=2, reads=False, results=(1, 2), callbacks=True):
        w.ctx, w.lang, w.pure, w.loops, w.reads, w.results, w.callbacks = ctx, lang, set(pure), loops, reads, results, callbacks
        w.vals, w.flags = {}, {}
    def value(w, name):
        """an unknown value: nil, false, a number or something opaque"""
        if name not in w.vals: w.vals[name] = ("w", name)
        return w.vals[name]
    def num(w, v):
        k = "n:" + v[1]
        if k not in w.flags: w.flags[k] = w.ctx.int(k, 0, 2**32 - 1)
        return w.flags[k]
    def flag(w, name):
        if name not in w.flags: w.flags[name] = w.ctx.fork(w.ctx.bool(name))
        return w.flags[name]
    def count(w, name, options):
        if name not in w.flags: w.flags[name] = w.ctx.choice(name, list(options))
        return w.flags[name]

class Closure:
    def __init__(c, f, env, run): c.f, c.env, c.run = f, env, run
class Table:
    def __init__(t): t.d = {}; t.n = 0

class Run:
    def __init__(r, ctx, world, ast, lang="pico8", canon=None, max_events=60):
        r.ctx, r.w, r.ast, r.lang = ctx, world, ast, lang
        r.p8 = lang == "pico8"
        r.canon = canon          # None, or the set of names that keep their identity (the others are numbered by first use)
        r.ids = {}
        r.trace, r.pure, r.globals, r.epoch = [], [], {}, 0
        r.depth, r.steps, r.max_events = 0, 0, max_events
        r.closures = []
    # -- names
    def gname(r, kind, n):
        if r.canon is None or n in r.canon: return n
        return r.ids.setdefault((kind, n), "%s%d" % (kind, len(r.ids)))
    # -- values
    def show(r, v, seen=None):
        """how a value appears to the outside: nested tuples whose leaves may be symbolic numbers"""
        if v[0] == "table":
            seen = seen or []
            if v[1] in seen: return ("rec", seen.index(v[1]))
            seen = seen + [v[1]]
            return ("table", tuple((repr(k) if k[0] != "fld" else k[1], r.show(x, seen)) for k, x in sorted(v[1].d.items(), key=lambda e: repr(e[0]))))
        if v[0] == "func": return ("func",)
        if v[0] == "num": return v[:2]
        return v
    def truthy(r, v):
        if v[0] == "w": return r.w.flag("truthy:" + v[1])
        return not (v[0] == "nil" or (v[0] == "bool" and not v[1]))
    def number(r, v):
        if v[0] == "num": return v[1]
        if v[0] == "w": return r.w.num(v)
        raise Stop("arithmetic on " + v[0])
    def boolv(r, c):
        if isinstance(c, bool): return TRUE if c else FALSE
        return TRUE if r.ctx.fork(c) else FALSE
    def equal(r, a, b):
        if a[0] == "w" and b[0] == "w" and a[1] == b[1]: return True
        if "w" in (a[0], b[0]):
            if a[0] == b[0]:
                return r.w.flag("eq:%s:%s" % tuple(sorted((a[1], b[1]))))
            x, y = (a, b) if a[0] == "w" else (b, a)
            if y[0] == "nil" or y == FALSE:
                if r.truthy(x): return False
                return r.w.flag("nil:" + x[1]) == (y[0] == "nil")
            if not r.truthy(x): return False
            if y[0] == "num" and isinstance(y[1], int): return r.w.flag("eq:%s:%d" % (x[1], y[1]))
            return r.w.flag("eq:%s:%s" % (x[1], y[0] if y[0] in ("num", "func", "table") else repr(y)))
        if a[0] != b[0]: return False
        if a[0] == "num": return r.ctx.fork(a[1] == b[1])
        if a[0] in ("table", "func"): return a[1] is b[1]
        return a == b
    def key(r, v):
        if v[0] == "num":
            if len(v) > 2: return ("w", v[2])
            return v[:2]
        return v if v[0] in ("str", "bool", "w") else (v[0], id(v[1])) if len(v) > 1 else v
    # -- events
    def event(r, *what):
        r.trace.append(what)
        if len(r.trace) > r.max_events: raise Stop("events")
        return len(r.trace) - 1
    def snapshot(r):
        return tuple((n, r.show(v)) for n, v in sorted(r.globals.items()))
    def gget(r, n):
        n = r.gname("g", n)
        if n in r.globals: return r.globals[n]
        return r.w.value("%s@%d" % (n, r.epoch))
    def gset(r, n, v):
        r.globals[r.gname("g", n)] = v
    def unknown_call(r, how, args, multi, pure=False):
        if not pure:
            k = r.event("call", how, tuple(r.show(a) for a in args), r.snapshot())
            funcs = [a for a in args if a[0] == "func"] + [v for _, v in sorted(r.globals.items()) if v[0] == "func"]
            r.epoch = len(r.trace)
            # (whatever was assigned can have been changed since, functions apart)
            r.globals = {n: v for n, v in r.globals.items() if v[0] == "func"}
            if r.depth == 0 and r.w.callbacks:
                for f in funcs:
                    if r.w.flag("callback@%d" % len(r.trace)):
                        r.event("callback")
                        r.call(f, [r.w.value("cb%d.%d" % (len(r.trace), i)) for i in range(2)], inner=True)
        else:
            # (a builtin without callbacks: sees its arguments only)
            r.pure.append((how, r.epoch, tuple(r.show(a) for a in args)))
            k = "p%d" % len(r.pure)
        n = r.w.count("results@%s" % k, r.w.results) if multi or 0 in r.w.results else 1
        vs = [r.w.value("res%s.%d" % (k, i)) for i in range(n)]
        return vs if multi else (vs or [NIL])[:1]
    def call(r, f, args, multi=True, name=None, inner=False):
        r.steps += 1
        if r.steps > 400: raise Stop("steps")
        if f[0] == "func":
            c = f[1]
            if r.depth >= 3: raise Stop("depth")
            _, ps, va, body = c.f
            env = Env(None)
            env.head = c.env
            for i, n in enumerate(ps): env.new(n, args[i] if i < len(args) else NIL)
            env.varargs = args[len(ps):] if va else None
            r.depth += 1
            try: r.block(body, env, own=False)
            except Return_ as e:
                return e.vals
            finally: r.depth -= 1
            return []
        return r.unknown_call(r.show(f), args, multi, pure=f[0] == "w" and f[1].split("@")[0] in r.w.pure)
    def index(r, t, k):
        if t[0] == "table":
            kk = r.key(k)
            if kk[0] != "w" and all(x[0] != "w" for x in t[1].d): return t[1].d.get(kk, NIL)
            if kk in t[1].d and kk[0] == "w": return t[1].d[kk]
            raise Stop("unknown key")
        if t[0] == "w":
            ks = ("str", r.gname("m", k[1])) if k[0] == "str" and r.canon is not None else r.show(k)
            if r.w.reads:
                i = r.event("index", t, ks, r.snapshot())
                return r.w.value("idx%d" % i)
            # a read without effect: what it gives depends on what was stored and called before
            c = sum(1 for e in r.trace if e[0] in ("call", "callback", "forin", "iteration"))
            n = sum(1 for e in r.trace if e[0] == "store" and (e[2] == ks or e[2][0] != "str" or ks[0] != "str"))
            return r.w.value("rd:%s:%s@%d.%d" % (t[1], r.text(k) if ks[0] != "str" else ks[1], c, n))
        raise Stop("index of " + t[0])
    def store(r, t, k, v):
        if t[0] == "table":
            kk = r.key(k)
            if kk[0] == "w" or any(x[0] == "w" for x in t[1].d): raise Stop("unknown key")
            t[1].d[kk] = v
        elif t[0] == "w":
            ks = ("str", r.gname("m", k[1])) if k[0] == "str" and r.canon is not None else r.show(k)
            r.event("store", t, ks, r.show(v), r.snapshot() if r.w.reads else ())
        else: raise Stop("store into " + t[0])
    # -- operators
    def un(r, op, v):
        if op == "not": return FALSE if r.truthy(v) else TRUE
        if op in "-~" and (v[0] in ("num", "w")):
            if not r.p8:
                if v[0] == "num" and isinstance(v[1], float) and op == "-": return ("num", -v[1])
                if v[0] == "num" and isinstance(v[1], int): return ("num", sp.i64(-v[1]) if op == "-" else ~v[1])
                return r.opaque(op, v)
            if v[0] == "w": return r.opaque(op, v)
            n = sp.P8_UN[op](v[1])
            return ("num", n) if isinstance(n, int) else ("num", n, "(%s %s)" % (op, r.text(v)))
        if op == "#":
            if v[0] == "str": return ("num", len(v[1]) << 16 if r.p8 else len(v[1]))
        return r.opaque(op, v)
    def opaque(r, op, *vs):
        """an operator on something unknown: a function of its operands (or, where reads count, a metamethod's call)"""
        if r.w.reads and any(v[0] in ("w", "table") for v in vs):
            return r.w.value("op%d" % r.event("op", op, tuple(r.show(v) for v in vs), r.snapshot()))
        return r.w.value("(%s %s)" % (op, " ".join(r.text(v) for v in vs)))
    def text(r, v):
        if v[0] == "num" and len(v) > 2: return v[2]
        v = r.show(v)
        if v[0] == "w": return v[1]
        return repr(v)
    def bin(r, op, a, b):
        if op == "==": return r.boolv(r.equal(a, b))
        if op == "~=": return r.boolv(not r.equal(a, b))
        if "w" in (a[0], b[0]) and (r.w.reads or not (op in sp.P8_BIN and op in "+-")):
            v = r.opaque(op, a, b)
            if op in ("<", "<=", ">", ">="): return TRUE if r.truthy(v) else FALSE
            return v
        if op == "..":
            if a[0] == b[0] == "str": return ("str", a[1] + b[1])
            if {a[0], b[0]} <= {"str", "num"}:
                t = [v[1] if v[0] == "str" else r.numtext(v[1]) for v in (a, b)]
                return ("str", t[0] + t[1])
        if a[0] in ("num", "w") and b[0] in ("num", "w") and r.p8:
            if op in sp.P8_CMP: return r.boolv(sp.P8_CMP[op](r.number(a), r.number(b)))
            if op in sp.P8_BIN:
                v = sp.P8_BIN[op](r.number(a), r.number(b))
                return ("num", v) if isinstance(v, int) else ("num", v, "(%s %s %s)" % (r.text(a), op, r.text(b)))
        if a[0] == b[0] == "num" and not r.p8 and isinstance(a[1], int) and isinstance(b[1], int):
            if op in sp.LUA_CMP: return r.boolv(sp.LUA_CMP[op](a[1], b[1]))
            if op in sp.LUA_BIN and not (op in ("//", "\\", "%") and b[1] == 0): return ("num", sp.LUA_BIN[op](a[1], b[1]))
        if a[0] == b[0] == "num" and not r.p8 and isinstance(a[1], (int, float)) and isinstance(b[1], (int, float)):
            if op in sp.LUA_CMP: return r.boolv(sp.LUA_CMP[op](a[1], b[1]))
            if op in ("+", "-", "*"): return ("num", float(a[1]) + float(b[1]) if op == "+" else float(a[1]) - float(b[1]) if op == "-" else float(a[1]) * float(b[1]))
        if a[0] == b[0] == "str" and op in sp.LUA_CMP: return r.boolv(sp.LUA_CMP[op](a[1], b[1]))
        return r.opaque(op, a, b)
    def numtext(r, v):
        v = r.ctx.concretize(v)
        if r.p8:
            if v & 0xffff: raise Stop("text of a fraction")
            return "%d" % (sp.signed(v) >> 16)
        return "%d" % v if isinstance(v, int) else repr(v)
    # -- expressions
    def multi(r, es, env):
        out = []
        for i, e in enumerate(es):
            if i == len(es) - 1 and e[0] in ("call", "method", "vararg"): out += r.ev_multi(e, env)
            else: out.append(r.ev(e, env))
        return out
    def ev_multi(r, e, env, multi=True):
        if e[0] == "vararg":
            v = env.varargs
            if v is None: return [r.w.value("vararg%d" % i) for i in range(r.w.count("varargs", r.w.results))]
            return list(v)
        if e[0] == "call":
            f = r.ev(e[1], env)
            return r.call(f, r.multi(e[2], env), multi)
        o = r.ev(e[1], env)
        if o[0] in ("w", "table"): f = r.index(o, ("str", e[2]))
        elif o[0] in ("str",): return r.unknown_call(("method", r.show(o), r.gname("m", e[2])), r.multi(e[3], env), multi)
        else: raise Stop("method of " + o[0])
        return r.call(f, [o] + r.multi(e[3], env), multi)
    def ev(r, e, env):
        k = e[0]
        if k == "nil": return NIL
        if k == "true": return TRUE
        if k == "false": return FALSE
        if k == "num": return ("num", number_value(e[1], r.lang))
        if k == "str": return e
        if k == "name": return r.getvar(e[1], env)
        if k == "paren": return r.ev(e[1], env)
        if k in ("call", "method", "vararg"):
            v = r.ev_multi(e, env, False)
            return v[0] if v else NIL
        if k == "index":
            t = r.ev(e[1], env)
            return r.index(t, r.ev(e[2], env))
        if k == "func":
            return ("func", Closure(e, env.head, r))
        if k == "table":
            t = Table()
            n = 1
            for i, (kx, vx) in enumerate(e[1]):
                if kx is not None:
                    kv = r.ev(kx, env)
                    if kx[0] == "str" and r.canon is not None: kv = ("str", r.gname("m", kv[1]))
                    if kv[0] == "nil": raise Stop("nil key")
                    t.d[r.key(kv)] = r.ev(vx, env)
                    continue
                vs = r.ev_multi(vx, env) if i == len(e[1]) - 1 and vx[0] in ("call", "method", "vararg") else [r.ev(vx, env)]
                for v in vs:
                    t.d[("num", n << 16 if r.p8 else n)] = v
                    n += 1
            return ("table", t)
        if k == "un": return r.un(e[1], r.ev(e[2], env))
        if k == "bin":
            a = r.ev(e[2], env)
            if e[1] == "and": return r.ev(e[3], env) if r.truthy(a) else a
            if e[1] == "or": return a if r.truthy(a) else r.ev(e[3], env)
            return r.bin(e[1], a, r.ev(e[3], env))
        raise Unsupported(k)
    def getvar(r, n, env):
        if n == "_ENV": raise Unsupported("_ENV")
        c = env.find(n)
        return c[0] if c is not None else r.gget(n)
    # -- statements
    def place(r, t, env):
        """evaluates the parts of a target"""
        if t[0] == "name":
            if t[1] == "_ENV": raise Unsupported("_ENV")
            c = env.find(t[1])
            return ("cell", c) if c is not None else ("global", t[1])
        o = r.ev(t[1], env)
        return ("field", o, r.ev(t[2], env))
    def put(r, p, v):
        if p[0] == "cell": p[1][0] = v
        elif p[0] == "global": r.gset(p[1], v)
        else: r.store(p[1], p[2], v)
    def adjust(r, es, env, n):
        vs = r.multi(es, env)
        return (vs + [NIL] * n)[:n]
    def block(r, body, env, own=True):
        env = Env(env) if own else env
        i, jumps = 0, 0
        marks = {s[1]: j for j, s in enumerate(body) if s[0] == "label"}
        if len(marks) != sum(1 for s in body if s[0] == "label"): raise Bad("a label is defined twice")
        heads = {}
        while i < len(body):
            heads.setdefault(i, env.head)
            try:
                r.stmt(body[i], env)
                i += 1
            except Goto_ as g:
                if g.label not in marks: raise
                jumps += 1
                if jumps > r.w.loops: raise Stop("jumps")
                i = marks[g.label]
                if i in heads: env.head = heads[i]
        return env
    def loop(r, body, env):
        """-> False when the loop is left"""
        try: r.block(body, env)
        except Break_: return False
        return True
    def stmt(r, s, env):
        r.steps += 1
        if r.steps > 400: raise Stop("steps")
        k = s[0]
        if k == "local":
            vs = r.adjust(s[3], env, len(s[1]))
            for n, v, a in zip(s[1], vs, s[2]):
                if a == "close": raise Unsupported("close")
            for n, v in zip(s[1], vs): env.new(n, v)
        elif k == "localfunc":
            c = env.new(s[1], NIL)
            c[0] = r.ev(s[2], env)
        elif k == "assign":
            ps = [r.place(t, env) for t in s[1]]
            vs = r.adjust(s[2], env, len(ps))
            for p, v in reversed(list(zip(ps, vs))): r.put(p, v)
        elif k == "opassign":
            p = r.place(s[2], env)
            a = p[1][0] if p[0] == "cell" else r.gget(p[1]) if p[0] == "global" else r.index(p[1], p[2])
            b = r.ev(s[3], env)
            r.put(p, r.bin(s[1], a, b) if s[1] not in ("and", "or") else None)
        elif k == "callstat":
            if s[1][0] in ("call", "method"): r.ev_multi(s[1], env)
        elif k == "do": r.block(s[1], env)
        elif k == "while":
            for n in range(r.w.loops + 1):
                if not r.truthy(r.ev(s[1], env)): return
                if n == r.w.loops: raise Stop("loop")
                if not r.loop(s[2], env): return
        elif k == "repeat":
            for n in range(r.w.loops + 1):
                try: inner = r.block(s[1], env)
                except Break_: return
                if r.truthy(r.ev(s[2], inner)): return
            raise Stop("loop")
        elif k == "if":
            for c, b in s[1]:
                if r.truthy(r.ev(c, env)):
                    r.block(b, env)
                    return
            if s[2] is not None: r.block(s[2], env)
        elif k == "fornum":
            vs = [r.ev(e, env) for e in s[2]]
            if len(vs) < 3: vs.append(("num", 1 << 16 if r.p8 else 1))
            i = r.event("for", tuple(r.show(v) for v in vs), r.snapshot())
            for n in range(r.w.count("iters@%d" % i, range(r.w.loops + 1))):
                e = Env(env)
                e.new(s[1], r.w.value("it%d.%d" % (i, n)))
                r.event("iteration")
                if not r.loop(s[3], e): return
        elif k == "forin":
            vs = r.adjust(s[2], env, 3 if r.p8 else 4)
            i = r.event("forin", tuple(r.show(v) for v in vs), r.snapshot())
            r.epoch = i + 1
            for n in range(r.w.count("iters@%d" % i, range(r.w.loops + 1))):
                e = Env(env)
                for q, nm in enumerate(s[1]): e.new(nm, r.w.value("it%d.%d.%d" % (i, n, q)))
                r.event("iteration")
                if not r.loop(s[3], e): return
        elif k == "return": raise Return_(r.multi(s[1], env))
        elif k == "break": raise Break_()
        elif k == "goto": raise Goto_(s[1])
        elif k == "label": pass
        else: raise Unsupported(k)
    def main(r):
        """-> the outcome: how it ended, the events, the globals"""
        env = Env(None)
        try:
            r.block(r.ast, env, own=False)
            end = ("end",)
        except Return_ as e: end = ("return",) + tuple(r.show(v) for v in e.vals)
        except Stop as e: return ("stopped", str(e)), r.trace, ()
        except RecursionError: return ("stopped", "recursion"), r.trace, ()
        # then the console calls what the program defined
        snap = r.snapshot()
        try:
            r.depth = 0
            for n, f in sorted(r.globals.items()):
                if f[0] != "func": continue
                r.event("entry", n)
                r.event("leave", tuple(r.show(v) for v in r.call(f, [r.w.value("arg%s.%d" % (n, i)) for i in range(2)])), r.snapshot())
        except Stop as e: return ("stopped", str(e)), r.trace, ()
        return end, r.trace, (snap, tuple(r.pure))

class Env:
    """a scope: a chain of cells that closures capture as it is when they are made"""
    varargs = None
    def __init__(e, parent):
        e.head = parent.head if parent is not None else None
        if parent is not None: e.varargs = parent.varargs
    def new(e, n, v):
        c = [v]
        e.head = (n, c, e.head)
        return c
    def find(e, n):
        h = e.head
        while h is not None:
            if h[0] == n: return h[1]
            h = h[2]

def norm(t, lang):
    """a tree without what makes no difference: parentheses that keep nothing out, how numbers are written"""
    if isinstance(t, list): return [norm(x, lang) for x in t]
    if not isinstance(t, tuple) or not t: return t
    k = t[0]
    if not isinstance(k, str): return tuple(norm(x, lang) for x in t)
    if k == "paren": return norm(t[1], lang)
    if k == "num": return ("num", number_value(t[1], lang))
    if k == "str": return t
    if k == "un":
        e = norm(t[2], lang)
        if e[0] == "num" and t[1] in "-~":
            if lang == "pico8": return ("num", (-e[1] if t[1] == "-" else ~e[1]) & 0xffffffff)
            if isinstance(e[1], float) and t[1] == "-": return ("num", -e[1])
            if isinstance(e[1], int): return ("num", sp.i64(-e[1] if t[1] == "-" else ~e[1]))
        return ("un", t[1], e)
    if k == "call": return ("call", norm(t[1], lang), several(t[2], lang))
    if k == "method": return ("method", norm(t[1], lang), t[2], several(t[3], lang))
    if k == "return": return ("return", several(t[1], lang))
    if k == "table":
        items = [(norm(x, lang), norm(y, lang)) for x, y in t[1]]
        if items and t[1][-1][0] is None: items[-1] = (None, several([t[1][-1][1]], lang)[0])
        return ("table", items)
    if k == "assign": return ("assign", norm(t[1], lang), several(t[2], lang, len(t[1])))
    if k == "local": return ("local", t[1], t[2], several(t[3] or [], lang, len(t[1])))
    if k == "forin": return ("forin", t[1], several(t[2], lang, 3 if lang == "pico8" else 4), norm(t[3], lang))
    return (t[0],) + tuple(norm(x, lang) for x in t[1:])

def several(es, lang, wanted=None):
    """the expressions of a list; the last one gives all its values unless parenthesised (or no more are wanted)"""
    out = [norm(e, lang) for e in es]
    if out and es[-1][0] == "paren" and out[-1][0] in ("call", "method", "vararg") and (wanted is None or wanted > len(out)): out[-1] = ("paren", out[-1])
    return out

class Differ(Exception): pass

class Alike:
    """two trees (parsed with key="member"), equal but for the names: locals and labels refer to the same definitions; what globals and members became is recorded"""
    def __init__(q, a, b):
        q.globals, q.members, q.strings = [], [], []    # in order of appearance
        q.block(a, b, (), ())
    def same(q, a, b, what):
        if a != b: raise Differ("%s: %r and %r" % (what, a, b))
    def bind(q, scope, na, nb):
        if (na == "_ENV") != (nb == "_ENV"): raise Differ("_ENV renamed")
        return ((na, nb),) + scope
    def find(q, scope, name, side):
        for i, b in enumerate(scope):
            if b[side] == name: return i
        return None
    def name(q, a, b, scope):
        i, j = q.find(scope, a, 0), q.find(scope, b, 1)
        if i != j: raise Differ("%s and %s are different variables" % (a, b))
        if i is None:
            q.same(a == "_ENV", b == "_ENV", "environment")
            e = q.find(scope, "_ENV", 0)
            q.same(e, q.find(scope, "_ENV", 1), "environment")
            q.globals.append((a, b, e is not None))
    def block(q, a, b, scope, outer):
        q.same(len(a), len(b), "number of statements")
        outer = ((a, b),) + outer
        for x, y in zip(a, b): scope = q.stmt(x, y, scope, outer)
        return scope
    def target(q, outer, name, side):
        for i, bl in enumerate(outer):
            for j, s in enumerate(bl[side]):
                if s == ("label", name): return i, j
        raise Differ("no label " + name)
    def exprs(q, a, b, scope):
        q.same(len(a), len(b), "number of expressions")
        for x, y in zip(a, b): q.expr(x, y, scope)
    def stmt(q, a, b, scope, outer):
        k = a[0]
        q.same(k, b[0], "statement")
        if k == "do": q.block(a[1], b[1], scope, outer)
        elif k == "while": q.expr(a[1], b[1], scope); q.block(a[2], b[2], scope, outer)
        elif k == "repeat": q.expr(a[2], b[2], q.block(a[1], b[1], scope, outer))
        elif k == "if":
            q.same(len(a[1]), len(b[1]), "branches"); q.same(a[2] is None, b[2] is None, "else")
            for (c, x), (d, y) in zip(a[1], b[1]): q.expr(c, d, scope); q.block(x, y, scope, outer)
            if a[2] is not None: q.block(a[2], b[2], scope, outer)
        elif k == "fornum": q.exprs(a[2], b[2], scope); q.block(a[3], b[3], q.bind(scope, a[1], b[1]), outer)
        elif k == "forin":
            q.exprs(a[2], b[2], scope); q.same(len(a[1]), len(b[1]), "loop variables")
            for x, y in zip(a[1], b[1]): scope = q.bind(scope, x, y)
            q.block(a[3], b[3], scope, outer)
            return scope[len(a[1]):]
        elif k == "assign": q.exprs(a[1], b[1], scope); q.exprs(a[2], b[2], scope)
        elif k == "localfunc":
            scope = q.bind(scope, a[1], b[1]); q.expr(a[2], b[2], scope)
        elif k == "local":
            q.same((a[2], len(a[1])), (b[2], len(b[1])), "locals"); q.exprs(a[3], b[3], scope)
            for x, y in zip(a[1], b[1]): scope = q.bind(scope, x, y)
        elif k == "return": q.exprs(a[1], b[1], scope)
        elif k in ("goto", "label"): q.same(q.target(outer, a[1], 0), q.target(outer, b[1], 1), "label")
        elif k == "opassign": q.same(a[1], b[1], "operator"); q.expr(a[2], b[2], scope); q.expr(a[3], b[3], scope)
        elif k == "callstat": q.expr(a[1], b[1], scope)
        elif k != "break": raise Unsupported(k)
        return scope
    def expr(q, a, b, scope):
        if a is None or b is None: q.same(a, b, "expression"); return
        k = a[0]
        q.same(k, b[0], "expression")
        if k == "name": q.name(a[1], b[1], scope)
        elif k == "member": q.members.append((a[1], b[1]))
        elif k == "func":
            q.same((a[2], len(a[1])), (b[2], len(b[1])), "parameters")
            for x, y in zip(a[1], b[1]): scope = q.bind(scope, x, y)
            q.block(a[3], b[3], scope, ())
        elif k == "index": q.expr(a[1], b[1], scope); q.expr(a[2], b[2], scope)
        elif k == "call": q.expr(a[1], b[1], scope); q.exprs(a[2], b[2], scope)
        elif k == "method": q.expr(a[1], b[1], scope); q.members.append((a[2], b[2])); q.exprs(a[3], b[3], scope)
        elif k == "table":
            q.same(len(a[1]), len(b[1]), "table")
            for (x, y), (u, v) in zip(a[1], b[1]): q.expr(x, u, scope); q.expr(y, v, scope)
        elif k == "un": q.same(a[1], b[1], "operator"); q.expr(a[2], b[2], scope)
        elif k == "bin": q.same(a[1], b[1], "operator"); q.expr(a[2], b[2], scope); q.expr(a[3], b[3], scope)
        elif k == "paren": q.expr(a[1], b[1], scope)
        elif k == "str": q.strings.append((a[1], b[1]))
        else: q.same(a, b, "expression")

def number_shape(t, lang):
    """Bad if the text is no number"""
    hexa = t[:2] in ("0x", "0X")
    bina = t[:2] in ("0b", "0B")
    if hexa or bina: t = t[2:]
    digits, dots, i, n = 0, 0, 0, len(t)
    while i < n:
        c = t[i]
        if c == ".": dots += 1
        elif c in (HEX if hexa else "01" if bina else DEC): digits += 1
        elif lang != "pico8" and digits and (c in "pP" if hexa else c in "eE"):
            i += 1
            if i < n and t[i] in "+-": i += 1
            if i >= n: raise Bad("number")
            while i < n:
                if t[i] not in DEC: raise Bad("number")
                i += 1
            break
        else: raise Bad("number")
        i += 1
    if not digits or dots > 1: raise Bad("number")

HEX, DEC = "0123456789abcdefABCDEF", "0123456789"

def number_value(text, lang):
    t = text.lower()
    if lang == "pico8":
        base = 16 if t.startswith("0x") else 2 if t.startswith("0b") else 10
        d = t[2:] if base != 10 else t
        if d.count(".") > 1: raise Bad("number")
        ip, _, fp = d.partition(".")
        if not ip + fp: raise Bad("number")
        v = (int(ip, base) if ip else 0) << 16
        if fp: v += (int(fp, base) << 16) // base ** len(fp)
        return v & 0xffffffff
    if t.startswith("0b"): return int(t[2:], 2)
    if t.startswith("0x"):
        if "." in t or "p" in t: return float.fromhex(t)
        return sp.i64(int(t[2:], 16))
    if "." in t or "e" in t: return float(t)
    v = int(t)
    return v if v < 2**63 else float(t)

def outcome(o):
    """an outcome with the order of stores that cannot matter taken out"""
    end, trace, final = o
    out, run = [], []
    def flush():
        run.sort(key=lambda e: e[2][1])
        out.extend(run)
        del run[:]
    for e in trace:
        if e[0] == "store" and e[2][0] == "str": run.append(e)
        else: flush(); out.append(e)
    flush()
    return end, tuple(out), final

def sizes(o):
    return o[0][0], len(o[1]), [e[0] for e in o[1]]
