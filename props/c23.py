"""C23: what the linter reports, and where"""
from sym.ctx import H
from props import lua
import pico_process
from pico_process import PicoContext, Source, process_code
from picotron_defs import PicotronContext
import re

KEYWORDS = set("and break do else elseif end false for function goto if in local nil not or repeat return then true until while".split())

class Occ:
    """a name somewhere in the program"""
    def __init__(o, name, pos): o.name, o.pos = name, pos

def build(text, holes):
    """text has @0, @1... for names that are symbolic -> the program, what to parse instead, every name's occurrence by what stands for it there"""
    src, skel, occs = "", "", {}
    for part in re.split(r"(@\d|(?<![A-Za-z0-9_])[A-Za-z_][A-Za-z0-9_]*|--[^\n]*)", text):
        if part.startswith("--"):
            for p in re.split(r"(@\d)", part): src = src + (holes[int(p[1])] if p.startswith("@") else p)
            skel += part.replace("@", "")
        elif part.startswith("@") or (re.fullmatch(r"[A-Za-z_][A-Za-z0-9_]*", part) and part not in KEYWORDS):
            name = holes[int(part[1])] if part.startswith("@") else part
            key = "self" if part == "self" else "q%d" % len(occs)
            occs[key] = Occ(name, len(src))
            src, skel = src + name, skel + key
        else: src, skel = src + part, skel + part
    return src, skel, occs

class Var:
    def __init__(v, occ, kind, func, block, last=False, implicit=False):
        v.occ, v.kind, v.func, v.block, v.last, v.implicit = occ, kind, func, block, last, implicit
        v.used = v.assigned = False
        v.prev = None

class Lint:
    """what README says is reported. builtins: names; known: names said to be globals; used: names said to be used"""
    def __init__(l, ctx, occs, builtins, known, used, kinds):
        l.ctx, l.occs, l.builtins, l.kinds = ctx, occs, builtins, kinds
        l.known, l.usedg = list(known), list(used)
        l.assignedg = []
        l.locals, l.globals, l.labels, l.gotos = [], [], [], []
    def eq(l, a, b):
        return len(a) == len(b) and l.ctx.fork(l.ctx.eq(a, b))
    def isin(l, n, names): return any(l.eq(n, x) for x in names)
    # scopes: a list of variables, the innermost last. func: the enclosing functions, each (is it _init); block: the enclosing blocks
    def declare(l, scope, key, func, block, **kw):
        v = Var(l.occs[key], "local", func, block, **kw)
        for o in reversed(scope):
            if l.eq(o.occ.name, v.occ.name): v.prev = o; break
        l.locals.append(v)
        return v
    def find(l, scope, name):
        for v in reversed(scope):
            if l.eq(v.occ.name, name): return v
    def ref(l, key, scope, func, how):
        o = l.occs[key]
        v = l.find(scope, o.name)
        if v is not None:
            if how == "use": v.used = True
            else: v.assigned = True
            return
        if l.eq(o.name, "_ENV"): return
        env = l.find(scope, "_ENV")
        real = env is None
        if not real: env.used = True
        l.globals.append((o, how, real))
        if real:
            if how in ("assign", "function") and (not func or func[-1]): l.known.append(o.name)
            (l.usedg if how == "use" else l.assignedg).append(o.name)
    def exprs(l, es, scope, func, block):
        for e in es: l.expr(e, scope, func, block)
    def expr(l, e, scope, func, block):
        k = e[0]
        if k == "name":
            if e[1] in l.occs: l.ref(e[1], scope, func, "use")
        elif k == "func": l.func(e, scope, func, block, False)
        elif k == "index":
            l.expr(e[1], scope, func, block)
            l.expr(e[2], scope, func, block)
        elif k == "call":
            l.expr(e[1], scope, func, block); l.exprs(e[2], scope, func, block)
        elif k == "method":
            l.expr(e[1], scope, func, block); l.exprs(e[3], scope, func, block)
        elif k == "bin": l.expr(e[2], scope, func, block); l.expr(e[3], scope, func, block)
        elif k in ("un",): l.expr(e[2], scope, func, block)
        elif k == "paren": l.expr(e[1], scope, func, block)
        elif k == "table":
            for a, b in e[1]:
                if a: l.expr(a, scope, func, block)
                l.expr(b, scope, func, block)
    def func(l, f, scope, func, block, init, method=False):
        f2 = func + [init]
        b2 = block + [0]
        new = []
        ps = [p for p in f[1] if p != "self"]
        if len(ps) < len(f[1]): # of a method
            v = Var(Occ("self", None), "local", f2, b2)
            new.append(v)
        for i, p in enumerate(ps):
            new.append(l.declare(scope, p, f2, b2, last=i == len(ps) - 1 and not f[2], implicit=True))
        l.distinct(ps)
        l.block(f[3], scope + new, f2, b2, labels=True)
    def distinct(l, keys):
        for i in range(len(keys)):
            for j in range(i): l.ctx.assume(l.ctx.eq(l.occs[keys[i]].name, l.occs[keys[j]].name) == False)
    def block(l, body, scope, func, block, labels=True):
        """-> the scope at the end"""
        scope = list(scope)
        mine = [s for s in body if s[0] == "label"]
        l.distinct([s[1] for s in mine])
        l.lab.append([(l.occs[s[1]], func) for s in mine])
        for s in mine:
            prev = None
            for frame in reversed(l.lab[:-1]):
                for o, fn in frame:
                    if prev is None and l.eq(o.name, l.occs[s[1]].name): prev = fn
                if prev is not None: break
            l.labels.append([l.occs[s[1]], func, prev, False])
        for s in body: scope = l.stmt(s, scope, func, block)
        l.lab.pop()
        return scope
    def stmt(l, s, scope, func, block):
        k, inner = s[0], block + [0]
        if k == "local":
            l.exprs(s[3], scope, func, block)
            l.distinct(s[1])
            return scope + [l.declare(scope, n, func, block) for n in s[1]]
        if k == "localfunc":
            v = l.declare(scope, s[1], func, block)
            scope = scope + [v]
            l.func(s[2], scope, func, block, l.init_at(s[1], False))
            return scope
        if k == "assign":
            isfunc = len(s[1]) == 1 and len(s[2]) == 1 and s[2][0][0] == "func" and l.declared(s)
            for t in s[1]:
                if t[0] == "name": l.ref(t[1], scope, func, "function" if isfunc else "assign")
                else: l.expr(t, scope, func, block)
            if isfunc:
                t = s[1][0]
                l.func(s[2][0], scope, func, block, l.init_at(t[1], not func) if t[0] == "name" else False)
            else: l.exprs(s[2], scope, func, block)
        elif k == "opassign":
            if s[2][0] == "name": l.ref(s[2][1], scope, func, "op")
            else: l.expr(s[2], scope, func, block)
            l.expr(s[3], scope, func, block)
        elif k == "callstat": l.expr(s[1], scope, func, block)
        elif k == "return": l.exprs(s[1], scope, func, block)
        elif k == "do": l.block(s[1], scope, func, inner)
        elif k == "while": l.expr(s[1], scope, func, block); l.block(s[2], scope, func, inner)
        elif k == "repeat":
            end = l.block(s[1], scope, func, inner)
            l.expr(s[2], end, func, inner)
        elif k == "if":
            for c, b in s[1]: l.expr(c, scope, func, block); l.block(b, scope, func, inner)
            if s[2] is not None: l.block(s[2], scope, func, inner)
        elif k == "fornum":
            l.exprs(s[2], scope, func, block)
            l.block(s[3], scope + [l.declare(scope, s[1], func, inner)], func, inner)
        elif k == "forin":
            l.exprs(s[2], scope, func, block)
            l.distinct(s[1])
            l.block(s[3], scope + [l.declare(scope, n, func, inner) for n in s[1]], func, inner)
        elif k == "goto":
            for frame in reversed(l.lab):
                hit = [o for o, fn in frame if l.eq(o.name, l.occs[s[1]].name)]
                if hit:
                    for x in l.labels:
                        if x[0] is hit[0]: x[3] = True
                    l.gotos.append(hit[0])
                    break
        return scope
    def init_at(l, key, top):
        if l.hinted.get(key): return True
        return top and l.eq(l.occs[key].name, "_init")
    def declared(l, s): return s[1][0][1] in l.funcnames if s[1][0][0] == "name" else True
    def run(l, ast, funcnames, hinted):
        l.funcnames, l.hinted, l.lab = funcnames, hinted, []
        l.block(ast, [], [], [])
        out = []
        K = l.kinds
        def under(n): return l.eq(n[:1], "_")
        for v in l.locals:
            n = v.occ.name
            if K["duplicate"] and not l.isin(n, ("_", "_ENV")):
                p = v.prev
                if p is None:
                    if K["duplicate-global"]:
                        if l.isin(n, l.known): out.append((v.occ, "Local '", n, "' has the same name as a global"))
                        elif l.isin(n, l.usedg) or l.isin(n, l.assignedg):
                            out.append((v.occ, "Local '", n, "' has the same name as a built-in global used elsewhere in the cart"))
                else:
                    if len(p.func) < len(v.func): how = "the top level" if not p.func else "a parent function"
                    elif len(p.block) < len(v.block): how = "a parent scope"
                    else: how = "the same scope"
                    out.append((v.occ, "Local '", n, "' has the same name as a local declared %s %s" % ("at" if "top" in how else "in", how)))
            if K["unused"] and not v.used and not under(n):
                if v.assigned: out.append((v.occ, "Local '", n, "' is only ever assigned to, never used"))
                elif not v.implicit or v.last: out.append((v.occ, "Local '", n, "' isn't used"))
        for o, func, prev, used in l.labels:
            if K["duplicate"] and prev is not None and not l.eq(o.name, "_"):
                how = "in a parent scope" if len(prev) == len(func) else "at the top level" if not prev else "in a parent function"
                out.append((o, "Label '", o.name, "' has the same name as a label declared " + how))
            if K["unused"] and not used and not under(o.name): out.append((o, "Label '", o.name, "' isn't used"))
        for o, how, real in l.globals:
            if not real: continue
            n = o.name
            if K["undefined"] and not l.isin(n, l.known):
                if l.isin(n, l.builtins):
                    l.ctx.assume(how != "op") # README does not say
                    if how != "use": out.append((o, "Built-in global '", n, "' assigned outside _init - did you mean to use 'local%s'?" % (" function" if how == "function" else "")))
                else:
                    out.append((o, "Identifier '", n, "' not found" + {"assign": " - did you mean to use 'local' to define it?", "function": " - did you mean to use 'local function' to define it?"}.get(how, "")))
            if K["unused"] and K["unused-global"] and not l.isin(n, l.usedg) and not under(n):
                out.append((o, "Global '", n, "' is only ever assigned to, never used"))
        return out

ALL = {"undefined": True, "unused": True, "unused-global": True, "duplicate": True, "duplicate-global": True}

def lints(ctx, text, n, chars="at_", lang="pico8", off=(), given=None, known=(), used=(), long=()):
    """known/used: the names (or holes) that comments in the text tell of; given: a hole passed as the option"""
    holes = [ctx.str("name%d" % i, 1, chars=chars[i] if isinstance(chars, (list, tuple)) else chars) for i in range(n)]
    holes = ["_x" if i in long else h for i, h in enumerate(holes)]
    src, skel, occs = build(text, holes)
    ast = lua.Parser(skel, lang).chunk()
    toks = lua.lex(skel, lang)
    funcnames, hinted = set(), {}
    for i, t in enumerate(toks):
        if t[:2] == ("kw", "function") and toks[i + 1][0] == "name":
            funcnames.add(toks[i + 1][1])
            first = toks[i - 1] if i and toks[i - 1][:2] == ("kw", "local") else t
            before = skel[:first[3]].rstrip().split("\n")[-1]
            if "lint" in before and before.endswith("func::_init"): hinted[toks[i + 1][1]] = True
    def names(xs): return [holes[x] if isinstance(x, int) else x for x in xs]
    kinds = dict(ALL, **{k: False for k in off})
    opts = dict(kinds, globals=names([given] if given is not None else []))
    c = PicoContext() if lang == "pico8" else PicotronContext()
    s = Source("main", src)
    ok, errors = process_code(c, s, lint=opts)
    builtins = [b for b in ("t", "print", "pairs", "cls", "run", "_ENV") if b in c.builtins]
    l = Lint(ctx, occs, builtins, names(known) + opts["globals"], names(used), kinds)
    want = l.run(ast, funcnames, hinted)
    at = {}
    for o, *msg in want: at.setdefault(o.pos, [[], []])[0].append("".join(msg[:1]) + msg[1] + msg[2])
    for e in errors:
        tok = e.token
        while getattr(tok, "children", None) and not isinstance(getattr(tok, "idx", None), int): tok = tok.children[0]
        at.setdefault(tok.idx, [[], []])[1].append(e.msg)
    ctx.observe("source", src)
    ctx.observe("reported", [e.msg for e in errors])
    ctx.check(ok, "linting fails")
    for pos in sorted(at):
        w, g = at[pos]
        ctx.check(len(w) <= len(g), "an issue is not reported")
        ctx.check(len(w) >= len(g), "something is reported that is no issue")
        for m in w: ctx.check(ctx.any([same(ctx, m, x) for x in g]), "another issue is reported")
    ctx.cover("%d issues" % len(errors))

def same(ctx, a, b): return len(a) == len(b) and ctx.eq(a, b)

# (program, number of names)
SCOPES = [
    ("local @0 @1=1 print(@2)", 3), ("@0=1 function f() print(@1) local @2=@3 end", 4), ("function f() @0=1 end print(@1,@2)", 3),
    ("local @0=1 do local @1=@2 @3=1 end", 4), ("function f(@0,@1) local @2=@3 return @2 end", 4), ("for @0=1,@1 do local @2=@3 end", 4),
    ("for @0,@1 in pairs(@2) do print(@3) end", 4), ("local @0 function f() local function @1(@2) @3() end end", 4),
    ("repeat local @0=1 until @1 print(@2)", 3), ("function @0() function @1() @2() end end", 3), ("local function @0() return function(@1) @2=@3 end end", 4),
    ("@0.@1=@2 @0:@1(@2)", 3), ("x={@0=1,[@1]=2,@2}", 3), ("local @0=function(@1,...) return ... end @2()", 3), ("local @0,@1=@2 @0+=1 @3+=@1", 4),
    ("while @0 do @1=@2 end", 3), ("if @0 then local @1=1 elseif @2 then local @3 end", 4), ("function _init() @0=1 function f() @1=2 end end f(@2)", 3),
    ("function f() function _init() @0=1 end end f(_init,@1)", 2), ("local @0 @0=2 local @1=@2", 3), ("function @0.@1() print(@2) end", 3), ("function @0:@1(@2) print(self) end", 3),
    ("function f() local @0=@1 do local @2=@3 return function() return @2 end end end f()", 4),
    ("if (@0) @1=@2\nprint(@1)", 3), ("?@0,@1\nlocal @2", 3),
]
LABELS = [
    ("::@0:: goto @0", 1), ("::@0:: do ::@1:: goto @0 end", 2), ("::@0:: print(function() ::@1:: goto @1 end)", 2),
    ("function f() ::@0:: do goto @0 end print(function() ::@1:: end) end f()", 2), ("do ::@0:: end do ::@1:: goto @1 end", 2), ("local @0 ::@1:: print(@0)", 2),
    ("while true do goto @0 ::@0:: end ::@1::", 2),
]
ENVS = [
    ("local _ENV=x @0=1 print(@1) local @2", 3), ("function f(_ENV) @0=1 return @1 end f()", 2), ("do local _ENV={} @0=@1 end print(@2)", 3), ("_ENV.@0=1 local @1=_ENV @2=1", 3),
    ("for _ENV in pairs(@0) do @1=1 end print(@1)", 2), ("local @0 function f(_ENV) local @1=@0 return @1 end f()", 2),
]
HINTS = [
    ("--$lint: @0\nfunction f() @1=1 print(@2) local @2 end f()", 3, [0], []), ("--$lint: x, @0\nfunction f() @1=1 print(@2) end f()", 3, ["x", 0], []),
    ("--$lint: used::@0\n@1=1 function @2() end", 3, [], [0]), ("--$lint: used::@0, used::x\n@1=1 @2=1", 3, [], [0, "x"]), ("--$lint: used::@0\nfunction f() @1=1 end f(@2)", 3, [], [0]),
    ("--$lint: func::@0\nfunction f() @1=1 end f(@1)", 2, [], []),
    ("--$lint: func::_init\nfunction f() @0=1 end f(@1)", 2, [], []), ("function g()\n--$lint: func::_init\nfunction f() @0=1 end @1=2 end f(g,@2)", 3, [], []),
    ("--$lint: func::_init\nlocal function f() @0=1 end f(@1)", 2, [], []),
    ("--$lint: func::_init\nfunction f() local function g() @0=1 end g(@1) end f()", 2, [], []), ("--lint: @0\nfunction f() @1=1 print(@1) end f()", 2, [0], []),
    ("--[[$lint: @0]]\nfunction f() @1=1 print(@1) end f()", 2, [0], []), ("function f() @0=1 print(@0) end f() --$lint: @1", 2, [1], []),
]
OPTS = [("unused",), ("unused-global",), ("duplicate",), ("duplicate-global",), ("undefined",), ("undefined", "duplicate-global")]
OPTPROG = "local @0=1 function f() local @1 @2=@1 ::@0:: end"

def harnesses(tier):
    hs, T = [], tier == "thorough"
    def add(text, n, **kw):
        lang = kw.get("lang", "pico8")
        hs.append(H(lints, params=dict(kw, text=text, n=n), bounds="%s program %r, every choice of the %d names @N among %r" % (lang, text, n, kw.get("chars", "at_"))))
    for t, n in SCOPES + LABELS + ENVS: add(t, n, **({"chars": "abt_"} if T else {}))
    every = SCOPES + LABELS[1:4] + ENVS
    for i, (a, n) in enumerate(every):
        for j, (b, m) in enumerate(every):
            if T or (i + j) % 2 == 0 or i <= j + 1: add(a + "\n" + b, max(n, m), chars="at_" if T else "a_" if (i + j) % 2 else "at")
    for t, n, known, used in HINTS: add(t, n, known=known, used=used, chars="abt_" if T else "at_")
    for off in OPTS: add(OPTPROG, 3, off=off)
    add("function f() @0=1 return @1 end f()", 3, given=2)
    add("local @0=1 do local @1=2 end @2=1", 3, long=(1,))
    add("local @0=1 do local @0=2 end @1=1", 2, long=(0,))
    for t, n in (SCOPES if T else SCOPES[:6]):
        if "+=" not in t and "if (" not in t and "?" not in t: add(t, n, lang="picotron", chars="a_")
    return hs

TECHNIQUE = "symbolic execution of the real linter on programs whose names are symbolic; an independent parser and resolver decide, with z3 over every choice of names, which issues README says are reported and where"
OUTSIDE = "programs of other shapes; two locals or parameters of the same name in one statement; op-assignment to a builtin (README does not say); implicit 'self'; sublanguages; how places are printed (C24)"
ASSUMPTIONS = ["the parser of props/lua.py and the rules of README are what is meant"]
META = dict(
    title="Linting reports exactly the issues README describes, at the right names",
    statement="For a valid program, --lint reports exactly: names that are neither defined globals (assigned at the top level or in an _init function, or named by a hint or option) nor builtins; builtins assigned elsewhere; locals, labels, globals and last parameters never used (unless named with a leading underscore, or told of by a used:: hint); locals and labels that shadow another one, or a global - each at the name it concerns, and nothing else. Options and hints turn off what they say and no more.",
    over=["inputs"], text="every choice of the names in programs that cover the scoping rules, label rules, _ENV, hints and options",
    why="Tests lint one cart; what is reported depends on which of the names in a program coincide, across functions, blocks, builtins and hints.",
    files=["pico_lint.py", "pico_parse.py", "pico_process.py", "pico_tokenize.py"],
    mech=[("issues", "pico_lint.py: lint_code"), ("scopes and labels", "pico_parse.py: parse, Scope, LabelScope"), ("hints", "pico_tokenize.py: process_comment")])
