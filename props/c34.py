"""C34: custom compilers, dynamic includes and placeholders"""
from sym.ctx import H
from props import prog, lua
import pico_process
from pico_process import PicoContext, Source, process_code, CompilerBase
from picotron_defs import PicotronContext
from pico_output import output_node, format_string_literal

# --- the compiler: like that in the README, it puts the code it is given into a string that is run

LOG = []
PLACE = {"num": "12", "neg": "-1", "add": "1+2", "cat": "\"a\"..x3", "tab": "{1,2}", "call": "print()", "fun": "function(a) return a end", "str": "\"s\"", "nil": "nil", "none": None,
         "st1": "print(1)", "st2": "print(1) print(2)", "st0": "", "stl": "do local a=1 print(a) end", "stif": "if (a8) print()\nprint(2)"}
PLACE["cat"] = "\"a\"..\"b\""
PLACE["stif"] = "if true then print() end"

class Repl(CompilerBase):
    def __init__(s, ctxt, src, args, **_):
        LOG.append((s, args))
        s.ctxt, s.args, s.id = ctxt, args, "c%d" % len(LOG)
    def get_dynamic_includes(s, **_):
        if "2" in s.args: return ["inc.run " + s.id, "inc.run2"]
        return ["inc.blk " + s.id] if "b" in s.args else ["inc.run " + s.id]
    def compile(s, root, **_):
        s.ctxt.get_field("code", dict)[s.id] = output_node(root, s.ctxt, minify="m" in s.args)

def include(name, placeholder=False, **_):
    if not placeholder:
        if name == "inc.run": return lambda args, ctxt, **_: "execute(--[[$placeholder-expr::code %s]]\"\")" % args
        if name == "inc.run2": return lambda **_: "gl=gl+2"
        if name == "inc.blk": return lambda args, **_: "--[[$placeholder-stmt::block %s]] do end" % args
        if name == "inc.g": return lambda args, **_: "gl=f(gl,%s)" % (args or "nil")
        if name == "inc.two": return lambda **_: "gl=1\nprint(gl,--[[$placeholder-expr::num]]\"\")"
        if name == "inc.none": return lambda **_: None
    else:
        if name == "code": return lambda args, ctxt, **_: format_string_literal(ctxt.get_field("code", dict)[args])
        if name == "block": return lambda args, ctxt, **_: "execute(%s)" % format_string_literal(ctxt.get_field("code", dict)[args])
        if name in PLACE: return lambda **_: PLACE[name]

def compiler(name, **_): return Repl if name == "repl" else None

def inline(t):
    """execute"..." is what is in the string"""
    if isinstance(t, list): return [inline(x) for x in t]
    if not isinstance(t, tuple): return t
    if t[:1] == ("callstat",) and t[1][0] == "call" and t[1][1] == ("name", "execute"):
        (arg,) = t[1][2]
        return ("do", lua.parse(arg[1], LANG[0], key="member"))
    return tuple(inline(x) for x in t)
LANG = [None]

def read(ctx, text, lang, what, source=None):
    LANG[0] = lang
    try: return inline(lua.parse(text, lang, key="member"))
    except lua.Bad as e: ctx.check(False, "%s is not a program (%s): %r%s" % (what, e, text, " for %r" % source if source else ""))

def process(src, lang, mini, rename, default=None, ignore=False, lint=False):
    del LOG[:]
    kw = dict(include_getter=include, compiler_getter=compiler, default_compiler=default, ignore_transforms=ignore, extra_builtins=["execute"])
    c = PicoContext(version=42, **kw) if lang == "pico8" else PicotronContext(version=42, **kw)
    s = Source("main", src)
    opts = {"none": dict(wspace=False, lines=False, comments=True, tokens=False, reorder=False, consts=False), "all": dict(prog.MIN), "only": dict(wspace=False, lines=False, tokens=False, reorder=False, consts=False, comments=False)}[mini]
    ok, errors = process_code(c, s, minify=prog.options(**opts), rename={"safe-only": False, "focus": [], "rules": []} if rename else False)
    return ok, s.text if ok else [e.msg for e in errors]

def compare(ctx, src, ref, lang, mini, rename, default=None):
    """processed, src does (and names) what ref does"""
    before = read(ctx, ref, lang, "the reference")
    ok, out = process(src, lang, mini, rename, default)
    ctx.check(ok, "a program is refused (%s): %r" % (out, src))
    after = read(ctx, out, lang, "what comes out", src)
    what = ": %r for %r" % (out, src)
    if mini != "all":
        try: q = lua.Alike(before, after)
        except lua.Differ as e: ctx.check(False, "what comes out is another program (%s)" % e + what)
        ctx.check(all([a == b for a, b in q.strings]), "a string changed" + what)
        names = {}
        for a, b, env in q.globals:
            ctx.check(names.setdefault(a, b) == b, "a global gets two names" + what)
            if a in ("print", "execute") or not rename: ctx.check(a == b, "a name is changed that can't be" + what)
        ctx.check(len(set(names.values())) == len(names), "two globals get the same name" + what)
        ctx.cover("alike")
    else:
        if lua.norm(before, lang) != lua.norm(after, lang):
            w = lua.World(ctx, lang, callbacks=False, loops=1, results=(1,))
            try: a, b = lua.Run(ctx, w, before, lang).main(), lua.Run(ctx, w, after, lang).main()
            except lua.Unsupported: return ctx.cover("unsupported")
            if "stopped" in (a[0][0], b[0][0]): return ctx.cover("stopped")
            a, b = lua.outcome(a), lua.outcome(b)
            ctx.check(lua.sizes(a) == lua.sizes(b) and prog.same(ctx, a, b), "what comes out behaves otherwise" + what)
        ctx.cover("compared")

# --- sections

S = ["print(gl)", "gl=t.m t.m=1", "local a=gl print(a)", "function fn(a) gl=a end", "fn(gl)", "while gl do print() break end", "for i=1,2 do print(i,gl) end", "local function h(a) return h end gl=h", "do local gl=1 print(gl) end",
     "print\"x\"", "t={m=gl,[gl]=1}", "-- remark", "goto e print(gl) ::e::", "gl=f(-gl..1)", "if gl then local a=fn print(a) else gl=nil end", "return"]
W = ["%s", "function w(p) local q=p %s end", "if gl then %s end", "do local q %s end", "for i=1,3 do %s end", "repeat %s until gl", "x=function() %s end"]

def sections(ctx, n, mini, rename, lang="pico8", few=None):
    """what is between switches is compiled, and nothing else"""
    where = ctx.choice("where", W)
    names = ["native", "repl", "repl 2", "repl b", "repl m", "unknown"]
    default = ctx.choice("default", [None, "repl", "none"]) if n < 3 else None
    cur = default if default == "repl" else None
    src, lits = "", []
    for i in range(n):
        to = ctx.choice("switch%d" % i, (names if i else [None] + names)[:few or None])
        code = ctx.choice("code%d" % i, S[:few or None] if i < 2 else S[:3])
        if code == "return" and i < n - 1: return ctx.cover("no program")
        if to is not None:
            src += "\n--$switch-compiler: %s\n" % (to if to != "native" else ctx.choice("none", ["none", "none x"]) if n < 3 else "none")
            cur = to if to.startswith("repl") else None
        src += code
        lits.append((cur, code))
    if src.count("::e::") > 1: return ctx.cover("no program")
    src += "\n" + ("--$switch-compiler: none\n" if where != "%s" else "")
    if default == "repl" and where != "%s":
        # the default goes for the whole file: switches within a function are not for it
        return ctx.cover("default")
    if lits[-1][1] == "return" and where.startswith("repeat"): return ctx.cover("no program")
    # a compiled section runs in a block of its own, before it runs what its include has
    parts, empty = [], default == "repl" and src.startswith("\n--$switch")
    if empty: parts.append("do end")
    for cur, code in lits: parts.append(code if not cur else "do %s\nend" % code + (" gl=gl+2 " if cur == "repl 2" else ""))
    ref = " \n".join(parts)
    src, ref = where.replace("%s", src, 1), where.replace("%s", ref + "\n", 1)
    if "\nreturn" in src and (lits[-1][1] != "return" or lits[-1][0]): return ctx.cover("return")
    compare(ctx, src, ref, lang, mini, rename, default)
    want = [""] * empty + [c[5:] for c, code in lits if c]
    ctx.check([a for s, a in LOG] == want, "the compilers' arguments are %s, not %s" % ([a for s, a in LOG], want))

def ignored(ctx, lang="pico8"):
    """without transformations, all code is native"""
    a, b, c = [ctx.choice(k, S[:-1]) for k in "abc"]
    kind = ctx.choice("kind", ["ignore", "no minify"])
    if (a + b + c).count("::e::") > 1: return ctx.cover("no program")
    src = "%s\n--$switch-compiler: repl\n%s\n--$dynamic-include: inc.g 1\n--$switch-compiler: none\n%s" % (a, b, c)
    if kind == "no minify":
        cc = PicoContext(version=42, include_getter=include, compiler_getter=compiler, ignore_transforms=True)
        s = Source("main", src)
        ok, e = process_code(cc, s)
        ctx.check(ok and s.text == src, "the program changes")
    else:
        ok, out = process(src, lang, "none", False, ignore=True)
        ctx.check(ok, "a program is refused")
        try: lua.Alike(read(ctx, a + "\n" + b + "\n" + c, lang, "ref"), read(ctx, out, lang, "out", src))
        except lua.Differ as e: ctx.check(False, "something is transformed (%s): %r for %r" % (e, out, src))
    ctx.cover("done")

def across(ctx):
    """a local or label of another section cannot be used, a global can"""
    P = ["print(l)", "local l=1", "l=2", "function g() return l end", "local l=l", "do local l=1 print(l) end", "print(gl)", "for l=1,2 do print(l) end"]
    codes = [ctx.choice("c%d" % i, P) for i in range(3)]
    kinds = [None, ctx.choice("k1", ["repl", "repl m"]), ctx.choice("k2", [None, "repl"])]
    func = ctx.fork(ctx.bool("func"))
    src = ""
    for i, (k, c) in enumerate(zip(kinds, codes)): src += ("\n--$switch-compiler: %s\n" % (k or "none") if i else "") + c
    src += "\n--$switch-compiler: none\n"
    if func: src = "function fn(l)\n" + src + "\nend"
    # which definition is seen where
    owner, bad = (("native",) if func else None), False
    for i, (k, c) in enumerate(zip(kinds, codes)):
        me = ("native",) if k is None else (i,)
        if c in ("print(l)", "l=2", "function g() return l end", "local l=l") and owner and owner != me: bad = True
        if c in ("local l=1", "local l=l"): owner = me
    ok, out = process(src, "pico8", "none", True)
    ctx.check(ok != bad, "%s: %r" % ("a local is used across a switch" if bad else "a program is refused (%s)" % out, src))
    if bad: ctx.check(all(["cannot use a local 'l'" in e for e in out]), "the errors are %s" % out)
    ctx.cover("bad" if bad else "fine")

def labels(ctx):
    P = ["goto x", "::x::", "print()", "do goto x end", "function g() goto x ::x:: end", "while 1 do goto x ::x:: end"]
    codes = [ctx.choice("c%d" % i, P) for i in range(3)]
    kinds = [None, "repl", ctx.choice("k2", [None, "repl"])]
    if codes.count("::x::") > 1: return ctx.cover("no program")
    src = ""
    for i, (k, c) in enumerate(zip(kinds, codes)): src += ("\n--$switch-compiler: %s\n" % (k or "none") if i else "") + c
    at = [("native",) if kinds[i] is None else (i,) for i in range(3)]
    bad = any([c in ("goto x", "do goto x end") and ("::x::" not in codes or at[codes.index("::x::")] != at[i]) for i, c in enumerate(codes)])
    ok, out = process(src, "pico8", "none", True)
    ctx.check(ok != bad, "%s: %r" % ("a label is used across a switch" if bad else "a program is refused (%s)" % out, src))
    ctx.cover("bad" if bad else "fine")

def includes(ctx, mini, rename, lang="pico8", few=None):
    """a dynamic include is as if written there"""
    T = ["--$dynamic-include: inc.g 1", "--$dynamic-include:inc.g", "--$dynamic-include: inc.two", "--$dynamic-include: inc.none", "--$dynamic-include: what", "--$def-alias: zz = inc.g 5\n--$dynamic-include: zz", "--$def-alias: zz = inc.g 5\n--$dynamic-include: zz ,6", "--[[$dynamic-include: inc.g 7]]"]
    R = ["gl=f(gl,1)", "gl=f(gl,nil)", "gl=1 print(gl,12)", "", "", "gl=f(gl,5)", "gl=f(gl,5 ,6)", "gl=f(gl,7)"]
    i = ctx.choice("include", list(range(len(T))))
    where = ctx.choice("where", W)
    a, b = ctx.choice("a", S[:few or -1]), ctx.choice("b", S[:few and few // 2 or -1])
    if (a + b).count("::e::") > 1: return ctx.cover("no program")
    compare(ctx, where.replace("%s", a + "\n" + T[i] + "\n" + b + "\n", 1), where.replace("%s", a + "\n" + R[i] + "\n" + b + "\n", 1), lang, mini, rename)

def placeholders(ctx, mini, rename, lang="pico8"):
    """a placeholder is replaced by what the script gives for it"""
    E = ["print(@)", "gl=@", "gl=(@)", "gl=@*3", "gl=1- @", "gl=- @", "gl=not @", "gl={@}", "gl={m=@}", "gl={[@]=@}", "gl=t[@]", "return @", "local a=@ print(a)", "if @ then print() end", "while @ do print() break end", "print((@))", "print(@,1)", "gl=@..gl", "gl=gl..@", "gl=#@", "(@)()",
         "for i=@,2 do print() end", "gl=@ and print() or 2", "print(1==@)", "gl+=@", "gl=function() return @ end", "fn(@)(@)", "gl=@^2", "gl=2^@"]
    X = ["num", "neg", "add", "cat", "tab", "call", "fun", "str", "nil", "none", "what"]
    ST = ["@", "if gl then @ end", "function w() @ end", "for i=1,2 do @ end", "print() @ print()", "gl=f @ gl=f", "gl=f @ (fn)()", "repeat @ until gl", "do @ end"]
    XS = ["st0", "st1", "st2", "stl", "stif", "none", "what"]
    if ctx.fork(ctx.bool("expr")):
        text, x = ctx.choice("text", E), ctx.choice("x", X)
        if text == "gl+=@" and lang != "pico8": return ctx.cover("no program")
        v = PLACE.get(x) or "\"d\""
        src = text.replace("@", "--[[$placeholder-expr::%s]]\"d\"" % x)
        multi = x == "call" and text in ("print(@)", "gl={@}", "return @", "gl=function() return @ end", "fn(@)(@)")
        ref = text.replace("@", v if multi else "(%s)" % v)
        if text == "gl=#@" and x == "fun": ref = "gl=#(%s)" % v
    else:
        text, x = ctx.choice("stext", ST), ctx.choice("sx", XS)
        v = PLACE.get(x)
        src = text.replace("@", "--[[$placeholder-stmt::%s]] do print(9) end" % x)
        ref = text.replace("@", v if v is not None else "do print(9) end")
        if v is not None: ref = ref.replace("(fn)", ";(fn)")
    if mini != "all": ref = lua.norm(lua.parse(ref, lang, key="member"), lang) and ref
    compare2(ctx, src, ref, lang, mini, rename)

def compare2(ctx, src, ref, lang, mini, rename):
    """compare, parentheses aside"""
    ok, out = process(src, lang, mini, rename)
    ctx.check(ok, "a program is refused (%s): %r" % (out, src))
    before, after = lua.norm(read(ctx, ref, lang, "the reference"), lang), lua.norm(read(ctx, out, lang, "what comes out", src), lang)
    what = ": %r for %r" % (out, src)
    if mini == "all":
        if before != after:
            w = lua.World(ctx, lang, callbacks=False, loops=1, results=(1,))
            try: a, b = lua.Run(ctx, w, read(ctx, ref, lang, ""), lang).main(), lua.Run(ctx, w, read(ctx, out, lang, ""), lang).main()
            except lua.Unsupported: return ctx.cover("unsupported")
            if "stopped" in (a[0][0], b[0][0]): return ctx.cover("stopped")
            a, b = lua.outcome(a), lua.outcome(b)
            ctx.check(lua.sizes(a) == lua.sizes(b) and prog.same(ctx, a, b), "what comes out behaves otherwise" + what)
        return ctx.cover("compared")
    try: lua.Alike(before, after)
    except lua.Differ as e: ctx.check(False, "what comes out is another program (%s)" % e + what)
    ctx.cover("alike")

def harnesses(tier):
    T = tier == "thorough"
    hs = []
    for m, r in (("none", True), ("only", False), ("all", False)):
        for lang in ("pico8", "picotron"):
            kw = {"mini": m, "rename": r, "lang": lang}
            if lang == "picotron" and m != "all" and not T: continue
            for n, few in ((1, None), (2, 8 if T else 4)) + (((3, 3),) if T else ()): hs.append(H(sections, params=dict(kw, n=n, few=few), bounds="%d sections, of %s kinds of code and compilers, in 7 places; default compilers" % (n, few or "all")))
            hs.append(H(includes, params=dict(kw, few=None if T else 6), bounds="8 includes between any two of %s statements, in 7 places" % ("15" if T else "6 and 3")))
            hs.append(H(placeholders, params=kw, bounds="29 places of an expression, 9 of a statement, 18 replacements"))
    hs.append(H(ignored, bounds="any three statements"))
    hs.append(H(across, bounds="3 sections of 8 kinds, 2 x 2 compilers, at the top or in a function"))
    hs.append(H(labels, bounds="3 sections of 6 kinds"))
    return hs

TECHNIQUE = ("translation validation with a compiler, includes and placeholders as in the README: programs over a grammar (sections, switches, code, options are solver variables) go through the real tokenizer, parser, renamer and minifier; "
    "the output, with the strings handed to the interpreter parsed too, is compared with the program the hints stand for by an independent parser and symbolic interpreter, Z3 covers every choice")
OUTSIDE = "the Parens-8 compiler itself (its sources are not in the tree); compilers that write to the rom; scripts written in Lua; token counts of compiled code"
ASSUMPTIONS = ["a script's placeholder gives what the harness' does: an expression, or statements that declare no locals"]
META = dict(
    title="Compiled sections, dynamic includes and placeholders mean what they say",
    statement="With a custom compiler, exactly the code between its --$switch-compiler hint (or --default-compiler) and the next is given to it, with its arguments, after renaming, and removed from the output; all other code stays. The includes the compiler names stand where the switch is. Globals have the same name in native code, in compiled code and in what is included. A local or label of one section can't be used in another: that is an error, and nothing else is. --$dynamic-include puts the script's code where it stands, as if written there (renamed and minified with the rest). A placeholder is replaced by the expression or the statements the script gives, without changing what is around it (no folding of the placeholder's stand-in, no change of grouping, no joining with the statements around it). Unknown compilers, includes and placeholders are ignored. With --no-minify-transform, or without minification, the code stays native.",
    over=["inputs", "configurations"], text="every program of the grammars' shapes: up to 2 sections (3 thorough) in 7 places, 16 kinds of code, 6 compilers; 38 places and 18 replacements of placeholders",
    why="The tests compile one cart with one compiler; what goes wrong depends on where the switch stands, what surrounds a placeholder, and how names are shared.",
    files=["pico_tokenize.py", "pico_parse.py", "pico_process.py", "pico_constfold.py", "pico_output.py"],
    mech=[("switches and includes", "pico_tokenize.py: switch_compiler, add_dyn_include"), ("sections", "pico_parse.py: parse_compiler"), ("compilation and placeholders", "pico_process.py: process_compiler, process_placeholder")])
