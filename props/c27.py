"""C27: declared constants (--[[$const]], --const, --str-const)"""
from sym.ctx import H
from props import prog, lua
import c17
import re
import pico_process
from pico_process import PicoContext, Source, process_code
from picotron_defs import PicotronContext
from pico_constfold import parse_constant
from pico_defs import Language

# $ marks a constant, ! marks one whose value cannot be told; g and h are globals, the rest is local or unknown
G = {
    "L": ["$local a,b=<E>,<E>", "local $a,b=<E>,f()", "local b,$a=f(),<E>", "$local b local $a=<E>", "local !a,b=<N>,<E>", "local $a,!b=<E>,<N>", "local b,$a,c=f(),<E>,f() k(c)",
          "local $a,b,c=<E>,f() k(c)", "local b,$a=f0 k(b)", "$local b=<E> $local a=b", "local !a,b=f()", "$local a,b", "local b=f() do $local b=<E> k(b) end $local a=<E>", "local !a=<E> local b=2 a=b",
          "$local b=<E> local a=b", "local $a,c,b=<E>,f(),f() k(c)",
          "local a,b=...", "local $a,b,c=<E>,... k(c)", "local b,!a=...", "local c,$a,b=...,<E> k(c)"],
    "GL": ["$g=<E> $h=<E>", "$g,h=<E>,f()", "h,$g=f(),<E>", "do $g=<E> end $h=<E>", "!g=<N> $h=<E>", "$g,$h=<E>,<E>", "$g=<E> k(g) $h=g", "!g=<E> g=2 $h=<E>", "$g,t.x,$h=<E>,f(),<E>", "t.x,$g,h=f(),<E>,f()"],
    "E": ["1", "'s'", "nil", "false", "-2", "1+2", "'s'..'1'", "not nil", "7 and 8", "(3)", "0.5", "''", "true and 's'"],
    "N": ["f()", "t.x", "y", "{}", "function() end", "1+y", "..."],
    "U": ["k(<A>,<B>)", "k(-<A>,#<B>)", "k(<A>..<B>)", "if <A> then k() else k(<B>) end", "k(<A> or k(),<B>)", "function w() return <A> end k(w())", "local a,g=3 k(<A>)", "do local a=<A> local g=<A> k(a,g) end k(<A>)", "t.a=<A> k(<A>)",
          "k{a=<A>,[<B>]=<B>}", "while <A> do k(<B>) break end", "repeat local a,g=f() k(a) until <A> k(<A>)", "for a=<A>,<B> do k(a) end", "t[<A>]=<B>", "(<A> or k)(<B>)", "k(<A>)(<B>)", "x=<A> y=<B>", "return <A>,<B>", "k(2^<A>)",
          "k(<A>==<B>)", "k'a'", "t.g=<A> t.a=t.b", "k(t[<A>].a)", "function w(a,g) k(<A>) end k(w)", "k(function() k(<A>) local a,g=5 k(<A>) end)", "if (<A>) k(<B>)\nk()", "k(<A> and t.x)", "k(not <A>)", "?<A>\nk()", "k({<A>,<B>},1-<A>)",
          "if c then k() elseif <A> then k(<B>) else k(1) end", "if <A> then local a,g=1 k(a,g) end k(<A>)", "local x=<A> k(x) x=<B> k(x)", "k(<A>,(<B>))", "k(<A>.x)", "k(<A>:x())", "k(<B>.x.y)"],
}
PG = dict(G, U=[u for u in G["U"] if "if (" not in u and "?" not in u])
SHADOW = re.compile(r"local a,g|local a=|local g=|\(a,g\)|t\.|for a|a=|,g\)|'a'")

def declared(ctx, text, names, lang="pico8", small=None, focus=(), safe=False):
    g = prog.trim(G if lang == "pico8" else PG, small)
    text = prog.expand(ctx, dict(g, A=[names[0]], B=[names[1]]), text)
    src = text.replace("$", "--[[$const]] ").replace("!", "--[[$const]] ")
    ref = text.replace("$", "").replace("!", "")
    glob = names == "gh"
    if glob: ref = "local " + ",".join(n for n in "gh" if "$" + n in text or "!" + n in text) + " " + ref if "$g" in text or "$h" in text else ref
    if glob and "!g" in text: ref = ref.replace("local g,h", "local h")
    compare(ctx, src, ref, lang, focus, safe, fails="!" in text)

def compare(ctx, src, ref, lang, focus, safe, fails, defs=None):
    good, before = prog.cached(("parse", ref, lang), lambda: lua.parse(ref, lang))
    if not good: return ctx.cover("not a program")
    good, (ok, out, errors) = prog.cached(("run", src, lang, repr((focus, safe, defs))), lambda: run(src, lang, focus, safe, defs))
    ctx.check(ok, "a program is refused: %r" % src)
    if fails is not None: ctx.check(bool(errors) == fails, ("a constant whose value cannot be told is not reported: %r" if fails else "a constant is reported as unusable: %r") % src)
    good, after = prog.cached(("parse", out, lang), lambda: lua.parse(out, lang))
    if not good: ctx.check(False, "what comes out is not a program (%s): %r for %r" % (after, out, src))
    if lua.norm(before, lang) == lua.norm(after, lang): return ctx.cover("same tree")
    world = dict(reads=True, results=(1,)) if safe else dict(results=(1, 2))
    w = lua.World(ctx, lang, callbacks=False, loops=1, **world)
    try:
        a = lua.Run(ctx, w, before, lang).main()
        b = lua.Run(ctx, w, after, lang).main()
    except lua.Unsupported: return ctx.cover("unsupported")
    if "stopped" in (a[0][0], b[0][0]): return ctx.cover("stopped: %s / %s" % (a[0], b[0]))
    a, b = lua.outcome(a), lua.outcome(b)
    ctx.check(lua.sizes(a) == lua.sizes(b), "what comes out behaves otherwise: %r for %r" % (out, src))
    ctx.check(prog.same(ctx, a, b), "what comes out behaves otherwise: %r for %r" % (out, src))
    ctx.cover("compared")

def run(src, lang, focus, safe, defs):
    ln = Language.pico8 if lang == "pico8" else Language.picotron
    consts = {k: parse_constant(v, ln, as_str=s) for k, (v, s) in (defs or {}).items()}
    c = PicoContext(consts=consts) if lang == "pico8" else PicotronContext(consts=consts)
    s = Source("main", src)
    ok, errors = process_code(c, s, minify=prog.options(focus=list(focus), safe=safe, tokens=False, reorder=False))
    return ok, s.text if ok else "", [e.msg for e in errors]

VALUES = [("1", False), ("-1", False), ("2.5", False), ("true", False), ("nil", False), ("false", False), ("0x7f", False), ("'s'", False), ("s", True), ("", True), ("a'b", True), ("\"\\\n", True), ("1", True), ("[[x]]", False)]

def given(ctx, text, lang="pico8", small=None, focus=()):
    """constants of the command line: g (which may have a default) and, for the rest, h"""
    g = prog.trim(G if lang == "pico8" else PG, small)
    text = prog.expand(ctx, dict(g, A=["g"], B=["h"]), text)
    if re.search(r"local a,g=3 .*\$g", text): return ctx.cover("another g")
    i = ctx.choice("value", list(range(len(VALUES))))
    v, s = VALUES[i]
    src = text.replace("$", "--[[$const]] ")
    lit = v if not s else '"' + v.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"'
    ref = "local g=%s " % lit + re.sub(r"\$g=[^;]*;", "", text)
    compare(ctx, src, ref, lang, focus, False, fails=False, defs={"g": (v, s)})

def text_given(ctx, n, lang, chars=None):
    """the text of --str-const is what the program gets"""
    ln = getattr(Language, lang)
    v = ctx.str("v", n, chars=chars) if chars else ctx.str("v", n, 1, 127)
    c = (PicoContext if lang == "pico8" else PicotronContext)(consts={"g": parse_constant(v, ln, as_str=True)})
    s = Source("main", "k(g,1)")
    ok, errors = process_code(c, s, minify=prog.options(focus=[]))
    ctx.check(ok and not errors, "a constant is refused")
    out = s.text
    ctx.check(ctx.eq(out[:2], "k("), "what comes out is another program")
    r = c17.spec_string(ctx, out[2:] + "]=\"x", ln)
    ctx.check(r is not None, "what is written is not a string literal")
    ctx.check(ctx.eq(out[2 + r[1]:], ",1)"), "what comes out is another program")
    ctx.check(c17.same(ctx, r[0], v), "the program gets another text")
    ctx.cover("done")

def harnesses(tier):
    hs, T = [], tier == "thorough"
    def q(**kw): return None if T else kw
    def add(f, text, small, **kw):
        g = dict(prog.trim(G, small), A=["a"], B=["b"])
        hs.append(H(f, params=dict(kw, text=text, small=small), bounds="%d programs %r, unknown values arbitrary" % (prog.count(g, text) * (len(VALUES) if f is given else 1), text)))
    add(declared, "y=z <L>;<U>", q(E=4, N=3), names="ab")
    add(declared, "y=z <L>;<U>", q(L=4, E=6, U=12, N=1) or dict(L=9, E=6), names="ab", focus=["chars"])
    add(declared, "y=z <L>;<U>", q(L=5, E=3, U=12, N=2), names="ab", safe=True, focus=["tokens"])
    add(declared, "y=z <GL>;<U>", q(E=4, N=3), names="gh")
    add(declared, "y=z <GL>;<U>", q(GL=4, E=6, U=12, N=1) or dict(GL=8), names="gh", focus=["compressed"])
    add(declared, "y=z <L>;<U>", q(L=5, E=3, U=14, N=2), names="ab", lang="picotron")
    add(declared, "y=z <GL>;<U>", q(GL=5, E=3, U=14, N=2), names="gh", lang="picotron")
    add(declared, "<L>;<GL>;<U>", dict(L=3, GL=2, E=3, N=1, U=8) if not T else dict(L=6, GL=4, E=3, N=2), names="gh")
    add(given, "<U>", None)
    add(given, "$g=<E>;<U>", q(E=2))
    add(given, "<U>", None, lang="picotron")
    add(given, "<U>;$g=<E>;<U>", dict(U=8, E=2) if not T else dict(U=20, E=3), focus=["chars"])
    for lang in ("pico8", "picotron"):
        for n in (0, 1, 2) + ((3,) if T else ()):
            hs.append(H(text_given, params={"n": n, "lang": lang}, bounds="every text of %d ASCII characters" % n))
        hs.append(H(text_given, params={"n": 5, "lang": lang, "chars": "a'\"]\\\n"}, bounds="texts of 5 characters that matter in literals"))
    return hs

TECHNIQUE = "translation validation: programs over a grammar (choices are solver variables) with constants declared by hints or the command line go through the real minifier; the result and a reference (the constant as an ordinary local) are executed symbolically in one unknown world and z3 decides that they do the same; texts of --str-const are symbolic"
OUTSIDE = "uses of a global constant above its declaration; calls of builtins in constants (C15); programs beyond the grammar"
ASSUMPTIONS = ["constants follow README: locals keep their scope, globals always have their value, the command line overrides the default"]
META = dict(
    title="Declared constants mean the same as the variables they replace",
    statement="Declaring variables constant (by --[[$const]] on a statement or on single names, local or global, or by --const and --str-const) gives a program that does the same as if they were ordinary variables with those values: uses in scope get the value, other variables of the same name do not, the other targets and values of the statement stay right, and the evaluation order of what remains stays. A value from the command line replaces the default in the source, and its text arrives unchanged. A constant whose value cannot be told is reported and stays a variable.",
    over=["inputs"], text="every program of the grammar, every value of what the program does not define; every text of the sizes stated",
    why="The tests have a page of examples; removing targets from statements with several values, scopes, short-circuits and kinds of values combine in more ways than these.",
    files=["pico_constfold.py", "pico_parse.py", "pico_tokenize.py", "pico_process.py"],
    mech=[("folding", "pico_constfold.py: fold_consts, erase_assign_targets, set_const"), ("hints", "pico_tokenize.py: process_comment"), ("command line", "pico_constfold.py: parse_constant")])
