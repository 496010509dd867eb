"""C21: unminified code is the same program"""
from sym.ctx import H
from props import prog, lua
import pico_process
from pico_process import PicoContext, Source, process_code
from picotron_defs import PicotronContext

G = {
    "E": ["a", "1", "-a", "f(a)", "'s'", "{a}", "function(a,...) <T> end", "(a)", "...", "a.b", "a[1]", "{}", "not a", ".5", "[[s]]", "{a=1,[a]=2;3}", "f'a'", "-1", "f{}", "#a", "a:m(1)", "function() end", "function(...) return ... end", "nil", "0x.8"],
    "O": ["+", "-", "..", "and", "^", "==", "*", "\\", "<<", "!=", "or", "%", "~="],
    "U": ["-", "not ", "~", "#"],
    "B": ["", "<T>", "<T> <T>", "<T>;<T>"],
    "T": ["a()", "b=1", "if (c) a()\n", "local b=a", "break", "return a", "(f)()", "goto z"],
    "S": ["x=<E>", "x,y=<E>,<E>", "local x", "local x,y=<E>,<E>", "a(<E>)", "x.y=<E>", "x[<E>]=<E>", "if c then <B> end", "if c then <B> elseif d then <B> else <B> end", "while <E> do <B> end", "repeat <B> until <E>", "do <B> end",
          "for i=<E>,<E> do <B> end", "for i,j in <E> do <B> end", "function x.y:z(a,...) <B> end", "function x() <B> end", "local function x(a) <B> end", "return <E>,<E>", "x+=<E>", "::z:: <B>", "goto z ::z::", "if (<E>) x=<E>\n", "if (<E>) x=<E> else y=<E>\n",
          "while(<E>) x=<E>\n", "?<E>,<E>\n", "if (c) if (d) x=<E>\n", "if (c) if (d) a() else b()\n", "if (c) while (d) x=<E>\n", "if (c) return <E>\n", "if(c)then <B> else <B> end", "if c do <B> else <B> end", "if (c) then\n", "if (c or d) and e then <B> end", "if (c)d() b()\n", "if (c) else x=<E>\n"],
    "J": [" ", ";", "\n", "\n--c\n", " --[[c]] ", "--[[c\nd]]", ";;", "\n(f)()", ";(f)()", "\n//c\n"],
    "C": ["", "--c\n", "--[[c]]", "--[[c\nd]]", " "],
    "W": ["x<C>=<C>f<C>(<C>a<C>,<C>1)", "if<C>(c)<C>then<C>a()<C>end", "x={<C>a<C>,<C>b=<C>1<C>}<C>", "if (c<C>)<C>a()<C>\n", "function x<C>()<C>a()<C>end<C>y=1", "x<C>.<C>y<C>[<C>1<C>]=2", "?<C>a<C>,b\n", "while c do<C>break<C>end", "if c then a()<C>elseif<C>b<C>then<C>else<C>end", "x=-<C>a-<C>-<C>a",
          "repeat<C>a()<C>until<C>a", "local<C>function<C>x(<C>...<C>)<C>end", "return<C>a<C>", "goto<C>z<C>::<C>z<C>::", "x=function<C>(<C>)<C>end<C>;<C>(f)()", "f<C>'s'<C>{<C>}<C>:<C>m<C>(<C>)", "if (c)<C>a()<C>else<C>b()<C>\nb()", "if (c) a()<C>\n<C>(f)()"],
}

def unminified(src, lang, indent, version=42):
    c = PicoContext(version=version) if lang == "pico8" else PicotronContext(version=version)
    s = Source("main", src)
    ok, errors = process_code(c, s, unminify={"indent": indent})
    return ok, s.text if ok else [e.msg for e in errors]

def readable(ctx, text, lang="pico8", small=None, indent="  ", twice=False):
    """-U keeps the program"""
    src = prog.expand(ctx, prog.trim(G if lang == "pico8" else PG, small), text)
    good, before = prog.cached(("parse", src, lang), lambda: lua.parse(src, lang))
    if not good:
        ctx.cover("not a program")
        return
    ok, out = unminified(src, lang, indent)
    ctx.check(ok, "a program is refused: %r" % src)
    good, after = prog.cached(("parse", out, lang), lambda: lua.parse(out, lang))
    if not good: ctx.check(False, "what comes out is not a program (%s): %r for %r" % (after, out, src))
    ctx.check(lua.norm(before, lang) == lua.norm(after, lang), "what comes out is another program: %r for %r" % (out, src))
    want, got = comments(src, lang), comments(out, lang)
    ctx.check(want == got, "comments are lost: %r for %r" % (out, src))

def comments(text, lang):
    """what is written between the tokens"""
    at, out = 0, ""
    for t in lua.lex(text, lang):
        out, at = out + "".join(text[at:t[3]].split()), t[4]
    return out

# picotron has no '?', no short-hands' '?'
PG = dict(G, S=[x for x in G["S"] if "?" not in x], U=["-", "not ", "~", "#", "*"], O=["+", "-", "..", "and", "^", "==", "*", "//", "<<", "~=", "or", "~", "\\"], W=[x for x in G["W"] if "?" not in x], J=[x for x in G["J"] if "//" not in x])

def harnesses(tier):
    hs = []
    T = tier == "thorough"
    def q(**kw): return None if T else kw
    def add(text, small, lang="pico8", **kw):
        g = G if lang == "pico8" else PG
        hs.append(H(readable, params=dict(kw, text=text, small=small, lang=lang), bounds="%d programs %r" % (prog.count(prog.trim(g, small), text), text)))
    for lang in ("pico8", "picotron"):
        add("<S>", q(E=3, B=3, T=3), lang)
        add("x=<E>", None, lang)
        add("x=<E> <O> <E>", q(E=12, O=6), lang)
        add("x=<U> <E> y={<U> <U> <E>}", q(E=7), lang)
        add("x=<E> <E>", q(E=12), lang)
        add("x[<E>],x=(<E>)", q(E=16), lang, indent="\t")
        add("<S><J><S>", dict(E=1, B=2, T=2, J=10, S=35) if T else dict(E=1, B=1, J=6, S=15), lang)
        add("<T><J><T><J><T>", q(T=3), lang)
        add("if c then <T><J><T> end", q(), lang)
        add("<W>", q(C=3), lang, indent="")
    return hs

TECHNIQUE = "translation validation: programs over a grammar (choices are solver variables) go through the real parser and unminifier; an independent parser decides that the tree and the comments are the same; z3 covers every choice"
OUTSIDE = "programs beyond the grammar's shapes; the look of the output"
ASSUMPTIONS = ["grammar and precedence as in Lua 5.2/5.4 and PICO-8"]
META = dict(
    title="Unminified code is the same program, with its comments",
    statement="The output of --unminify is a program with the same syntax tree as the input - operators, operands, statements, calls, short-hands as blocks with the same extent, statements still apart where a ';' kept them apart, no two tokens fused into another one - and with every comment of the input, whatever the input's own layout and the indentation asked for.",
    over=["inputs"], text="every choice in the grammar's statements, expressions, separators and comment positions",
    why="The tests unminify two files; what breaks is neighbours (two minus signs, a bracket and a long string, a statement that starts with a parenthesis, a comment inside a short-hand).",
    files=["pico_unminify.py", "pico_parse.py"],
    mech=[("unminifier", "pico_unminify.py: unminify_code")])
