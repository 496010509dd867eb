"""C19: statements keep their meaning through minification"""
from sym.ctx import H
from props import prog, lua
import pico_process

# shorthands: what may become one, what it may contain, what follows
SHORT = {
    "S": ["if <C> then <B> end", "if <C> then <B> else <B> end", "while <C> do <B> end", "if <C> then <B> elseif d then <B> end"],
    "C": ["c", "(c)", "c or d"],
    "B": ["a()", "<N>", ";a()", "a() <N>", "<N> a()", "x=1 <N>", "", ";", ";<N>", "return"],
    "N": ["if d then b() end", "print(b)", "(b or c)()", "print()", "function h() b() end", "goto z", "if (d) b()", "while d do b() break end",
          "do b() end", "if d then b() else e() end", "repeat b() until d", "if (d) b() else e()", "x=function() return b() end"],
}
PSHORT = dict(SHORT, N=[n for n in SHORT["N"] if "print" not in n], S=SHORT["S"] + ["if c do <B> end"])

def short(ctx, text, version, focus, lang="pico8", small=None):
    src = prog.expand(ctx, prog.trim(SHORT if lang == "pico8" else PSHORT, small), text)
    prog.validate(ctx, src, lang=lang, version=version, focus=focus, world=dict(callbacks=False, results=(1,), loops=1))

# sequences of declarations and assignments, which may be merged
SEQ = {
    "L": ["local x=<E>", "local x,y=<E>", "local x", "local y,z=<F>,<E>", "local x,y=<E>,<F>", "local y=<E>", "local x=<F>,<E>"],
    "A": ["x=<E>", "t.x=<E>", "x,y=<E>,<F>", "t[x]=<E>", "f()[g()]=<F>", "x,y=<E>", "y=<E>", "t.x,y=<F>,<E>", "f().x=<E>", "x.y=<E>", "u.y=<F>", "t[1]=<F>", "y,t.x=<F>"],
    "E": ["1", "x", "f()", "t.x", "...", "y", "function() return x end", "y and 2", "cos(x)", "t[y]", "x+y", "{x,f()}", "(f())", "t.y()", "yield(x)"],
    "F": ["2", "f()", "x", "u.x"],
    "P": ["", "local x,y function h() x=x+1 return x end ", "local x ", "local y "],
}

def seq(ctx, text, focus, safe, lang="pico8", small=None):
    src = "do f=f0 end " + prog.expand(ctx, prog.trim(SEQ, small), text)
    world = dict(reads=True, results=(1, 2)) if safe else dict(pure={"cos", "g"}, results=(1, 2))
    prog.validate(ctx, src, lang=lang, focus=focus, safe=safe, world=world)

# constants: conditions that fold, locals that are known
CONST = {
    "S": ["if <K> then <B> else <B> end", "if c then <B> elseif <K> then <B> end", "if <K> then <B> elseif <K> then <B> else e() end", "if <K> then <B> end", "if c then b() elseif <K> then <B> else <B> end",
          "if (<K>) <B>", "if (<K>) a() else <B>"],
    "K": ["true", "nil", "c", "1==2", "false", "not c", "true and c", "1"],
    "B": ["a()", "local y=2 a(y)", "(b or c)()", "::w:: a()", "break", "", "goto z", "function h() b() end", "return", "return a()", "local function h() b() end h()", "if true then a() end", "x=function() return end"],
    "L": ["local x=<V>", "local x,y=<V>", "local x", "local y,x=<V>,f()", "local x <X> x=3", "local x,y=<V>,<V>", "local y=<V>", "local x,y=f()", "local x,y,z=f(),<V>", "local x=<V>,f()"],
    "V": ["1", "nil", "a", "true", "x", "-1", "2+3", "{}", "not x"],
    "X": ["a(x)", "x=2 a(x)", "function h() x=4 end", "", "function h() return x end"],
    "U": ["k(x,y)", "x()", "x.y=1", "k(-x)", "k(x or y,x and y)", "while x do k() break end", "if x then k(y) else return end", "a=y (x or b)()", "repeat local x=1 until x", "x:y()", "k(x..y)",
          "k(x.y)", "k(x^2)", "for i=x,y do k(i,x) end", "x,y=y,x k(x,y)", "return x", "k(x)(y)", "k{x,y=y}", "x=x and k() k(x)", "k(function() return x end)", "a[x]=y", "local y=x k(y)", "k(#x)", "k(1-x)"],
}
PCONST = dict(CONST, L=CONST["L"] + ["local x <const>,y=<V>,<V>", "local y <close>,x=<V>,<V>"], V=CONST["V"] + ["1//0", "2^53", "1.0"])

def folds(ctx, text, focus, lang="pico8", safe=False, small=None):
    src = prog.expand(ctx, prog.trim(CONST if lang == "pico8" else PCONST, small), text)
    prog.validate(ctx, src, lang=lang, focus=focus, safe=safe, world=dict(results=(1,), loops=1, callbacks=False))

def harnesses(tier):
    hs = []
    def add(f, g, text, small, **kw):
        hs.append(H(f, params=dict(kw, text=text, small=small), bounds="%d programs %r, unknown values and functions arbitrary, up to %d loop turns" % (prog.count(prog.trim(g, small), text), text, 1)))
    T = tier == "thorough"
    def q(**kw): return None if T else kw
    add(short, SHORT, "<S>\nk() ::z::", q(S=4, C=1, B=9, N=8), version=42, focus=["compressed"])
    add(short, SHORT, "<S>\nk() ::z::", q(S=3, C=2, B=4, N=13), version=42, focus=["chars"])
    add(short, SHORT, "<S>\nk() ::z::", q(S=2, C=1, B=10, N=4), version=41, focus=[])
    add(short, PSHORT, "<S>\nk() ::z::", q(S=5, C=1, B=5, N=4), version=42, focus=["chars"], lang="picotron")
    add(seq, SEQ, "<L> <L> k(x,y)", q(L=6, E=7, F=2), focus=["compressed"], safe=True)
    add(seq, SEQ, "<P><A> <A> k(x,y)", q(P=1, A=9, E=5, F=2), focus=["tokens"], safe=True)
    add(seq, SEQ, "<P><A> <A> k(x,y)", q(P=2, A=8, E=4, F=2), focus=["tokens"], safe=False)
    add(seq, SEQ, "<P><A> <A> k(x,y)", q(P=1, A=4, E=4, F=2) or dict(P=2, A=8, E=9), focus=["tokens"], safe=True, lang="picotron")
    add(folds, CONST, "a=b <S>\n(d or e)() ::z::", q(S=7, K=4, B=4), focus=["compressed"])
    add(folds, CONST, "a=b do <S>\nk() end <S>\n(d or e)() ::z::", q(S=2, K=2, B=3) or dict(S=7, K=3, B=4), focus=["chars"])
    add(folds, CONST, "<L> <L> <U>", q(L=6, V=5, X=3, U=11) or dict(L=7, V=7), focus=["compressed"])
    add(folds, PCONST, "<L> <L> <U>", dict(L=3, V=2, X=1, U=5) if not T else dict(L=5, V=5), focus=[], lang="picotron")
    add(folds, PCONST, "<L> <U>", q(L=12, V=7, X=3, U=15), focus=[], lang="picotron")
    add(folds, CONST, "while g do <S>\nk() end ::z::", q(S=4, K=3, B=6), focus=["compressed"])
    return hs

TECHNIQUE = "translation validation: programs over a grammar (choices are solver variables) go through the real minifier; input and output are executed symbolically in one unknown world and z3 decides that they do the same for all of its values"
OUTSIDE = "programs beyond the grammars' shapes; programs that break the assumptions README states for unsafe minification; code that runs more than one turn of a loop"
ASSUMPTIONS = ["what the program does not define is unknown: reads, results and truth of unknowns are arbitrary but a function of what happened before",
               "without --minify-safe-only: fresh assignments are not watched by metamethods, functions never assigned are builtins (README)"]
META = dict(
    title="Statements keep their meaning through minification",
    statement="Minifying a program (short-hands, merged declarations and assignments, folded conditions and known locals, removed dead branches, dropped separators) yields a valid program that does the same: the same calls with the same arguments in the same order, the same stores, the same results, for whatever the functions and globals it uses turn out to be. With --minify-safe-only this includes what metamethods could observe.",
    over=["inputs"], text="every program of the grammars, every value of what the program does not define (results, truth values, number of results, whether a loop goes on)",
    why="The tests minify a few carts and eyeball the output; the rewrites interact (a short-hand that ends in another, an 'else' that binds elsewhere, a '(' on the next line, a call whose extra results get kept) in combinations that those carts do not contain.",
    files=["pico_minify.py", "pico_constfold.py", "pico_output.py", "pico_parse.py"],
    mech=[("short-hands, merging", "pico_minify.py: minify_code"), ("folding of conditions and locals", "pico_constfold.py: fold_consts, set_const"), ("separators", "pico_output.py: output_node")])
