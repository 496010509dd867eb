"""C18: expressions keep their tree through minification"""
from sym.ctx import H
from props import prog, lua
import pico_process

G = {
    "T": ["a", "-1", "f()", "...", "'s'", "0x8000", "(a)", "(f())", ".5", "a.b", "{}", "~0x1.8", "(...)", "0xffff.8", "f{}", "a:b''", "function() end", "nil", "'s'..2"],
    "U": ["-", "not ", "~", "#", "@", "%"],
    "O": ["+", "..", "^", "==", "or", "-", "*", "&", "and", "<<", "|", "^^", "<", "/", "\\", "%", "~=", ">>>", "!=", "<<>", ">=", ">>", ">><", "<=", ">", "~"],
    "V": ["a", "-1", "f()", "'s'", "(a)"],
    "X": ["(<V> <O> <V>) <O> <V>", "<V> <O> (<V> <O> <V>)"],
    "Y": ["(<U><V>) <O> <V>", "<V> <O> (<U><V>)", "<U>(<V> <O> <V>)", "<U>(<U><V>)", "(<U><V> <O> <V>)"],
    "Z": ["(<V> <O> <V> <O> <V>)", "(((<V>)) <O> (<V>))", "-(-<V> <O> <V>)", "not(<V> <O> not <V>)", "(<V> <O> <V>) <O> (<V> <O> <V>)", "<V> <O> (<U><V> <O> <V>)", "(<V> <O> <U><V>) <O> <V>", "((<V> <O> (<V>))) <O> (-(<V>))"],
    "C": ["k((<T>))", "k((<T>),(<T>))", "k((<T>),<T>)", "x=(<T>)", "x,y=(<T>)", "x,y=1,(<T>)", "local x,y=(<T>),(<T>)", "local x,y,z=1,(<T>)", "return (<T>)", "return (<T>),(<T>)", "k() return", "if (a) return", "a[(<T>)]=(<T>)",
          "k{(<T>)}", "k{(<T>),(<T>)}", "k{[(<T>)]=(<T>)}", "k{m=(<T>),}", "k{(<T>);m=(<T>);}", "x+=(<T>)", "a.b..=(<T>)", "for i=(<T>),(<T>),(<T>) do k() end", "for i in (<T>) do k() end", "for i,j in (<T>),(<T>) do k() end",
          "for i in a,b,c,(<T>) do k() end", "for i in a,b,(<T>) do k() end", "if (<T>) then k() end", "if (<T>) k()", "if ((<T>)) k()", "while (<T>) do k() end", "repeat k() until (<T>)",
          "a=b ;(<T>)()", "a=b ;(<T>).m()", "a=b ;(<T>).m=(<T>)", "a=b ;(<T>)[(<T>)]=1", "k((<T>).m)", "k((<T>)[1])", "k((<T>):m())", "k((<T>)())", "k(((<T>)))", "k(-(<T>))", "k((<T>)..(<T>))", "k(2^(<T>))", "k((<T>)^2)", "k(1-(<T>)-1)", "k(not (<T>)==(<T>))",
          "(<T>)'s'", "k(function() return (<T>) end)", "if d then k() elseif (<T>) then k(2) end", "if (d) k() else k((<T>))", "?(<T>),(<T>)", "?(<T>)"],
}
PG = dict(G, U=["-", "not ", "~", "#", "*"], T=[t for t in G["T"]] + ["1//1", "1e3", "2^63", "0x7fffffffffffffff", "-9223372036854775808"],
          O=["+", "..", "^", "==", "or", "-", "*", "&", "and", "<<", "|", "~", "<", "/", "//", "%", "~=", "\\", "!=", ">=", ">>", "<=", ">"],
          C=[c for c in G["C"] if not c.startswith("?")])

def tree(ctx, text, focus, lang="pico8", version=42, small=None, kw={}):
    """with nothing but the tokens changed, the tree stays the same"""
    src = prog.expand(ctx, prog.trim(G if lang == "pico8" else PG, small), text)
    prog.validate(ctx, src, lang=lang, version=version, focus=focus, tree=True, consts=False, **kw)

def means(ctx, text, focus, lang="pico8", small=None):
    """with constants folded too, the program does the same"""
    src = prog.expand(ctx, prog.trim(G if lang == "pico8" else PG, small), text)
    prog.validate(ctx, src, lang=lang, focus=focus, world=dict(callbacks=False, results=(0, 2), loops=1))

def harnesses(tier):
    hs = []
    T = tier == "thorough"
    def q(**kw): return None if T else kw
    def add(f, text, small, **kw):
        g = PG if kw.get("lang") else G
        hs.append(H(f, params=dict(kw, text=text, small=small), bounds="%d expressions %r" % (prog.count(prog.trim(g, small), text), text)))
    for focus, n in ((["compressed"], 5), (["chars"], 5), (["tokens"], 3), ([], 3)):
        add(tree, "k(<X>)", q(V=1, O=26) if focus != [] else dict(V=4, O=8), focus=focus)
        add(tree, "k(<Y>)", q(V=3, O=n, U=4), focus=focus)
        add(tree, "<C>", q(T=6 if n == 5 else 5), focus=focus)
    add(tree, "x=<Z>", q(V=2, O=3, U=2) or dict(V=3, O=6, U=3), focus=["chars"])
    add(tree, "k(<X>)", q(V=1), focus=[], lang="picotron")
    add(tree, "k(<Y>)", q(V=3, O=5, U=5), focus=["chars"], lang="picotron")
    add(tree, "<C>", q(T=6), focus=["compressed"], lang="picotron")
    add(tree, "k(<T>,(<T>))", None, focus=["tokens"], lang="picotron")
    add(tree, "k(<Y>)", q(V=2, O=5, U=4), focus=[], version=36)
    add(means, "<C>", q(T=3), focus=["compressed"])
    add(means, "x=<Y>", q(V=3, O=8, U=3), focus=["tokens"])
    add(means, "<C>", q(T=3), focus=["chars"], lang="picotron")
    return hs

TECHNIQUE = "translation validation: expressions over a grammar (choices are solver variables) go through the real parser and minifier and the result is read by an independent parser; z3 covers every choice, and decides equality of values where constants were folded"
OUTSIDE = "expressions nested deeper than the grammars' shapes"
ASSUMPTIONS = ["operator precedence and associativity as in Lua 5.4 and PICO-8 (compared with z8lua for every pair of operators)"]
META = dict(
    title="Expressions keep their structure through minification",
    statement="Removing parentheses, tokens and separators and rewriting operators, numbers and strings never changes what an expression means: parsed by the language's precedence and associativity rules, the output is the same tree of operators, operands, calls and table items as the input - including which calls and '...' are cut to one value - wherever the expression stands (argument, table item, source of an assignment or loop, condition, prefix of a call or index), under every --focus option.",
    over=["inputs"], text="every pair of operators in both nestings, every unary/binary combination, every kind of operand in every position, parenthesised or not",
    why="The tests minify one input file with a few parentheses; the rules for when a parenthesis matters depend on both operators, the side, the operand (negative numbers, '...', calls, literals) and the place, and their product is far larger than any list of cases.",
    files=["pico_minify.py", "pico_parse.py", "pico_output.py"],
    mech=[("paren removal", "pico_minify.py: fixup_nodes_pre, get_precedence"), ("token rewriting", "pico_minify.py: fixup_tokens"), ("parser precedence", "pico_parse.py: get_precedence, parse_expr")])
