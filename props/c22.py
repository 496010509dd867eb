"""C22: the sizes that are reported"""
from sym.ctx import H
from props import prog, lua, c18, c21
import pico_process
from pico_process import PicoContext, Source, process_code
from picotron_defs import PicotronContext
from pico_compress import compress_code, uncompress_code, print_size, write_code_size, write_compressed_size
from utils import BinaryReader, BinaryWriter, BytesIO

FREE = (",", ".", ":", ";", "::", ")", "]", "}", "end", "local")

def tokens_of(text, lang):
    """the number of tokens, as PICO-8 counts: separators, closing brackets, 'end' and 'local' are free, and so is the sign of a number where a value starts"""
    n, toks = 0, lua.lex(text, lang)[:-1]
    raw = [text[t[3]:t[4]] for t in toks]
    for i, t in enumerate(toks):
        if t[0] in ("op", "kw") and raw[i] in FREE: continue
        if raw[i] in "-~" and i and i + 1 < len(toks) and toks[i + 1][0] == "num" and t[4] == toks[i + 1][3]:
            p = toks[i - 1]
            if p[0] not in ("num", "str", "name") and raw[i - 1] not in (")", "]", "}", ";", "end"): continue
        n += 1
    return n

def counts(src, lang, minify=False, unminify=False, rename=False):
    c = PicoContext() if lang == "pico8" else PicotronContext()
    got = {}
    s = Source("main", src)
    def handler(prefix, name, size, limit): got[(prefix, name)] = (size, limit)
    ok, errors = process_code(c, s, input_count=handler, count=handler, minify=minify, unminify=unminify, rename=rename)
    return ok, s.text, got

UNSURE = ("nil", "true", "false", "...") # does a sign after these belong to a number?

def reported(ctx, g, text, small=None, lang="pico8", how="minify", opts={}):
    """the token counts that are printed are those of the input and of the output"""
    src = prog.expand(ctx, prog.trim(G[g], small), text)
    good, _ = prog.cached(("parse", src, lang), lambda: lua.parse(src, lang))
    if not good: return ctx.cover("not a program")
    kw = {"minify": prog.options(**opts)} if how == "minify" else {"unminify": {"indent": " "}} if how == "unminify" else {}
    ok, out, got = counts(src, lang, **kw)
    ctx.check(ok, "a program is refused: %r" % src)
    for which, t in (("input", src), (None, out)):
        n, limit = got.get((which, "tokens"), (None, None))
        ctx.check(n == tokens_of(t, lang) and limit == 8192, "%r has %d tokens, not %s (made from %r)" % (t, tokens_of(t, lang), n, src))
    if how == "minify": ctx.check(got[(None, "tokens")][0] <= got[("input", "tokens")][0], "minifying adds tokens: %r for %r" % (out, src))

G = {"expr": c18.G, "pexpr": c18.PG, "stat": c21.G, "neg": {
    "A": ["-1", "- 1", "~1", "~ 1", "-a", "- -1", "-(1)", "-.5", "-'1'", "-0x1"],
    "B": ["a", "1", "(a)", "a[1]", "'s'", "{}", "f()", "(-1)", "not a"],
    "O": ["+", "-", "*", "..", "and", "==", "~=", "^", "<<"],
    "S": ["x=<B><O><A>", "x=<A><O><B>", "f(<A>,<A>)", "x={<A>,<A>;<A>}", "return <A>,<A>", "x=a[<A>]", "if (<A>) f(<A>)\n", "for i=<A>,<A>,<A> do end", "x=not <A>", "local x,y=<A>,<A>", "x=<B> x=<A>", "repeat until <A>", "x+=<A>", "x={[<A>]=<A>,a=<A>}", "?<A>,<A>\n", "x=<B>-<A>", "goto a ::a:: x=<A>", "f'<B>' x=<A>", "x=a.b-1"]}}

def token(ctx, seq):
    """sequences of arbitrary tokens"""
    text, at = "", []
    for i, kind in enumerate(seq):
        if i and ctx.choice("gap%d" % i, ["", " "]): text += " "
        if kind == "num": text += ctx.choice("num%d" % i, ["1", "0x1", ".5"])
        elif kind == "op": text += ctx.choice("op%d" % i, ["-", "~", ")", "]", "}", "(", "[", "{", ",", ";", ".", ":", "::", "=", "+", "#", "..", "!=", "+=", "\\", "@", "$", "%", "&", "^", ">>>"])
        elif kind == "kw": text += ctx.choice("kw%d" % i, ["end", "local", "return", "not", "and", "do", "then", "if", "function", "in", "else", "while", "break"])
        elif kind == "name": text += ctx.choice("name%d" % i, ["a", "_end"])
        else: text += ctx.choice("str%d" % i, ["'a'", "[[-1]]"])
    try: n = tokens_of(text, "pico8")
    except lua.Bad: return ctx.cover("no tokens")
    from pico_tokenize import tokenize, count_tokens
    toks, errors = tokenize(Source("main", text), PicoContext())
    if errors: return ctx.cover("refused")
    ctx.check(count_tokens(toks) == n, "%r has %d tokens" % (text, n))

class FakeCart:
    pass

def compressed(ctx, n, chars, fast):
    """the compressed size printed is what the code takes in a cart"""
    code = ctx.str("code", n, chars=chars)
    sizes = []
    f = BytesIO()
    compress_code(BinaryWriter(f), code, force_compress=True, fast_compress=fast, size_handler=lambda *a: sizes.append(a))
    ctx.check(len(sizes) == 1, "no size")
    ctx.check(ctx.all([sizes[0][2] == len(f.getvalue()), sizes[0][3] == 0x3d00]), "another size is reported than written")
    cart = FakeCart(); cart.code = code
    out = []
    write_code_size(cart, handler=lambda *a: out.append(a))
    write_compressed_size(cart, handler=lambda *a: out.append(a), fast_compress=fast)
    ctx.check(out[0] == (None, "chars", n, 0xffff), "wrong number of characters")
    ctx.check(ctx.all([len(out) == 2, out[1][2] == sizes[0][2]]), "another size is reported with --count than written")

def harnesses(tier):
    hs = []
    T = tier == "thorough"
    def q(**kw): return None if T else kw
    def add(g, text, small=None, **kw):
        hs.append(H(reported, params=dict(kw, g=g, text=text, small=small), bounds="%d programs %r" % (prog.count(prog.trim(G[g], small), text), text)))
    add("neg", "<S>", q(A=6, B=6, O=5))
    add("neg", "<S>", q(A=5, B=4, O=4), opts=dict(focus=["tokens"]))
    add("neg", "<S>", q(A=4, B=4, O=4), opts=dict(consts=False, focus=["chars"]))
    add("neg", "<S>", q(A=4, B=4, O=4), opts=dict(tokens=False, consts=False))
    add("neg", "<S>", q(A=5, B=4, O=4), how="unminify")
    add("neg", "<S>", q(A=4, B=4, O=4), how="none")
    add("expr", "<C>", q(T=8))
    add("expr", "k(<Y>)", q(V=3, O=5, U=4))
    add("stat", "<S>", q(E=6, B=3, T=3))
    add("stat", "<S>", q(E=3, B=2, T=3), how="unminify")
    add("stat", "<S><J><S>", dict(E=1, B=2, T=2, J=6, S=35) if T else dict(E=1, B=1, J=4, S=15), how="minify")
    add("pexpr", "<C>", q(T=4), lang="picotron")
    for seq in (("op", "op", "num"), ("kw", "op", "num"), ("num", "op", "num"), ("name", "op", "num"), ("str", "op", "num"), ("op", "num", "kw"), ("kw", "op", "name")): hs.append(H(token, params={"seq": seq}, bounds="every sequence of %s, with and without space" % (seq,)))
    for n, ch, fast in ((1, None, True), (5, "ab", False), (4, "a-\x80", True)) + (((7, "ab", False), (6, "ab\n", False)) if T else ()):
        hs.append(H(compressed, params={"n": n, "chars": ch, "fast": fast}, bounds="every text of %d characters%s" % (n, " of %r" % ch if ch else "")))
    return hs

TECHNIQUE = "translation validation of the printed counts: programs over a grammar (choices are solver variables) are processed by the real code and counted by an independent lexer; symbolic execution of compress_code for the compressed size"
OUTSIDE = "a sign after nil, true, false or '...'; token counts under --script; '--lint: count::stop'"
ASSUMPTIONS = ["PICO-8's counting rules: ',' '.' ':' ';' '::' closing brackets 'end' 'local' are free, and so is '-' or '~' directly before a number unless a value, ')' ']' '}' ';' or 'end' precedes it"]
META = dict(
    title="The counts reported are those of the cart that is read and written",
    statement="--count reports the tokens of the code that is written - the same number that counting the output afresh by PICO-8's rules gives - and --input-count those of the code that was read; the characters are those of the code, and the compressed bytes what that code takes in a cart. Minifying never increases the number of tokens.",
    over=["inputs"], text="every program of the grammars (signs and numbers in every position, every kind of statement), every short sequence of tokens; every text of the stated length",
    why="The tests compare counts for a few carts; counting depends on neighbouring tokens, and on tokens that the minifier moved, merged or made up.",
    files=["pico_tokenize.py", "pico_process.py", "pico_compress.py", "pico_minify.py"],
    mech=[("token count", "pico_tokenize.py: count_tokens"), ("reporting", "pico_process.py: process_code; pico_compress.py: print_size, write_code_size, write_compressed_size")])
