"""C16: tokens survive tokenizing, whitespace removal and layout options"""
from sym.ctx import H
from props import prog
import lua
import pico_process
from pico_process import Source, PicoContext
from picotron_defs import PicotronContext
from pico_tokenize import tokenize, TokenType, k_skip_children
from pico_parse import Node, NodeType
from pico_output import output_node
from pico_defs import Language

KIND = {TokenType.number: "num", TokenType.string: "str", TokenType.ident: "name", TokenType.keyword: "kw", TokenType.punct: "op"}

def spec(ctx, text, lang):
    """[(kind, text)] by the independent lexer; None: malformed"""
    try: toks = lua.lex(text, lang)[:-1]
    except lua.Bad: return None
    out = []
    for t in toks:
        raw = text[t[3]:t[4]]
        if t[0] == "num":
            try: lua.number_shape(raw, lang)
            except lua.Bad: return None
        out.append((t[0], raw))
    return out

def same(ctx, a, b):
    return ctx.all([len(a) == len(b)] + [ctx.all([x[0] == y[0], len(x[1]) == len(y[1]), x[1] == y[1]]) for x, y in zip(a, b)])

def layout(ctx, pre, n, post, chars, lang, opts):
    """a text of tokens: read as they are, written with the layout options, still the same tokens"""
    src = pre + ctx.str("s", n, chars=chars) + post
    ctx.observe("source", src)
    want = spec(ctx, src, lang)
    if want is None:
        ctx.cover("malformed")
        return
    c = PicoContext() if lang == "pico8" else PicotronContext()
    toks, errors = tokenize(Source("main", src), c, all_comments=not opts["comments"])
    ctx.check(not errors, "valid tokens are refused")
    toks = [t for t in toks if t.type is not None] if False else toks
    got = [(KIND[t.type], t.value) for t in toks if t.value is not None]
    ctx.check(same(ctx, got, want), "the text is split into other tokens")
    out = output_node(Node(NodeType.block, toks), c, None, opts["wspace"], opts["lines"], opts["comments"])
    ctx.observe("output", out)
    again = spec(ctx, out, lang)
    ctx.check(again is not None, "the output is malformed")
    ctx.check(same(ctx, again, want), "the output has other tokens")
    if opts["wspace"] and opts["lines"] and opts["comments"]:
        ctx.check(len(out) <= len(src), "the output is longer")

LAY = {
    "W": [" ", "\n", "--c\n", "--[[c]]", "--[[c\nd]]", "//e\n", " --[=[]]]=] ", "\n\n  ", "\t--[[x]]--]]\n"],
    "V": [" ", "\n", "--c\n", "--[[c\nd]]"],
    "P": ["if<W>(c)<W>then<W>a()<W>end<W>b()", "if (c) a()<V>\n<W>b()", "while(c)do<W>a()<W>break<W>end<W>b()", "x=1<W>y=f<W>\n(g)()", "if(c)then<W>a()<W>else<W>b()<W>end", "local<W>x<W>=<W>1<W>local<W>y=2",
          "f(1,<W>2)<W>g{<W>3,<W>4<W>}", "if (c) if (d) a()<V>\n<W>b()", "x=function()<W>a()<W>end<W>;(g)()", "if (c) a{<V>}<V>\nb()", "if(c)then<W>x='s'<W>end<W>y=[[\n]]<W>z=x..<W>y", "?<V>1,2<V>\nb()",
          "while c do<W>x=f<W>'s'<W>break end", "for i=1,2<W>do<W>a()<W>end<W>return<W>x", "repeat<W>a()<W>until<W>c<W>b()", "if c then<W>a() end b()<W>if c then b()<W>end", "if (c) a()--f\nb()", "if (c) a() --[[f]] b()<W>b()"],
}
ON = dict(wspace=True, lines=True, comments=True)
OPTS = [dict(ON), dict(ON, lines=False), dict(ON, wspace=False), dict(ON, wspace=False, lines=False), dict(ON, comments=False), dict(ON, wspace=False, comments=False), dict(ON, lines=False, comments=False), dict(wspace=False, lines=False, comments=False)]

def program(ctx, text, opts, focus, lang="pico8", small=None, kw={}):
    """comments and line breaks anywhere between the tokens make no difference"""
    src = prog.expand(ctx, prog.trim(LAY, small), text)
    if lang == "picotron" and "//" in src: return
    prog.validate(ctx, src, lang=lang, tree=True, reorder=False, consts=False, focus=focus, **dict(opts, **kw))

SYM = "-[]=.0x1a>~< \n"

def harnesses(tier):
    hs = []
    T = tier == "thorough"
    for lang in ("pico8", "picotron"):
        for opts in OPTS[:1] + (OPTS[1:4] + OPTS[4:5] if T or lang == "pico8" else []):
            for pre, n, post, ch in (("", 3, "", SYM), ("a", 2, " b", SYM + "\"'"), ("1 ", 2, "\n[", "-[]=.0xb1ae_ +"), ("x ", 1, " = ", None), ("", 1, " .5", None), ("0", 2, " 1", "xb.1fe+ -"), ("0x", 2, "-1", "e.pP1+ "), ("1", 2, "+1", "eEpx.- "), ("a ", 2, " [[b]]", "[=-.'"), ("x=1 ", 1, "", None),
                                     ("-", 2, "-1", "- [\n~"), ("--", 3, "a", "[=]\n -"), ("f", 3, "b", "[=]\"' a\\")) + ((("", 4, "", SYM), ("a --", 4, "b", "[]=-\n "), ("", 2, "", None), ("1", 3, "1", "-[]=.0x1ae ~")) if T else ()):
                if n == 3 and not pre and not T and opts not in (OPTS[0], OPTS[4]): continue
                hs.append(H(layout, params={"pre": pre, "n": n, "post": post, "chars": ch, "lang": lang, "opts": opts}, bounds="every text %r + %d characters%s + %r" % (pre, n, " of %r" % ch if ch else "", post)))
    for i, opts in enumerate(OPTS):
        small = None if T else dict(W=4, V=4) if i in (0, 4) else dict(W=3, V=3)
        hs.append(H(program, params={"text": "<P>", "opts": opts, "focus": ["chars"] if i % 2 == 0 else ["compressed"], "small": small}, bounds="%d programs with line breaks and comments between tokens" % prog.count(prog.trim(LAY, small), "<P>")))
    for opts in OPTS[:1] + OPTS[4:6]:
        small = dict(W=3, V=3) if not T else dict(W=5)
        hs.append(H(program, params={"text": "<P>", "opts": opts, "focus": [], "small": small, "lang": "picotron"}, bounds="%d programs with line breaks and comments between tokens" % prog.count(prog.trim(LAY, small), "<P>")))
    return hs

TECHNIQUE = "symbolic execution of the tokenizer and the writer on symbolic text, against an independent lexer (z3 decides that the tokens are equal); translation validation of programs whose comments and line breaks are solver variables"
OUTSIDE = "malformed tokens; \\r and NUL in the source; comments that are hints for shrinko8"
ASSUMPTIONS = ["lexical rules of Lua 5.2/5.4 and PICO-8 (numbers end where z8lua ends them)"]
META = dict(
    title="Whitespace, comments and line breaks are only removed where they do not matter",
    statement="The source is split into exactly the tokens the language defines, and whatever layout options are in effect (spaces, line breaks and comments removed or kept, long comments instead of line comments), the written text splits into the same tokens in the same order and forms the same program: no two tokens fuse, no comment swallows code, no short-hand loses or gains what follows it.",
    over=["inputs"], text="every text of the stated length over all characters or an alphabet of interacting ones; every placement of comments and breaks in the grammar's programs",
    why="The tests compare the output for a few files; fusing tokens need particular neighbours (1 and .., - and -, [ and [, 0 and x) that those files do not have.",
    files=["pico_tokenize.py", "pico_output.py"],
    mech=[("tokenizer", "pico_tokenize.py: tokenize"), ("whitespace", "pico_output.py: output_node, need_whitespace_between, get_orig_wspace")])
