"""C17: string literals"""
from sym.ctx import H
import pico_process
from pico_process import Source
from pico_output import format_string_literal
from pico_tokenize import parse_string_literal, tokenize, TokenType
from pico_defs import Language
from utils import CheckError

ESC = {"*": 1, "#": 2, "-": 3, "|": 4, "+": 5, "^": 6, "a": 7, "b": 8, "t": 9, "n": 10, "v": 11, "f": 12, "r": 13,
       "\\": 92, '"': 34, "'": 39, "\n": 10}
LUA = {k: v for k, v in ESC.items() if k in "abtnvfr\\\"'\n"}

def hexval(ctx, ch):
    return ctx.ite(ctx.all([ch >= 48, ch <= 57]), ch - 48, ctx.ite(ctx.all([ch >= 97, ch <= 102]), ch - 87, ctx.ite(ctx.all([ch >= 65, ch <= 70]), ch - 55, 99)))

def spec_string(ctx, s, lang, at=0):
    """reads the string literal at the start of s as Lua does -> (bytes/chars, length of the literal), None if malformed"""
    p8 = lang == Language.pico8
    out = []
    def byte(v): out.append(v if p8 else ctx.ite(v < 128, v, v + 0xdc00))
    n = len(s)
    if ctx.fork(s[at] == "["):
        i, eqs = at + 1, 0
        while i < n and ctx.fork(s[i] == "="): i += 1; eqs += 1
        if i >= n or not ctx.fork(s[i] == "["): return None
        i += 1
        if i < n and ctx.fork(s[i] == "\n"): i += 1
        close = "]" + "=" * eqs + "]"
        while True:
            if i + len(close) > n: return None
            if ctx.fork(s[i:i + len(close)] == close): return out, i + len(close)
            out.append(ord(s[i])); i += 1
    quote = '"' if ctx.fork(s[at] == '"') else "'"
    if quote == "'": ctx.assume(s[at] == "'")
    i = at + 1
    while True:
        if i >= n: return None
        if ctx.fork(s[i] == quote): return out, i + 1
        if ctx.fork(s[i] == "\n"): return None
        if not ctx.fork(s[i] == "\\"):
            out.append(ord(s[i])); i += 1
            continue
        i += 1
        if i >= n: return None
        c = s[i]
        table = ESC if p8 else None
        if ctx.fork(c == "z"):
            i += 1
            while i < n and ctx.fork(ctx.any([s[i] == " ", s[i] == "\t", s[i] == "\n", s[i] == "\r"])): i += 1
        elif ctx.fork(c == "x"):
            if i + 2 >= n: return None
            a, b = hexval(ctx, ord(s[i + 1])), hexval(ctx, ord(s[i + 2]))
            if not ctx.fork(ctx.all([a < 16, b < 16])): return None
            byte(a * 16 + b); i += 3
        elif ctx.fork(ctx.all([c >= "0", c <= "9"])):
            v, k = 0, 0
            while k < 3 and i < n and ctx.fork(ctx.all([s[i] >= "0", s[i] <= "9"])):
                v = v * 10 + ord(s[i]) - 48; i += 1; k += 1
            if not ctx.fork(v < 256): return None
            byte(v)
        elif not p8 and ctx.fork(c == "u"):
            i += 1
            if i >= n or not ctx.fork(s[i] == "{"): return None
            i += 1
            v, k = 0, 0
            while True:
                if i >= n: return None
                if ctx.fork(s[i] == "}"): break
                d = hexval(ctx, ord(s[i]))
                if not ctx.fork(d < 16): return None
                v = v * 16 + d; k += 1; i += 1
                if not ctx.fork(v < 2**31): return None
            if not k: return None
            i += 1
            for lim, lead, m in ((0x80, 0, 0), (0x800, 0xc0, 1), (0x10000, 0xe0, 2), (0x200000, 0xf0, 3), (0x4000000, 0xf8, 4), (2**31, 0xfc, 5)):
                if ctx.fork(v < lim):
                    byte(lead + (v >> (6 * m)))
                    for q in reversed(range(m)): byte(0x80 + (v >> (6 * q) & 63))
                    break
        else:
            codes = ESC     # (picotron shares pico8's escapes)
            if not ctx.fork(ctx.any([c == k for k in codes])): return None
            v = 0
            for k, x in codes.items(): v = ctx.ite(c == k, x, v)
            out.append(v); i += 1

def same(ctx, chars, s):
    return len(chars) == len(s) and ctx.all([ctx.eq(a, ord(b)) for a, b in zip(chars, s)])

def write(ctx, pre, n, post, opts, lang, chars):
    """what is written for a string is one literal that stands for that string"""
    lang = getattr(Language, lang)
    v = pre + (ctx.str("s", n, chars=chars) if chars else ctx.str("s", n, 0, 255 if lang == Language.pico8 else 127)) + post
    lit = format_string_literal(v, **opts)
    if opts.get("long") is True and lit is None:
        ctx.cover("no long form")
        return
    r = spec_string(ctx, lit + "]=\"x", lang)
    ctx.check(r is not None, "what is written is not a string literal")
    ctx.check(r[1] == len(lit), "the literal written ends too early or too late")
    ctx.check(same(ctx, r[0], v), "the literal written stands for another string")
    ctx.check(ctx.eq(parse_string_literal(lit, lang), v), "a string is written such that another is read")
    ctx.cover("done")

def read(ctx, pre, n, post, lang, chars):
    """a literal in the source ends where Lua ends it and stands for the string Lua makes of it"""
    lang = getattr(Language, lang)
    s = pre + (ctx.str("s", n, chars=chars) if chars else ctx.str("s", n, 0, 255 if lang == Language.pico8 else 127)) + post
    for i in range(len(s)): ctx.assume(s[i] != "\r")
    want = spec_string(ctx, s, lang)
    if want is None:
        ctx.cover("malformed")
        return
    lit = s[:want[1]]
    toks, errors = tokenize(Source("x", s), lang=lang)
    ctx.check(len(toks) > 0 and toks[0].type == TokenType.string, "a string literal is not taken for one")
    ctx.check(toks[0].idx == 0 and toks[0].endidx == want[1], "a string literal is taken to end elsewhere")
    got = parse_string_literal(lit, lang)
    ctx.check(same(ctx, want[0], got), "a string literal is read as another string")
    ctx.cover("done")

def harnesses(tier):
    T = tier == "thorough"
    hs = []
    S = "\\\"'\n]=0a\x01\0[9\r"
    cases = [("", 1, "", None), ("", 2, "", S), ("a", 1, "7", None), ("", 1, "]", None), ("]", 1, "", None), ("\n", 1, "\n", None)]
    cases += [("", 2, "", None), ("", 3, "", S), ("]", 2, "]", S), ("a", 2, "", "\\0\xe9\u4f60\udc80\udcff1")]
    if T: cases += [("", 3, "", None), ("", 4, "", S), ("]=", 3, "]", S)]
    OPTS = [dict(), dict(long=True), dict(long=False), dict(use_complex_long=False), dict(long=False, quote='"'), dict(long=False, quote="'"), dict(use_ctrl_chars=False)]
    for k, (pre, n, post, ch) in enumerate(cases):
        for opts in OPTS:
            for lang in ("pico8", "picotron") if k < 2 or T else ("picotron",) if ch and "\u4f60" in ch else ("pico8",):
                hs.append(H(write, params={"pre": pre, "n": n, "post": post, "opts": opts, "lang": lang, "chars": ch}, bounds="every string %r + %d characters%s + %r" % (pre, n, " of %r" % ch if ch else "", post)))
    # strings for which the long form is the shorter one
    for pre, n, post, ch in (("\\\\\\\\\\\\\n\n\"'", 2, "", S), ("\n\\\\\\\\\\\\]]", 2, "", "]=\n a"), ("\\\\\\\\\\\\\\\\]=]]]", 2, "", "]=\n a")):
        for opts in OPTS[:2] + OPTS[3:4]:
            hs.append(H(write, params={"pre": pre, "n": n, "post": post, "opts": opts, "lang": "pico8", "chars": ch}, bounds="every string %r + %d characters of %r" % (pre, n, ch)))
    for lang in ("pico8", "picotron"):
        for pre, n, post in (('"\\', 1, '7"'), ('"\\', 2, '"'), ('"a', 2, '"b'), ("'", 2, "\"'\""), ('"\\x', 2, '1"'), ('"\\2', 2, '5"'), ("[[", 2, "]]]"), ("[=[", 2, "]=]"), ("[=", 1, "[a]=]]"), ('"\\z \n', 2, '"')) + (('"\\', 3, '"'), ("[[", 3, "]]"), ('"', 3, '"')) + ((('"\\', 4, '"'), ("[[", 5, "]]"), ('"', 4, '"')) if T else ()):
            ch = None
            if pre in ("[[", "[=["): ch = "]=[\n a"
            elif n >= 2 and lang == "picotron" and not T: ch = "\\\"'\nzx0129aAfFn#*u{ "
            hs.append(H(read, params={"pre": pre, "n": n, "post": post, "lang": lang, "chars": ch}, bounds="every literal %r + %d characters%s + %r" % (pre, n, " of %r" % ch if ch else "", post)))
    for pre, n, post in (('"\\u{', 2, '}"'), ('"\\u{7f', 1, 'f}"'), ('"\\u{', 1, 'ffff}"'), ('"\\u{', 1, 'fffff}"'), ('"\\u{', 1, 'fffffff}"')) + (('"\\u{', 4, '}"'),) + ((('"\\u{', 8, '}"'),) if T else ()):
        hs.append(H(read, params={"pre": pre, "n": n, "post": post, "lang": "picotron", "chars": "0123456789abcdefABCDEF"}, bounds="every escape %r + %d hex digits + %r" % (pre, n, post)))
    return hs

TECHNIQUE = "symbolic execution of the string literal writer, parser and tokenizer on symbolic strings and literals, against an independent reader of Lua literals; z3 decides equality"
OUTSIDE = "carriage returns inside literals of the source (line ends are normalised before); malformed literals (PICO-8 refuses them; shrinko8 accepts some)"
ASSUMPTIONS = ["escapes are Lua 5.4's plus P8SCII's (\\* \\# \\- \\| \\+ \\^)"]
META = dict(
    title="String literals keep their value",
    statement="Whatever string is written - quoted with either quote, or in long brackets, whichever is chosen or shorter - the result is exactly one literal (it ends where it should whatever follows it) that a Lua reader and shrinko8's own parser read as that very string. Every well-formed literal in the source is taken to end where Lua ends it and is read as the string Lua makes of it: letter, decimal, hexadecimal, \\u{} and \\z escapes, line breaks, any level of long brackets.",
    over=["inputs"], text="every string of the stated length, alone and amid characters that interact (brackets, backslashes, digits, quotes, line breaks)",
    why="Minification rewrites every string literal; the interactions (an escape followed by a digit, a string that ends in ']', a leading line break) are met by particular strings only.",
    files=["pico_output.py", "pico_tokenize.py"],
    mech=[("string writer", "pico_output.py: format_string_literal, get_long_brackets_equals"), ("string parser", "pico_tokenize.py: parse_string_literal, parse_char_escape"), ("tokenizer", "pico_tokenize.py: tokenize (tokenize_string, tokenize_long_string)")])
