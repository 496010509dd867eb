"""C04: code text survives the source formats and the charset conversion"""
from sym.ctx import H
import pico_process
from pico_cart import *
from pico_defs import *
from utils import *

def conv(ctx, n, unicaps):
    """any p8 string -> unicode -> p8 string"""
    s = ctx.str("s", n, 0, 255)
    u = from_p8str(s, unicaps=unicaps)
    ctx.check(ctx.eq(to_p8str(u), s), "a pico8 string changed by conversion to unicode and back")
    b = encode_p8str(s)
    ctx.check(len(b) == n and ctx.eq(decode_p8str(b), s), "a pico8 string changed by conversion to bytes and back")
    ctx.cover("done")

def around(ctx):
    """a symbol amid others: variation selectors do not swallow neighbours"""
    pre = ctx.choice("pre", ["", "a", "\x83", "\x81", "\x8e", "\xff"])
    post = ctx.choice("post", ["", "a", "\x83", "\x81", "\x97", "\xff"])
    s = pre + ctx.str("s", 1, 0, 255) + post
    for caps in (False, True):
        ctx.check(ctx.eq(to_p8str(from_p8str(s, unicaps=caps)), s), "a pico8 string changed by conversion to unicode and back")
    ctx.cover("done")

def foreign(ctx, lo, hi):
    """unicode chars pico8 does not know come in as their utf-8 bytes; ascii as itself"""
    n = ctx.int("n", lo, hi)
    c = chr(n)
    r = to_p8str("x" + c + "y")
    ctx.check(ctx.eq(r[0], "x") and ctx.eq(r[-1], "y"), "neighbours of a char changed")
    mid = r[1:-1]
    if n < 0x80: want = [n]
    elif n < 0x800: want = [0xc0 | n >> 6, 0x80 | n & 63]
    elif n < 0x10000: want = [0xe0 | n >> 12, 0x80 | (n >> 6) & 63, 0x80 | n & 63]
    else: want = [0xf0 | n >> 18, 0x80 | (n >> 12) & 63, 0x80 | (n >> 6) & 63, 0x80 | n & 63]
    if len(mid) == 1:
        i = ord(mid)
        # a char of the charset (or its italic capital)
        ok = ctx.any([ctx.all([ctx.eq(i, j), ctx.eq(n, ord(k_charset[j]))]) for j in range(256) if len(k_charset[j]) == 1])
        caps = ctx.all([n >= 0x1d622, n <= 0x1d63b, ctx.eq(i, n - 0x1d622 + 65)])
        ctx.check(ctx.ite(n < 0x80, ctx.eq(i, n), ctx.any([ok, caps])), "a unicode char is read as another pico8 char")
        ctx.cover("known")
    else:
        ctx.check(len(mid) == len(want) and ctx.all([ctx.eq(ord(m), w) for m, w in zip(mid, want)]), "an unknown char is not read as its bytes")
        ctx.check(ctx.all([ctx.implies(len(k_charset[j]) == 1, ctx.eq(n, ord(k_charset[j])) == False) for j in range(128, 256) if len(k_charset[j]) == 1]), "a known char is read as bytes")
        ctx.cover("unknown")

def source(ctx, n, fmt, pre, post, chars):
    """code in a .p8 or .lua file comes back the same"""
    s = ctx.str("s", n, chars=chars) if chars else ctx.str("s", n, 1, 255)
    # (line ends are normalized, so carriage returns before one are outside of the property)
    for i in range(n): ctx.assume(ctx.eq(s[i], "\r") == False)
    if n == 2 and not pre: ctx.assume(ctx.eq(s, "__") == False)   # (a section header)
    code = pre + s + post
    cart = Cart(code=code)
    for caps in (False, True):
        if fmt == "p8": back = read_cart_from_source(write_cart_to_source(cart, unicode_caps=caps))
        elif fmt == "code": back = read_cart_from_source(write_cart_to_raw_source(cart, with_header=True, unicode_caps=caps))
        else: back = read_cart_from_source(write_cart_to_raw_source(cart, unicode_caps=caps), raw=True)
        want = code
        if fmt != "p8" and len(code) and ctx.eq(code[-1], "\n"):
            want = code[:-1]    # the last line end of a file is no line of its own
        if fmt != "p8":
            ctx.check(ctx.any([ctx.eq(back.code, code), ctx.eq(back.code, want)]), "code changed by writing and reading a .lua")
        else: ctx.check(ctx.eq(back.code, want), "code changed by writing and reading a .p8")
    ctx.cover("done")

def harnesses(tier):
    T = tier == "thorough"
    hs = []
    for caps in (False, True): hs.append(H(conv, params={"n": 3 if T else 2, "unicaps": caps}, bounds="all pico8 strings of that length"))
    hs.append(H(around, bounds="all chars between 6x6 neighbours"))
    for lo, hi in ((1, 0x7f), (0x80, 0x7ff), (0x800, 0x2fff), (0x3000, 0xd7ff), (0xe000, 0xffff), (0x10000, 0x10ffff)):
        hs.append(H(foreign, params={"lo": lo, "hi": hi}, bounds="every code point in the range"))
    for fmt in ("p8", "lua", "code"):
        hs.append(H(source, params={"fmt": fmt, "n": 2, "pre": "", "post": "", "chars": None}, bounds="all code of 2 chars but \\r and NUL"))
        hs.append(H(source, params={"fmt": fmt, "n": 4 if T else 3, "pre": "x=1\n", "post": "\ny=2", "chars": "a\n [-\"#\\"}, bounds="all lines over 8 chars"))
        hs.append(H(source, params={"fmt": fmt, "n": 1, "pre": "a\"\x80\x97", "post": "\xe3\"", "chars": None}, bounds="every char"))
        hs.append(H(source, params={"fmt": fmt, "n": 2, "pre": "[[", "post": "]]--[[z", "chars": "a\n]=["}, bounds="all over 5 chars"))
    return hs

TECHNIQUE = "symbolic execution of the charset tables and the source writer/reader on symbolic text; z3 decides equality"
OUTSIDE = "longer symbolic texts; carriage returns, NUL chars, and code lines that are themselves section headers (__x__) or #include directives"
ASSUMPTIONS = []
META = dict(
    title="Code text survives the source formats and the PICO-8 charset conversion",
    statement="Any PICO-8 string is unchanged by conversion to unicode (with or without the italic capitals) and back, and by conversion to bytes and back; unicode characters PICO-8 does not know are read as their UTF-8 bytes, without disturbing their neighbours. Code written to a .p8 or .lua source file reads back as the same code (apart from line-end normalization).",
    over=["inputs"], text="every PICO-8 string and every unicode code point",
    why="The tests print a fixed sample of symbols; the 256-entry table, its two-codepoint entries and every unknown code point are only exercised by specific chars.",
    files=["pico_defs.py", "pico_cart.py", "pico_preprocess.py"], mech=[("charset", "pico_defs.py: k_charset, to_p8str, from_p8str"), ("source writer and reader", "pico_cart.py: write_cart_to_source, write_cart_to_raw_source, read_cart_from_source"), ("include/preprocess scan", "pico_preprocess.py: preprocess_code")])
