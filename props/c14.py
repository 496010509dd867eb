"""C14: number literals"""
from sym.ctx import H
import pico_process
from pico_output import format_fixnum, format_luanum
from pico_tokenize import parse_fixnum, parse_luanum
from utils import CheckError

def digit_of(ctx, ch):
    return ctx.ite(ctx.all([ch >= 48, ch <= 57]), ch - 48, ctx.ite(ctx.all([ch >= 97, ch <= 102]), ch - 87, ctx.ite(ctx.all([ch >= 65, ch <= 70]), ch - 55, 99)))

def base_of(ctx, s):
    if len(s) >= 2 and ctx.fork(s[0] == "0"):
        if ctx.fork(ctx.any([s[1] == "x", s[1] == "X"])): return 16, 2
        elif ctx.fork(ctx.any([s[1] == "b", s[1] == "B"])): return 2, 2
    return 10, 0

def spec_fixnum(ctx, s):
    """the value of a pico8 number literal (without exponents), exactly: rounded towards 0; None if not a literal"""
    base, at = base_of(ctx, s)
    num, den, dot, digits = 0, 1, False, 0
    for i in range(at, len(s)):
        ch = ord(s[i])
        if ctx.fork(s[i] == "."):
            if dot: return None
            dot = True
            continue
        d = digit_of(ctx, ch)
        if not ctx.fork(d < base): return None
        num = num * base + d
        if dot: den = den * base
        digits = digits + 1
    return (num * 65536 // den) % 2**32

def fixnum(ctx, lo, hi, frac, base):
    """what is written for a number is read as that number"""
    i = ctx.int("i", lo, hi)
    f = ctx.choice("f", frac) if isinstance(frac, list) else ctx.int("f", frac[0], frac[1])
    v = i << 16 | f
    s = format_fixnum(v, base=base)
    back = parse_fixnum(s)
    ctx.check(back == v, "a number is written such that another is read")
    t, neg = s, None
    if ctx.fork(ctx.any([s[0] == "-", s[0] == "~"])):
        neg = ctx.fork(s[0] == "-")
        t = s[1:]
    want = spec_fixnum(ctx, t)
    ctx.check(want is not None, "what is written is not a number literal")
    if neg is not None: want = (-want if neg else -want - 1) % 2**32
    ctx.check(want == v, "what is written stands for another number")
    ctx.cover("done")

def signed_fixnum(ctx, lo, hi, frac, sign, base):
    """a number with a forced sign: the sign applied to the rest gives the number"""
    i = ctx.int("i", lo, hi)
    v = i << 16 | ctx.choice("f", frac)
    s = format_fixnum(v, sign=sign, base=base)
    ctx.check(s[0] == sign, "the sign is not written")
    want = spec_fixnum(ctx, s[1:])
    ctx.check(want is not None, "what is written is not a number literal")
    ctx.check((-want if sign == "-" else -want - 1) % 2**32 == v, "what is written stands for another number")
    ctx.cover("done")

CHARS = "0123456789abcdefABCDEFxX._g"

def read_fixnum(ctx, pre, n, post="", chars=CHARS):
    """a literal in the source has the value PICO-8 gives it, or is refused"""
    s = pre + ctx.str("s", n, chars=chars) + post
    want = spec_fixnum(ctx, s)
    try: got = parse_fixnum(s)
    except CheckError:
        ctx.check(want is None, "a number is refused")
        ctx.cover("refused")
        return
    ctx.check(want is not None, "something that is no number is read as one")
    ctx.check(got == want, "a number is read with another value")
    ctx.cover("read")

def spec_luaint(ctx, s):
    """the value of a picotron integer literal, None if it is none, 'float' if it is a float's"""
    base, at = base_of(ctx, s)
    if at == len(s): return None
    num = 0
    for i in range(at, len(s)):
        d = digit_of(ctx, ord(s[i]))
        if not ctx.fork(d < base): return None
        num = num * base + d
    if base == 10:
        return num if ctx.fork(num < 2**63) else "float"
    num = num % 2**64
    return ctx.ite(num >= 2**63, num - 2**64, num)

def luaint(ctx, lo, hi, base, allow_not):
    """what is written for a picotron integer is read as that integer (parentheses and operators aside)"""
    v = ctx.int("v", lo, hi)
    s = format_luanum(v, base=base, allow_not=allow_not)
    neg, t = None, s
    if ctx.fork(ctx.any([s[0] == "-", s[0] == "~"])):
        neg = ctx.fork(s[0] == "-")
        t = s[1:]
        if not allow_not: ctx.check(neg, "a bitwise not where there must be none")
    want = spec_luaint(ctx, t)
    ctx.check(want is not None and not isinstance(want, str), "what is written is no integer literal")
    if neg is not None: want = -want if neg else -want - 1
    ctx.check((want - v) % 2**64 == 0, "what is written stands for another integer")
    if neg is not False:
        got = parse_luanum(s)
        ctx.check(isinstance(got, int), "what is written is not read as an integer")
        ctx.check((got - v) % 2**64 == 0, "an integer is written such that another is read")
    ctx.cover("done")

def read_luaint(ctx, pre, n, post="", chars="0123456789abcdfABCDFxX_g"):
    """an integer literal in picotron source has the value Lua gives it, or is refused"""
    s = pre + ctx.str("s", n, chars=chars) + post
    want = spec_luaint(ctx, s)
    try: got = parse_luanum(s)
    except CheckError:
        ctx.check(want is None, "a number is refused")
        ctx.cover("refused")
        return
    ctx.check(want is not None, "something that is no number is read as one")
    if isinstance(want, str):
        ctx.check(isinstance(got, float), "a number too large for an integer is read as one")
    else:
        ctx.check(isinstance(got, int), "an integer is read as something else")
        ctx.check(got == want, "an integer is read with another value")
    ctx.cover("read")

def harnesses(tier):
    T = tier == "thorough"
    hs = []
    for base in (None, 10, 16):
        hs.append(H(fixnum, params={"lo": 0, "hi": 0xffff, "frac": [0], "base": base}, bounds="every whole number"))
        fr = [(0, 255), (0x7fc0, 0x8040), (0xff80, 0xffff)] if not T else [(a, a + 0xfff) for a in range(0, 65536, 4096)]
        if base == 16: fr = [(0, 65535)]
        for a, b in fr:
            hs.append(H(fixnum, params={"lo": 0, "hi": 0, "frac": (a, b), "base": base}, bounds="every fraction from %d/65536 to %d/65536" % (a, b)))
        if base == 16 or T:
            hs.append(H(fixnum, params={"lo": 0, "hi": 0xffff, "frac": [1, 0x4321, 0x8000, 0xffff], "base": base}, bounds="every whole number with a few fractions"))
        else:
            for lo, hi in ((0x7ff8, 0x8008), (0xfff0, 0xffff), (0, 15), (9996, 10003)):
                hs.append(H(fixnum, params={"lo": lo, "hi": hi, "frac": [1, 0x4321, 0x8000, 0xffff], "base": base}, bounds="whole numbers near a boundary, with a few fractions"))
        for sign in "-~" if T or base == 16 else "-":
            hs.append(H(signed_fixnum, params={"lo": 0, "hi": 0xffff, "frac": [0] if base != 16 else [0, 1, 0x8000, 0xffff], "sign": sign, "base": base}, bounds="every whole number"))
    for pre, n in (("", 1), ("", 2), ("", 3), ("0x", 3), ("0b", 3), ("0X1.", 2), ("12345", 1), ("1.", 3), ("0xfff", 2), (".", 2)) + ((("", 4), ("", 5), ("0x", 6), ("1.", 5), ("9999", 3)) if T else ()):
        hs.append(H(read_fixnum, params={"pre": pre, "n": n}, bounds="every literal %s + %d characters of [0-9a-fA-FxX._g]" % (pre, n)))
    # digits only: longer
    for pre, n, post in (("", 5, ""), ("3276", 1, ".5"), ("0.", 4, "")) + ((("", 4, ".25"), ("0.", 6, "")) if T else ()):
        hs.append(H(read_fixnum, params={"pre": pre, "n": n, "post": post, "chars": "0123456789"}, bounds="every decimal literal %s + %d digits + %s" % (pre, n, post)))
    for an in (True, False):
        B = [(0, 99999), (-99999, 0), (2**63 - 64, 2**63 - 1), (-2**63, -2**63 + 64)] + ([(0, 2**34), (-2**34, 0)] if T else [])
        for lo, hi in B:
            hs.append(H(luaint, params={"lo": lo, "hi": hi, "base": None, "allow_not": an}, bounds="every integer %d..%d" % (lo, hi)))
        for lo, hi in [(0, 2**63 - 1), (-2**63, -1)]:
            hs.append(H(luaint, params={"lo": lo, "hi": hi, "base": 16, "allow_not": an}, bounds="every integer %d..%d" % (lo, hi)))
    for pre, n in (("", 1), ("", 2), ("", 3), ("0x", 3), ("0b", 3), ("0xfffffffffffffff", 2), ("922337203685477580", 2), ("0x7ffffffffffffff", 1), ("0b1", 2), ("1844674407370955161", 2)) + ((("", 5), ("0x", 6), ("0x12345678", 6)) if T else ()):
        hs.append(H(read_luaint, params={"pre": pre, "n": n}, bounds="every literal %s + %d characters of [0-9a-dfA-DFxX_g]" % (pre, n)))
    for pre, n in (("922337203685477580", 1), ("92233720368547758", 2), ("", 4), ("0", 3), ("184467440737095516", 2)):
        hs.append(H(read_luaint, params={"pre": pre, "n": n, "chars": "0123456789"}, bounds="every literal %s + %d digits" % (pre, n)))
    return hs

TECHNIQUE = "symbolic execution of the number writers and parsers on symbolic numbers and literals against an independent exact reading of literals; z3 decides equality"
OUTSIDE = "picotron float literals (their text comes from the C library's formatting); literals with exponents; decimal fractions with a symbolic whole part (a few fractions with every whole part instead)"
ASSUMPTIONS = ["a PICO-8 literal's value is its exact value times 65536 rounded towards zero, modulo 2**32"]
META = dict(
    title="Number literals keep their value",
    statement="Every 16.16 fixed-point number is written - in decimal, in hexadecimal or in whichever is shorter, with a minus or a bitwise not where that is shorter - as a literal that stands for exactly that number, and every Picotron integer likewise; every literal in the source is read with exactly the value PICO-8 (value times 65536 rounded towards zero, modulo 2^32) or Picotron (64-bit wrap-around for hexadecimal and binary, float beyond 63 bits for decimal) gives it, or is refused when it is none.",
    over=["inputs"], text="every fixed-point number and 64-bit integer; every literal up to the stated length",
    why="Minification rewrites every number in a cart; tests look at a few dozen of the 2^32 values, and one wrong digit silently changes the program.",
    files=["pico_output.py", "pico_tokenize.py", "pico_defs.py"],
    mech=[("number writer", "pico_output.py: format_fixnum, format_luanum, float_str_minify"), ("number parser", "pico_tokenize.py: parse_fixnum, parse_luanum"), ("conversions", "pico_defs.py: num_to_fixnum, num_to_luaint")])
