"""C02: the old (:c:) code compression is lossless and never emits a match the format cannot hold"""
from sym.ctx import H
import pico_process
import pico_compress as pc
from pico_compress import compress_code, uncompress_code, get_compressed_size, Lz77Entry
from pico_defs import *
from utils import BinaryReader, BinaryWriter, BytesIO
import c01

def literals(ctx, fast):
    c01.roundtrip(ctx, ctx.str("a", 2, 1, 255), old_compress=True, fast_compress=fast)

def text(ctx, n, fast):
    """any string of n chars: every repetition pattern"""
    c01.roundtrip(ctx, ctx.str("code", n, 1, 255), old_compress=True, fast_compress=fast)

def alphabet(ctx, n, chars, fast):
    c01.roundtrip(ctx, ctx.str("code", n, chars=chars), old_compress=True, fast_compress=fast)

def long(ctx, kind, fast):
    s = ctx.str("s", 2, chars="ab\xf3")
    if kind == "runs": code = "a" * 40 + s + "a" * 30 + s + "ab" * 20
    elif kind == "words": code = "function f(a,b)\n return a+b\nend\n" * 3 + s + "function g(a,b) return a end" + s
    elif kind == "noise": code = c01.noise(70, 1) + s + c01.noise(30, 2)
    else:  # repeats near the largest distance
        d = ctx.int("d", 0xc3f - 3, 0xc3f + 3)
        d = ctx.concretize(d)
        code = "abcdefgh" + s + c01.noise(d - 10, 7) + "abcdefgh" + s
    c01.roundtrip(ctx, code, old_compress=True, fast_compress=fast)

def crowded(ctx, ch, k, fast):
    """more repeats of a sequence than are kept in a plain list"""
    s = ctx.str("s", k, chars=ch + "~")
    code = "QWE" + ch + "b" + "".join(ch * 4 + chr(40 + i % 20) + chr(48 + i // 20) for i in range(240)) + "QWE" + s + "!"
    c01.roundtrip(ctx, code, old_compress=True, fast_compress=fast)

def one_match(ctx, plen):
    """every offset and count the format can hold"""
    p = c01.prefix(plen, 64 if plen < 2000 else 512)
    off = ctx.int("off", 3, min(plen, 0xc3f))
    count = ctx.int("count", 3, 0x11)
    ctx.assume(count <= off)
    n = ctx.concretize(count)
    out = list(p)
    for _ in range(n): out.append(out[len(out) - off])
    code = "".join(out) + "Z"
    items = [(i, c) for i, c in enumerate(p)] + [(plen, Lz77Entry(off, count)), (plen + n, "Z")]
    old = getattr(pc, "get_lz77", None)
    if old is None: return
    pc.get_lz77 = lambda *a, **k: iter(items)
    try: data = c01.pack(code, old_compress=True)
    finally: pc.get_lz77 = old
    back = uncompress_code(BinaryReader(BytesIO(data)))
    ctx.check(ctx.eq(back, code), "a valid sequence of literals and matches is decoded differently")
    ctx.cover("done")

def harnesses(tier):
    T = tier == "thorough"
    hs = []
    for fast in (False, True):
        hs.append(H(literals, params={"fast": fast}, bounds="all pairs of chars 1..255"))
        hs.append(H(text, params={"n": 6 if T else 5, "fast": fast}, bounds="all strings of that many chars 1..255"))
        hs.append(H(alphabet, params={"n": 10 if T else 8, "chars": "a\xf3", "fast": fast}, bounds="all strings of that length"))
        for kind in ("runs", "words", "noise", "far"):
            hs.append(H(long, params={"kind": kind, "fast": fast}, bounds="concrete text around 2x2 symbolic chars (3 letters each)"))
        for ch in "aA" if T else "A": hs.append(H(crowded, params={"ch": ch, "k": 8 if T else 5, "fast": fast}, bounds="over 240 repeats, then all strings of that length over 2 letters"))
    hs.append(H(one_match, params={"plen": 60}, bounds="every offset 3..60, every count 3..17 not above it"))
    hs.append(H(one_match, params={"plen": 3140}, bounds="every offset 3..3135, every count 3..17 not above it"))
    return hs

TECHNIQUE = "symbolic execution of compress_code (old format) and uncompress_code on symbolic text and symbolic match items; z3 decides equality of the decoded text"
OUTSIDE = "longer symbolic texts (concrete long texts are explored around 2 symbolic chars); NUL chars, which the stored form cannot represent"
ASSUMPTIONS = []
META = dict(
    title="Compressing code in the old format is lossless",
    statement="Code compressed into a cart with the old (:c:) format decompresses to exactly the same text, whether or not anything follows it in the file. The compressor only emits matches the format can hold (bounded offset and length, no self-overlap) and escapes every char outside of the format's table.",
    over=["inputs"], text="every code text (all chars but NUL), every match offset and length the format can hold",
    why="The tests use the old format for a couple of carts; the escape of each char and every offset/length combination is only reached by specific texts.",
    files=["pico_compress.py"], mech=[("old-format writer and reader", "pico_compress.py: compress_code, uncompress_code"), ("lz77 parse with no_repeat", "pico_compress.py: get_lz77")])
