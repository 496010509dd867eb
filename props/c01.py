"""C01: the new (pxa) code compression is lossless; the lz77 parse it relies on is valid"""
from sym.ctx import H
import pico_process
import pico_compress as pc
from pico_compress import compress_code, uncompress_code, get_compressed_size, Lz77Entry
from pico_defs import *
from utils import BinaryReader, BinaryWriter, BytesIO

def pack(code, **opts):
    f = BytesIO()
    w = BinaryWriter(f)
    compress_code(w, code, force_compress=True, **opts)
    return f.getvalue()

def roundtrip(ctx, code, tail=b"", **opts):
    data = pack(code, **opts)
    ctx.check(len(data) <= k_code_size, "compressed code is larger than the space for it")
    back = uncompress_code(BinaryReader(BytesIO(data + tail)))
    ctx.check(ctx.eq(back, code), "code changed by compressing and decompressing")
    n = get_compressed_size(BinaryReader(BytesIO(data + tail + bytes(4))))
    # (the old format may be followed by a terminator, which counts or not)
    ctx.check(ctx.eq(n, len(data)) if not opts.get("old_compress") else len(data) <= n and n <= len(data) + 2, "compressed size is not the size reported")
    ctx.cover("done")
    return data

def literals(ctx, fast):
    """one char of any value, then one of a few relevant ones"""
    a = ctx.str("a", 1, 1, 255)
    b = ctx.choice("b", ["", "same", "\1", "\x0f", "\x10", "\x11", "\x2f", "\x30", "\xff"])
    if b == "same": b = a
    roundtrip(ctx, a + b, fast_compress=fast)

def alphabet(ctx, n, chars, fast):
    """every string of n chars over a small alphabet"""
    code = ctx.str("code", n, chars=chars)
    roundtrip(ctx, code, fast_compress=fast)

def prefix(n, seg=64):
    return "".join(chr(1 + (i // seg * 7 + (i // 8 % 2 if n < 2000 else 0)) % 255) for i in range(n))

def stub_items(items):
    def stub(code, *a, **k):
        # (the literal-block heuristic also asks for a parse: give it none)
        if "litblock_idxs" in k or k.get("fast_c") == 16 or k.get("max_c", 0) is None:
            return iter(items)
        return iter(())
    return stub

def run_items(ctx, items, code, **opts):
    old = getattr(pc, "get_lz77", None)
    if old is None: return
    pc.get_lz77 = stub_items(items)
    try: data = pack(code, fail_on_error=False, **opts)
    finally: pc.get_lz77 = old
    back = uncompress_code(BinaryReader(BytesIO(data)))
    ctx.check(ctx.eq(back, code), "a valid sequence of literals, matches and literal blocks is decoded differently")
    ctx.cover("done")

def one_match(ctx, plen, maxo, counts):
    """a literal block, a match of symbolic offset and count, a literal"""
    p = prefix(plen, 64 if plen < 2000 else 2048)
    off = ctx.int("off", 1, min(plen, maxo))
    count = ctx.choice("count", counts)
    out = list(p)
    for _ in range(count): out.append(out[len(out) - off])
    run_items(ctx, [(0, p), (plen, Lz77Entry(off, count)), (plen + count, "Z")], "".join(out) + "Z")

def any_count(ctx, offs, maxc):
    """a match of any count at a few offsets of each size"""
    p = prefix(max(offs) + 5)
    off = ctx.choice("off", offs)
    count = ctx.int("count", 3, maxc)
    n = ctx.concretize(count)
    out = list(p)
    for _ in range(n): out.append(out[len(out) - off])
    run_items(ctx, [(0, p), (len(p), Lz77Entry(off, count)), (len(p) + n, "Z")], "".join(out) + "Z")

def two_items(ctx):
    """matches and literals after one another, with symbolic contents"""
    p = ctx.str("p", 6, 1, 255)
    k1, k2 = ctx.choice("k1", ["m", "b"]), ctx.choice("k2", ["m", "b"])
    out = list(p)
    items = [(0, p)]
    for j, k in enumerate((k1, k2)):
        if k == "m":
            off = ctx.int("off%d" % j, 1, len(out))
            count = 3 + j
            items.append((len(out), Lz77Entry(off, count)))
            for _ in range(count): out.append(out[len(out) - off])
        else:
            s = ctx.str("s%d" % j, 3, 1, 255)
            items.append((len(out), s))
            out += list(s)
    run_items(ctx, items, "".join(out))

def check_parse(ctx, code, items, min_c, max_c, max_o, no_repeat, blocks=False):
    """the items spell out the code and respect the limits"""
    pos = 0
    for i, item in items:
        ctx.check(ctx.eq(i, pos), "item at a wrong position")
        if isinstance(item, Lz77Entry):
            o, c = item.offset, item.count
            ctx.check(o >= 1 and o <= pos, "match refers outside of the preceding code")
            ctx.check(c >= min_c and (max_c is None or c <= max_c), "match count out of limits")
            ctx.check(max_o is None or o <= max_o, "match offset out of limits")
            ctx.check(not no_repeat or c <= o, "match overlaps itself")
            ctx.check(pos + c <= len(code), "match exceeds the code")
            for k in range(c):
                ctx.check(ctx.eq(code[pos + k], code[pos + k - o]), "match copies different text")
            ctx.cover("match")
            pos += c
        else:
            t = item if len(item) else item
            ctx.check(ctx.eq(code[pos:pos + len(t)], t), "literal differs from the code")
            pos += len(t)
    ctx.check(pos == len(code), "the items do not cover the code")

def parse(ctx, n, variant):
    code = ctx.str("code", n, 1, 255)
    v = dict(
        plain=dict(min_c=3, max_c=None),
        maxc=dict(min_c=2, max_c=3, max_o=5),
        norep=dict(min_c=2, max_c=4, max_o=4, no_repeat=True),
        norepm=dict(min_c=2, max_c=3, max_o=3, no_repeat=True, measure=lambda c, it: (2 if isinstance(it, Lz77Entry) else 1, c)),
        meas=dict(min_c=2, max_c=None, measure=lambda c, it: (3 + (it.offset > 2) if isinstance(it, Lz77Entry) else 2, c),
                  min_cost=lambda d: max(d - 3, 0), get_cheaper_c=lambda c: c - 1, max_o_steps=(2,)),
        fast=dict(min_c=2, max_c=None, fast_c=3),
    )[variant]
    items = pc.get_lz77(code, **v)
    check_parse(ctx, code, items, v["min_c"], v.get("max_c", 0x7fff), v.get("max_o", 0x7fff), v.get("no_repeat", False))
    ctx.cover("done")

def crowded(ctx, k, variant):
    """the parse, with more repeats of a sequence than are kept in a plain list"""
    s = ctx.str("s", k, chars="a~")
    code = "QWEab" + "".join("aaaa" + chr(40 + i % 20) + chr(48 + i // 20) for i in range(240)) + "QWE" + s + "!"
    v = dict(
        norep=dict(min_c=3, max_c=17, max_o=0xc3f, no_repeat=True),
        maxo=dict(min_c=2, max_c=5, max_o=40),
        plain=dict(min_c=3, max_c=None),
        norepm=dict(min_c=3, max_c=17, max_o=60, no_repeat=True, measure=lambda c, it: (2 if isinstance(it, Lz77Entry) else 1, c)),
    )[variant]
    check_parse(ctx, code, pc.get_lz77(code, **v), v["min_c"], v.get("max_c", 0x7fff), v.get("max_o", 0x7fff), v.get("no_repeat", False))
    ctx.cover("done")

def noise(n, seed):
    x = seed
    out = []
    for _ in range(n):
        x = (x * 1103515245 + 12345) & 0x7fffffff
        out.append(chr(1 + (x >> 16) % 255))
    return "".join(out)

def long(ctx, kind, fast, k=3):
    """long concrete texts around a few symbolic chars: literal blocks, far and long matches, the sub-dictionary"""
    s = ctx.str("s", k, chars="ab\xf3")
    if kind == "noise": code = noise(70, 1) + s + noise(30, 2)
    elif kind == "noiserep": code = noise(60, 3) + s + noise(60, 3) + s
    elif kind == "runs": code = "a" * 40 + s + "a" * 30 + s + "ab" * 20
    elif kind == "words": code = "function f(a,b)\n return a+b\nend\n" * 3 + s + "function g(a,b) return a end" + s
    elif kind == "endnoise": code = "hello=1 " * 4 + s + noise(64, 5)
    elif kind == "submatch":
        code = "".join("abc" + chr(100 + (i * 7) % 60) + chr(40 + i % 50) for i in range(230)) + s + "abcd(" + s + "abc" + s
    elif kind == "far": code = "abcdefgh" + s + "z" * 0x8005 + "abcdefgh" + s
    roundtrip(ctx, code, tail=ctx.choice("tail", [b"", b"\xff"]), fast_compress=fast)

def limit(ctx):
    """code beyond the format's limits is refused rather than damaged"""
    n = ctx.choice("n", [0xfffe, 0xffff, 0x10000, 0x10001])
    code = "a" * n
    try: data = pack(code, fast_compress=True)
    except Exception as e:
        ctx.check(n > 0xffff, "code within the limit is refused")
        return
    ctx.check(n <= 0xffff, "code over the limit is accepted")
    ctx.check(ctx.eq(uncompress_code(BinaryReader(BytesIO(data))), code), "code of maximal length changed")
    ctx.cover("accepted")

def size_limit(ctx):
    n = ctx.choice("n", [15000, 15500, 15550, 15600, 15650, 16500])
    code = noise(n, 9)
    try: data = pack(code, fast_compress=True)
    except Exception: return
    ctx.check(len(data) <= k_code_size, "compressed code over the size limit is accepted")
    ctx.cover("accepted")

def harnesses(tier):
    T = tier == "thorough"
    hs = []
    for fast in (False, True):
        hs.append(H(literals, params={"fast": fast}, bounds="all 255 first chars, 9 kinds of second char"))
        hs.append(H(alphabet, params={"n": 8 if T else 6, "chars": "ab", "fast": fast}, bounds="all strings of that length"))
        hs.append(H(alphabet, params={"n": 6 if T else 4, "chars": "a\x10\xff", "fast": fast}, bounds="all strings of that length"))
        for kind in ("noise", "noiserep", "runs", "words", "endnoise", "submatch"):
            hs.append(H(long, params={"kind": kind, "fast": fast, "k": 3 if T else 2}, bounds="concrete text around symbolic chars (3 letters each)"))
    hs.append(H(long, params={"kind": "far", "fast": True, "k": 1}, bounds="a repeat farther away than the window"))
    hs.append(H(one_match, params={"plen": 33000, "maxo": 0x7fff, "counts": [3, 10] if not T else [3, 9, 10, 17]}, bounds="every offset 1..32767", path_s=200))
    hs.append(H(one_match, params={"plen": 1200, "maxo": 1200, "counts": [3, 4, 9, 10, 11]}, bounds="every offset 1..1200"))
    hs.append(H(any_count, params={"offs": [1, 2, 32, 33], "maxc": 300 if T else 80}, bounds="every count from 3 on"))
    hs.append(H(any_count, params={"offs": [1024, 1025], "maxc": 80 if T else 20}, bounds="every count from 3 on"))
    hs.append(H(two_items, bounds="6 chars, then two matches or literal blocks, every content and offset"))
    for v in ("plain", "maxc", "norep", "norepm", "meas", "fast"):
        hs.append(H(parse, params={"n": 10 if T else 9, "variant": v}, bounds="all strings of that many chars"))
    for v in ("norep", "maxo", "plain", "norepm"):
        hs.append(H(crowded, params={"k": 7 if T else 4, "variant": v}, bounds="over 240 repeats, then all strings of that length over 2 letters"))
    hs.append(H(limit, bounds="lengths around 65535"))
    hs.append(H(size_limit, bounds="incompressible code around the size limit"))
    return hs

TECHNIQUE = "symbolic execution of compress_code/uncompress_code/get_lz77 on symbolic text and symbolic match items; z3 decides equality of the decoded text"
OUTSIDE = "longer symbolic texts (concrete long texts are explored around 2-3 symbolic chars); NUL chars, which the stored form cannot represent"
ASSUMPTIONS = []
META = dict(
    title="Compressing code in the current format is lossless",
    statement="Code compressed into a cart with the current (pxa) format decompresses to exactly the same text, in normal and in fast compression, and the recorded sizes are those of the compressed stream. Matches, literal blocks and literals chosen by the compressor always fit what the format can express (offsets, counts, no reference outside the preceding text), and code beyond the format's limits is refused, never damaged.",
    over=["inputs"], text="every code text (all chars but NUL), every compression mode, every match offset and length the format can hold",
    why="The tests compress a handful of carts; format corner cases (bit-width boundaries of offsets, counts, move-to-front indices, literal-block switching) depend on specific values that those carts do not contain.",
    files=["pico_compress.py"], mech=[("lz77 parse", "pico_compress.py: get_lz77"), ("pxa writer and reader", "pico_compress.py: compress_code, uncompress_code")])
