"""C11: lz4 blocks (pods in exports, picotron's pxu and pod data)"""
from sym.ctx import H
import pico_process
import pico_export as pe
from pico_export import lz4_compress, lz4_uncompress
from pico_compress import Lz77Entry

def ref(ctx, data):
    """the lz4 block format, by its specification; checks the end-of-block rules too"""
    out = []
    pos = 0
    n = len(data)
    last_match = None
    def more(v):
        nonlocal pos
        if v == 15:
            while True:
                x = data[pos]
                pos += 1
                v = v + x
                if not ctx.fork(x == 255): break
        return v
    while True:
        ctx.check(pos < n, "the block ends without a last sequence")
        h = data[pos]
        pos += 1
        lits = ctx.concretize(more(ctx.concretize(h >> 4)))
        ctx.check(pos + lits <= n, "literals exceed the block")
        for k in range(lits): out.append(data[pos + k])
        pos += lits
        if pos == n:
            ctx.check(h & 15 == 0, "the last sequence has a match length")
            break
        off = data[pos] + data[pos + 1] * 256
        pos += 2
        cnt = ctx.concretize(more(ctx.concretize(h & 15))) + 4
        ctx.check(ctx.all([off >= 1, off <= len(out)]), "offset outside of the output")
        last_match = (len(out), cnt)
        for k in range(cnt): out.append(out[len(out) - off])
    total = len(out)
    if last_match is not None:
        ctx.check(last_match[0] <= total - 12, "a match starts within the last 12 bytes")
        ctx.check(last_match[0] + last_match[1] <= total - 5, "a match covers the last 5 bytes")
    return ctx.bytesof(out)

def roundtrip(ctx, d, **opts):
    c = lz4_compress(d, **opts)
    r = ref(ctx, c)
    ctx.check(ctx.eq(r, d), "lz4 block decodes (by the specification) to other data")
    ctx.check(ctx.eq(lz4_uncompress(c), d), "lz4 block decodes to other data")
    ctx.check(len(c) <= len(d) + len(d) // 255 + 16, "lz4 block expands too much")
    ctx.cover("done")

def alphabet(ctx, n, chars, fast):
    d = ctx.str("d", n, chars=chars)
    roundtrip(ctx, ctx.bytesof([ord(c) for c in d]), fast=fast)

def literal(ctx, n, fast):
    """n bytes without repetition, one of them of any value"""
    i = ctx.choice("i", [0, n // 2, n - 1])
    d = [k // 3 % 256 if k % 3 == 0 else k * 7 % 251 if k % 3 == 1 else k * k % 241 for k in range(n)]
    x = ctx.bytes("x", 1)
    d[i] = x[0]
    roundtrip(ctx, ctx.bytesof(d), fast=fast)

def runs(ctx, fast, ranges, pre):
    """a run of every length in the ranges, with symbolic content around"""
    lo, hi = ctx.choice("range", ranges)
    n = ctx.concretize(ctx.int("n", lo, hi))
    tail = ctx.choice("tail", [0, 4, 5, 6, 11, 12, 13])
    x = ctx.bytes("x", 1)
    d = [k * 5 % 256 for k in range(pre)] + [x[0]] * n + [100 + k for k in range(tail)]
    roundtrip(ctx, ctx.bytesof(d), fast=fast)

def periodic(ctx, fast, p, ranges):
    """a repeated sequence of p bytes, cut anywhere"""
    lo, hi = ctx.choice("range", ranges)
    n = ctx.concretize(ctx.int("n", lo, hi))
    d = ctx.str("d", p, chars="ab")
    d = [ord(c) for c in d]
    roundtrip(ctx, ctx.bytesof([d[k % p] for k in range(n)]), fast=fast)

def items(ctx, off_hi, cnts, pres, tails):
    """any valid parse is written such that it is decoded to what it stands for"""
    pre = ctx.choice("pre", pres)
    seg = max(pre // 40, 1)
    base = [(k // seg * 7) % 256 for k in range(pre)]
    off = ctx.int("off", 1, min(off_hi, pre))
    lo, hi = ctx.choice("cnt", cnts)
    cnt = ctx.concretize(ctx.int("n", lo, hi))
    tail = ctx.choice("tail", tails)
    if cnt > 100: off = ctx.concretize(off)
    out = list(base)
    for _ in range(cnt): out.append(out[len(out) - off])
    out += list(ctx.bytes("t", tail))
    d = ctx.bytesof(out)
    its = [(k, base[k]) for k in range(pre)] + [(pre, Lz77Entry(off, cnt))] + [(pre + cnt + k, out[pre + cnt + k]) for k in range(tail)]
    old = pe.get_lz77
    pe.get_lz77 = lambda *a, **k: iter(its)
    try: c = lz4_compress(d)
    finally: pe.get_lz77 = old
    ctx.check(ctx.eq(lz4_uncompress(c), d), "a valid parse is decoded differently")
    ctx.check(ctx.eq(ref(ctx, c), d), "a valid parse is decoded (by the specification) differently")
    ctx.cover("done")

def crowded(ctx, k, fast):
    """more repeats of a sequence than are kept in a plain list"""
    s = ctx.str("s", k, chars="a~")
    d = "QWEab" + "".join("aaaaa" + chr(40 + i % 20) + chr(48 + i // 20) for i in range(230)) + "QWE" + s + "aa!"
    roundtrip(ctx, d.encode("latin-1"), fast=fast)

def foreign(ctx, lits, cnts):
    """blocks as other encoders write them"""
    nl = ctx.choice("lits", lits)
    lo, hi = ctx.choice("cnt", cnts)
    cnt = ctx.concretize(ctx.int("n", lo, hi))
    off = ctx.int("off", 1, nl)
    if cnt > 100: off = ctx.concretize(off)
    x = ctx.bytes("x", 1)
    lit = [k // max(nl // 40, 1) * 3 % 256 for k in range(nl - 1)] + [x[0]]
    tail = list(ctx.bytes("t", 5))
    def sum_(v):
        r = []
        while v >= 255:
            r.append(255)
            v -= 255
        return r + [v]
    b = [min(nl, 15) * 16 + min(cnt - 4, 15)] + (sum_(nl - 15) if nl >= 15 else []) + lit + [off % 256, off // 256]
    b += sum_(cnt - 19) if cnt >= 19 else []
    b += [0x50] + tail
    out = list(lit)
    for _ in range(cnt): out.append(out[len(out) - off])
    out += tail
    ctx.check(ctx.eq(lz4_uncompress(ctx.bytesof(b)), ctx.bytesof(out)), "a valid lz4 block is misread")
    ctx.cover("done")

def far(ctx, fast):
    """a repeat at the edge of the 64k window"""
    d = ctx.choice("d", [-3, -2, -1, 0, 1, 2])
    x = ctx.bytes("x", 1)
    n = 0xffff + d
    b = [1, 2, 3, 4, 5, 6, 7, 8, 9, x[0]]
    roundtrip(ctx, ctx.bytesof(b + [255] * (n - len(b)) + b + [0] * 16), fast=fast)

def harnesses(tier):
    T = tier == "thorough"
    hs = []
    for fast in (False, True):
        for n in ([0, 1, 4, 5, 12, 13, 14, 16, 18, 20] if T else [0, 5, 13]):
            hs.append(H(alphabet, params={"n": n, "chars": "ab", "fast": fast}, bounds="all byte strings of that length over 2 values"))
        for n in (1, 14, 15, 16, 269, 270, 271, 524, 525, 526) if T else (14, 15, 16, 269, 270, 271, 525):
            hs.append(H(literal, params={"n": n, "fast": fast}, bounds="literal runs around the length codes, a byte of any value"))
        for r in ([(1, 40), (268, 300), (520, 560)] if T else [(13, 25), (272, 276)]):
            for pre in (1, 16):
                if not T and r[0] > 100:
                    if pre > 1: continue
                    r = (278, 279)
                hs.append(H(runs, params={"fast": fast, "pre": pre, "ranges": [r]}, bounds="every run length in the range"))
        for r in ([(10, 60), (270, 300)] if T else [(14, 32)]):
            hs.append(H(periodic, params={"fast": fast, "p": 4, "ranges": [r]}, bounds="every period over 2 values, every length in the range"))
        hs.append(H(crowded, params={"k": 7 if T else 4, "fast": fast}, bounds="230 repeats, then all strings of that length over 2 values"))
        if T: hs.append(H(far, params={"fast": fast}, bounds="distances around 65535"))
    for pre in ([1, 14, 15, 16, 270, 600] if T else [1, 15, 270]):
        for r in ([(4, 24), (270, 276), (525, 532)] if T else [(4, 4), (18, 20), (273, 274)]):
            if pre > 100 and r[0] > 100: continue
            hs.append(H(items, params={"off_hi": 0xffff, "cnts": [r], "pres": [pre], "tails": [12, 13, 20] if T else [13]}, bounds="every offset, every count in the range"))
    hs.append(H(items, params={"off_hi": 0xffff, "cnts": [(4, 4), (19, 19)] if T else [(5, 5)], "pres": [66000], "tails": [13]}, bounds="every offset the format can hold", path_s=400))
    for lits in ([1, 14, 15, 16, 269, 270, 271] if T else [1, 14, 15, 269, 270]):
        for r in ([(4, 24), (270, 280), (525, 535)] if T else [(4, 4), (18, 20), (273, 274)]):
            if lits > 100 and r[0] > 100: continue
            hs.append(H(foreign, params={"lits": [lits], "cnts": [r]}, bounds="every offset, counts in the range"))
    return hs

TECHNIQUE = "symbolic execution of lz4_compress/lz4_uncompress on symbolic data and symbolic parses against an independent reading of the lz4 block specification; z3 decides equality"
OUTSIDE = "symbolic data longer than the bound; more than one match with a symbolic offset"
ASSUMPTIONS = ["the lz4 block format is as in its public specification (including the end-of-block rules)"]
META = dict(
    title="LZ4 blocks are valid and lossless",
    statement="Data compressed as an LZ4 block (used in pods of PICO-8 exports and in Picotron's pod and pxu data) is a valid block by the LZ4 specification - length codes, offsets within the output and within 64k, the rules for the last sequence and the last bytes - and decompresses to exactly the same data, in normal and in fast compression. Any valid LZ4 block, as other encoders write it, is decompressed to the data it stands for.",
    over=["inputs"], text="every data, every literal length, match length and offset",
    why="The tests only go over a few exports; length codes that need 0, 1 or 2 extra bytes, offsets at the window's edge and matches cut at the end of the block depend on particular lengths.",
    files=["pico_export.py", "pico_compress.py"], mech=[("lz4", "pico_export.py: lz4_compress, lz4_uncompress"), ("lz77 parse", "pico_compress.py: get_lz77")])
