"""C12: pxu userdata compression"""
from sym.ctx import H
import pico_process
from utils import CheckError
from picotron_fs import UserData, read_pxu, write_pxu

def spec_decode(ctx, data):
    """an independent decoder of pxu -> (type, width, height or None, values, bytes used)"""
    at = [4]
    def u8():
        at[0] += 1
        return data[at[0] - 1]
    def u(n): return ctx.concretize(sum(u8() << (8 * i) for i in range(n)))
    ctx.check(bytes(data[:4]) == b"pxu\0", "no pxu header")
    flags = u(2)
    n = 4 if flags & 0x800 else 1
    w = u(n)
    h = u(n) if flags & 0x40 else None
    bits = u(1)
    typ = {3: ("u8", 1), 12: ("i16", 2)}[flags & 15]
    ctx.check({3: 2, 12: 8}[flags & 15] == flags >> 12, "an unknown compression")
    ctx.check({3: 4, 12: 0}[flags & 15] == bits, "an unknown number of bits")
    slots = list(range(15)) if bits else []
    order = list(range(15))     # most recently used first
    out = []
    while len(out) < w * (1 if h is None else h):
        b = u8()
        if bits:
            i, c = ctx.concretize(b & 15), ctx.concretize(b >> 4)
        else: i, c = 0, ctx.concretize(b)
        if i == (15 if bits else 0):
            v = sum(u8() << (8 * k) for k in range(typ[1]))
            if bits: slots[order[-1]] = v
        else:
            v = slots[i]
            order.remove(i); order.insert(0, i)
        c += 1
        if c == (16 if bits else 256):
            while True:
                x = ctx.concretize(u8())
                c += x
                if x != 255: break
        out += [v] * c
    return typ[0], w, h, out, at[0]

def check_ud(ctx, typ, w, h, vals, pre=b"", post=b"", direct=True):
    nyb = 2 if typ == "u8" else 4
    text = "".join("%0*x" % (nyb, v) for v in vals)
    ud = UserData(typ, w, h, text)
    data = write_pxu(ud)
    ctx.check(data is not None, "not compressed")
    if direct:
        t, w2, h2, vals2, used = spec_decode(ctx, data)
        ctx.check(t == typ and w2 == w and (h2 or 0) == h, "the type or size written is another")
        ctx.check(len(vals2) == len(vals) and used == len(data), "the amount of data written is another")
        ctx.check(ctx.eq(ctx.bytesof([b for v in vals2 for b in (v & 255, v >> 8)]), ctx.bytesof([b for v in vals for b in (v & 255, v >> 8)])), "the data written is another")
    ud2, end = read_pxu(pre + bytes(data) + post, len(pre))
    ctx.check(ud2.type == typ and ud2.width == w and ud2.height == h, "the type or size read back is another")
    ctx.check(end == len(pre) + len(data), "reading back takes too many or too few bytes")
    ctx.check(ctx.eq(ud2.data, text), "the data read back is another")
    ctx.cover("done")

def small(ctx, typ, n, h, near):
    """n values, each any value (near: out of a few that collide in the table)"""
    lim = 255 if typ == "u8" else 65535
    vals = [ctx.choice("v%d" % i, near) if near else ctx.choice("v%d" % i, [0, 3, 14, 99]) if typ == "u8" and i == 1 and n > 2 else ctx.int("v%d" % i, 0, lim) for i in range(n)]
    check_ud(ctx, typ, n // h if h else n, h, vals, pre=b"{" if n % 2 else b"", post=b"}")

def run(ctx, typ, counts):
    """long runs"""
    lim = 255 if typ == "u8" else 65535
    c = ctx.choice("count", counts)
    a = ctx.int("a", 0, lim); b = ctx.choice("b", [0, 77])
    check_ud(ctx, typ, c + 2, 0, [b] + [a] * c + [b])

def table(ctx, prefix):
    """after values which fill the table, further ones"""
    x = ctx.int("x", 0, 255)
    y = ctx.choice("y", [0, 5, 14, 15, 100, 101, 114, 115, 255])
    check_ud(ctx, "u8", len(prefix) + 3, 0, prefix + [x, y, x])

def header(ctx, typ):
    """sizes around the limits of the header fields"""
    w, h = ctx.choice("size", [(0, 0), (1, 0), (255, 0), (256, 0), (1, 1), (255, 1), (256, 1), (1, 255), (1, 256), (16, 16), (2, 300), (70000, 0)])
    a = ctx.int("a", 0, 255) if w * (h or 1) < 20 else ctx.choice("a", [0, 15, 255])
    check_ud(ctx, typ, w, h, [a] * (w * (h or 1)), direct=w * (h or 1) < 1000)

def refuse(ctx):
    """what cannot be represented is left alone"""
    k = ctx.choice("kind", [("f64", "00"), ("i32", "00000000"), ("u8", "hex:00"), ("u32", "00")])
    n = ctx.int("n", 0, 300)
    ctx.check(write_pxu(UserData(k[0], n, 0, k[1])) is None, "compressed though the format cannot hold it")
    ctx.check(write_pxu(UserData("i16", n, 0, "0001"), runtime=20) is None, "compressed in a way the version cannot read")
    ctx.cover("done")

def harnesses(tier):
    T = tier == "thorough"
    hs = []
    for typ in ("u8", "i16"):
        for n, h in ((1, 0), (2, 0), (3, 0), (2, 2), (3, 1)) + (((4, 2), (4, 0)) if T else ()):
            hs.append(H(small, params={"typ": typ, "n": n, "h": h, "near": None}, bounds="%d values of any value (u8: the second of three is one of 4)" % n))
        hs.append(H(run, params={"typ": typ, "counts": ([16, 17, 270, 271] if typ == "u8" else [255, 256, 257]) + ([15, 18, 272, 509, 510, 511, 512, 525, 526, 527, 766, 767] if T else [])}, bounds="a run of any value of the stated lengths between other values (2 choices)"))
        hs.append(H(header, params={"typ": typ}, bounds="13 sizes around the limits of the fields, any value"))
    for n in (4, 5) if not T else (5, 6):
        hs.append(H(small, params={"typ": "u8", "n": n, "h": 0, "near": [0, 14, 200, 15]}, bounds="every sequence of %d of 4 values" % n))
    hs.append(H(small, params={"typ": "i16", "n": 4, "h": 2, "near": [0, 255, 0x8000, 0xffff]}, bounds="every sequence of 4 of 4 values"))
    P = [list(range(100, 115)), list(range(100, 116)), list(range(14, -1, -1)), [100, 0, 101, 1, 102, 2, 100, 101]]
    if T: P += [list(range(100, 130)), [3, 3, 100, 3, 100, 14, 14, 101, 13]]
    for k, p in enumerate(P): hs.append(H(table, params={"prefix": p}, bounds="after %d given values: a value of any value, one of 9, the first again" % len(p)))
    hs.append(H(refuse, bounds="every width up to 300"))
    return hs

TECHNIQUE = "symbolic execution of write_pxu and read_pxu on symbolic userdata, decoded also by an independent decoder; z3 decides equality"
OUTSIDE = "more than a few independent values; userdata whose data does not match its size"
ASSUMPTIONS = ["the independent decoder's reading of the undocumented format is that of the repository's read_pxu"]
META = dict(
    title="Picotron userdata compression (pxu) is lossless",
    statement="Whatever userdata of a supported type (u8, i16) is written in the pxu format, an independent decoder and the repository's own reader recover exactly the same type, width, height and values and stop exactly at its end, whatever precedes or follows it; userdata that the format, or the runtime version being written for, cannot represent is left uncompressed.",
    over=["inputs"], text="every sequence of values up to the stated length, runs of any value around every limit of the count encoding",
    why="Tests store a few sprites; the move-to-front table, escapes and multi-byte run lengths have corner cases (16, 271, table overwritten) that only particular data reaches.",
    files=["picotron_fs.py", "pico_compress.py"],
    mech=[("pxu codec", "picotron_fs.py: write_pxu, read_pxu, PxuFlags"), ("move to front", "pico_compress.py: update_mtf")])
