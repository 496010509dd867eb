"""C03: .p8 data sections round trip"""
from sym.ctx import H
import pico_process
import pico_cart
from pico_cart import *
from pico_defs import *
from utils import *

SECT = {  # start, row stride, row size, rows (in the rom)
    "gfx": (0, 0x40, 0x40, 0x80), "map": (0x2000, 0x80, 0x80, 0x20), "gff": (0x3000, 0x80, 0x80, 2),
    "music": (0x3100, 4, 4, 0x40), "sfx": (0x3200, 0x44, 0x44, 0x40)}

def reread(ctx, cart, **opts):
    text = write_cart_to_source(cart, **opts)
    return read_cart_from_source(text), text

def same_rom(ctx, a, b, what):
    ctx.check(len(a) == len(b) and ctx.eq(bytes(a), bytes(b)), what)

def row(ctx, sect, y):
    """all contents of one row of a section, the rest of the rom being the default"""
    start, stride, size, rows = SECT[sect]
    cart = Cart()
    data = ctx.bytes("row", size)
    cart.rom.set_block(start + y * stride, data)
    back, text = reread(ctx, cart)
    same_rom(ctx, back.rom, cart.rom, "the rom changed by writing and reading a .p8")
    ctx.check(back.label is None and back.code == "", "writing and reading a .p8 made up other parts")
    ctx.cover("done")

def two_rows(ctx, sect):
    """the row contents are not mixed up between rows, columns and sections (each has its own symbolic byte)"""
    cart = Cart()
    rom = cart.rom
    n = 0
    for s, (start, stride, size, rows) in SECT.items():
        full = s == sect
        for y in ([0, 1, rows // 2, rows - 1] if full else [0, rows - 1]):
            for x in ([0, 1, size - 1] if full else [size // 2]):
                if s == "gfx" and y > 9 and not full: continue
                rom[start + y * stride + x] = ctx.int("b%d" % n, 0, 255); n += 1
    back, text = reread(ctx, cart)
    same_rom(ctx, back.rom, cart.rom, "the rom changed by writing and reading a .p8")
    ctx.cover("done")

def dense(ctx, seed):
    """no row or byte is the default; 16 symbolic bytes anywhere"""
    cart = Cart()
    x = seed
    out = []
    for i in range(k_rom_size):
        x = (x * 1103515245 + 12345) & 0x7fffffff
        out.append((x >> 16) & 255)
    for i in range(16):
        out[(i * 1061 + seed * 37) % k_rom_size] = ctx.int("b%d" % i, 0, 255)
    cart.rom.replace(ctx.bytesof(out))
    back, text = reread(ctx, cart)
    same_rom(ctx, back.rom, cart.rom, "the rom changed by writing and reading a .p8")
    ctx.cover("done")

def label(ctx):
    cart = Cart(label=MultidimArray(k_label_size, 0))
    pts = [(0, 0), (127, 0), (1, 127)]
    for i, (x, y) in enumerate(pts): cart.label[x, y] = ctx.int("p%d" % i, 0, 31)
    back, text = reread(ctx, cart)
    blank = ctx.all([ctx.eq(cart.label[x, y], 0) for x, y in pts])
    if blank:
        ctx.check(back.label is None or not any(back.label.array), "a blank label came back as something else")
        return
    ctx.check(back.label is not None, "the label is lost")
    ctx.check(ctx.all([ctx.eq(a, b) for a, b in zip(back.label.array, cart.label.array)]), "the label changed")
    same_rom(ctx, back.rom, mem_create_rom(), "a label changed the rom")
    ctx.cover("done")

def meta(ctx):
    """meta sections and the version survive"""
    cart = Cart()
    v = ctx.int("v", 1, 60)
    cart.set_version(ctx.concretize(v))
    l1 = ctx.str("l1", 2, chars="a: -#")
    l2 = ctx.str("l2", 3, chars="b \t\"")
    cart.meta["title"] = [l1, "x"]
    cart.meta["foo"] = ["", l2, ""]
    back, text = reread(ctx, cart)
    ctx.check(back.version_id == cart.version_id, "the version changed")
    ctx.check(sorted(back.meta) == ["foo", "title"], "the meta sections changed")
    ctx.check(ctx.eq(back.meta["title"][0], l1) and back.meta["title"][1:] == ["x"], "a meta line changed")
    ctx.check(len(back.meta["foo"]) == 3 and ctx.eq(back.meta["foo"][1], l2), "a meta line changed")
    ctx.cover("done")

def sections(ctx, which):
    """only the sections asked for are written; all of them are"""
    cart = Cart(code="x=1", label=MultidimArray(k_label_size, 1))
    for s, (start, stride, size, rows) in SECT.items(): cart.rom[start + stride * (rows - 1)] ^= 0x15
    cart.meta["foo"] = ["z"]
    names = ["lua", "gfx", "map", "gff", "sfx", "music", "label", "meta:foo"]
    sel = [n for i, n in enumerate(names) if which >> i & 1] if which is not None else None
    b = ctx.int("b", 0, 255)
    cart.rom[0x2005] = b
    back, text = reread(ctx, cart, sections=sel)
    want = mem_create_rom()
    for s, (start, stride, size, rows) in SECT.items():
        if sel is None or s in sel: want.set_block(start, cart.rom.get_block(start, stride * rows))
    same_rom(ctx, back.rom, want, "the sections asked for were not exactly the ones written")
    on = lambda n: sel is None or n in sel
    ctx.check(back.code == ("x=1" if on("lua") else ""), "code")
    ctx.check((back.label is not None) == on("label"), "label")
    ctx.check(("foo" in back.meta) == on("meta:foo"), "meta")
    ctx.cover("done")

def foreign(ctx, sect):
    """hand-edited sections: upper-case digits, short lines, blank lines, trailing blanks and \\r\\n"""
    digs = "0123456789abcdefABCDEF"
    a = ctx.str("d", 4, chars=digs)
    eol = ctx.choice("eol", ["\n", "\r\n"])
    pad = ctx.choice("pad", ["", " ", "\n"])
    dv = []
    for c in a:
        n = ord(c)
        dv.append(ctx.ite(n < 58, n - 48, ctx.ite(n >= 97, n - 87, n - 55)))
    if sect == "music":
        lines = ["01 41424344", "0" + a[0] + " " + a[1:3] + "424344"]
    elif sect == "sfx":
        lines = ["0" * 168, a + "0000" + "00000" * 32]
    else: lines = ["00", a]
    text = "pico-8 cartridge // x" + eol + "version 8" + eol + "__" + sect + "__" + pad + eol + pad.join(l + eol for l in lines)
    back = read_cart_from_source(text)
    rom = mem_create_rom()
    if sect == "gfx":
        for x in range(4): rom.set4(mem_sprite_addr(x, 1), dv[x])
    elif sect in ("map", "gff"):
        base = SECT[sect][0] + 0x80
        rom[base] = dv[0] * 16 + dv[1]; rom[base + 1] = dv[2] * 16 + dv[3]
    elif sect == "music":
        rom[0x3100:0x3104] = bytes([0xc1, 0x42, 0x43, 0x44])
        rom[0x3104] = ((dv[1] * 16 + dv[2]) & 0xff) | ((dv[0] & 1) << 7)
        for i in range(1, 4): rom[0x3104 + i] = (0x41 + i) | (((dv[0] >> i) & 1) << 7)
    elif sect == "sfx":
        for i in range(4): rom[0x3240 + i] = 0
        o = 0x3200 + 68 + 64
        rom[o] = dv[0] * 16 + dv[1]; rom[o + 1] = dv[2] * 16 + dv[3]; rom[o + 2] = 0; rom[o + 3] = 0
    same_rom(ctx, back.rom, rom, "a hand-written section is read differently")
    ctx.check(back.version_id == 8, "version")
    ctx.cover("done")

def cut(ctx, sect, n):
    """a row that ends early, at any digit: what is missing is zero (or the default), what is there counts"""
    d = ctx.str("d", n, chars="0123456789abcdef")
    v = [ctx.ite(ord(c) < 58, ord(c) - 48, ord(c) - 87) for c in d] + [0] * 8
    pre = "00100000" if sect == "sfx" else ""
    back = read_cart_from_source("pico-8 cartridge // x\nversion 8\n__" + sect + "__\n" + pre + d + "\n")
    rom = mem_create_rom()
    if sect == "gfx":
        for x in range(n): rom.set4(mem_sprite_addr(x, 0), v[x])
    elif sect in ("map", "gff"):
        for i in range((n + 1) // 2): rom[SECT[sect][0] + i] = v[2 * i] * 16 + v[2 * i + 1]
    elif sect == "sfx":
        rom[0x3240:0x3244] = bytes([0, 16, 0, 0])
        for i in range((n + 4) // 5):
            p, q, w, vol, fx = v[5 * i:5 * i + 5]
            x = ((p & 3) * 16 + q) | (w & 7) << 6 | (vol & 7) << 9 | (fx & 7) << 12 | (w >> 3) << 15
            rom[0x3200 + 2 * i] = x & 255; rom[0x3201 + 2 * i] = x >> 8
    same_rom(ctx, back.rom, rom, "a row that ends early is read differently")
    ctx.cover("done")

def harnesses(tier):
    T = tier == "thorough"
    hs = []
    for s, (start, stride, size, rows) in SECT.items():
        ys = {0, rows - 1} | ({1, rows // 2} if T else set())
        for y in sorted(ys):
            hs.append(H(row, params={"sect": s, "y": y}, bounds="every content of the row"))
        hs.append(H(two_rows, params={"sect": s}, bounds="every value of up to 20 bytes spread over all sections"))
        if s != "music":
            for n in (1, 3, 6) if not T else (1, 2, 3, 4, 6, 7): hs.append(H(cut, params={"sect": s, "n": n}, bounds="every %d hex digits" % n))
        hs.append(H(foreign, params={"sect": s}, bounds="every 4 hex digits, both line ends, 3 paddings"))
    hs.append(H(dense, params={"seed": 3}, bounds="every value of 16 bytes in a full rom"))
    hs.append(H(label, bounds="every color (0..31) of three pixels"))
    hs.append(H(meta, bounds="versions 1..60; meta lines of 2 and 3 chars from 6 and 4"))
    for w in (None, 0, 1, 2, 4, 8, 16, 32, 64, 128): hs.append(H(sections, params={"which": w}, bounds="one symbolic map byte"))
    return hs

TECHNIQUE = "symbolic execution of write_cart_to_source and read_cart_from_source on a symbolic rom; z3 decides equality of the re-read rom"
OUTSIDE = "all rows symbolic at once (a row at a time, and 16-20 bytes across all sections); malformed digits"
ASSUMPTIONS = []
META = dict(
    title="Cart data survives writing and reading the .p8 text format",
    statement="Sprites, map, sprite flags, sfx, music, label, meta sections and version of a cart are unchanged after writing it as .p8 text and reading that text back, whatever their bytes, including rows that look empty and sections left out because they hold only default data. Only the requested sections are written, and hand-edited text (short rows, upper-case digits, blank lines, CRLF) is read with its documented meaning.",
    over=["inputs"], text="every rom content, label, meta lines, version and section selection",
    why="The tests round-trip a few carts whose data is mostly zero; a wrong bit in one field of one row only shows for the byte values that set it.",
    files=["pico_cart.py", "pico_defs.py"], mech=[("writer", "pico_cart.py: write_cart_to_source"), ("reader", "pico_cart.py: read_cart_from_source"), ("nibble and word access", "pico_defs.py: Memory")])
