"""C07: carts as urls"""
from sym.ctx import H
import pico_process
from pico_cart import *
from pico_defs import *
from utils import *

def back_of(cart, **opts):
    url = write_cart_to_url(cart, **opts)
    return read_cart_from_url(url), url

def same_gfx(ctx, back, cart):
    ctx.check(ctx.eq(bytes(back.rom), bytes(cart.rom)), "the sprites changed in the url")

def gfx(ctx, where, ranges):
    """runs of any length and colors"""
    cart = Cart(code="x=1")
    lo, hi = ctx.choice("range", ranges)
    n = ctx.concretize(ctx.int("n", lo, hi))
    a, b = ctx.int("a", 0, 15), ctx.int("b", 0, 15)
    c = 5
    start = {"start": 0, "mid": 700, "end": 128 * 128 - n}[where]
    for i in range(start): cart.rom.set4(mem_sprite_addr(i % 128, i // 128), c)
    for i in range(start, start + n): cart.rom.set4(mem_sprite_addr(i % 128, i // 128), a)
    if where != "end":
        for i in range(start + n, start + n + 2): cart.rom.set4(mem_sprite_addr(i % 128, i // 128), b)
    back, url = back_of(cart)
    same_gfx(ctx, back, cart)
    ctx.check(back.code == "x=1", "the code changed in the url")
    ctx.cover("done")

def tail(ctx):
    """the last and first pixels, alone"""
    cart = Cart()
    vals = [ctx.int("v%d" % i, 0, 15) for i in range(4)]
    for v, p in zip(vals, [(0, 0), (1, 0), (126, 127), (127, 127)]): cart.rom.set4(mem_sprite_addr(*p), v)
    back, url = back_of(cart)
    same_gfx(ctx, back, cart)
    ctx.cover("done")

def uniform(ctx):
    """a spritesheet of one color"""
    cart = Cart()
    v = ctx.int("v", 0, 15)
    cart.rom.fill8(0, 0, 1)
    for i in range(0x2000): cart.rom[i] = v | v << 4
    back, url = back_of(cart)
    same_gfx(ctx, back, cart)
    ctx.cover("done")

def code(ctx, kind):
    s = ctx.str("s", 1, 1, 255)
    code = {"short1": s, "short2": "\xff" + s, "short3": "\xfb\xf0" + s, "short4": "\xfe" + s + "\xbf\xff", "long": "for i=1,10 do " * 3 + s + "for i=1,10 do print(i) end", "empty": ""}[kind]
    back, url = back_of(Cart(code=code))
    ctx.check(ctx.eq(back.code, code), "the code changed in the url")
    ctx.check(url.startswith("https://www.pico-8-edu.com/?c="), "wrong url prefix")
    ok = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-=&"
    q = url[len("https://www.pico-8-edu.com/?"):]
    for ch in q: ctx.check(ctx.any([ctx.eq(ch, o) for o in ok]), "a char that urls cannot hold")
    ctx.cover("done")

def alphabet(ctx):
    """every base64 digit of code and sprites is read for what it is"""
    v = ctx.int("v", 0, 63)
    digs = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_-"
    cart = read_cart_from_url("https://www.pico-8-edu.com/?g=" + digs[v] + "AB")
    color, count = v & 15, (v >> 4) + 1
    cnt = ctx.concretize(count)
    if cnt == 4: cnt, rest = 4, [1]     # 'A' extends the run by 0
    else: rest = [0, 1]
    want = mem_create_rom()
    px = [color] * cnt + rest
    for i, c in enumerate(px): want.set4((i // 2, i % 2), c)
    ctx.check(ctx.eq(bytes(cart.rom), bytes(want)), "a run of the url is read differently")
    ctx.cover("done")

def limit(ctx):
    """a url over the limit is refused"""
    n = ctx.choice("n", [1500, 1519, 1520, 1521, 1522, 1523, 1524, 1600])
    x, out = 3, []
    for i in range(n):
        x = (x * 1103515245 + 12345) & 0x7fffffff
        out.append(chr(1 + (x >> 16) % 255))
    c = "".join(out)
    try: url = write_cart_to_url(Cart(code=c), fast_compress=True)
    except CheckError:
        ctx.check(n >= 1500 and 30 + (n + 2) // 3 * 4 - 4 > 2040, "a cart that fits is refused")
        return
    ctx.check(len(url) - 4 <= 2040, "a url over the limit is written")
    ctx.check(read_cart_from_url(url).code == c, "the code changed in the url")
    ctx.cover("fits")

def harnesses(tier):
    T = tier == "thorough"
    hs = []
    for w in ("start", "mid", "end"): hs.append(H(gfx, params={"where": w, "ranges": [(1, 210), (265, 270)] if T else [(1, 7), (63, 70), (131, 137)]}, bounds="every run length in the range, every color of the run and what follows"))
    hs.append(H(tail, bounds="every color of 4 pixels"))
    hs.append(H(uniform, bounds="every color"))
    for k in ("short1", "short2", "short3", "short4", "long", "empty"): hs.append(H(code, params={"kind": k}, bounds="every value of a code char"))
    hs.append(H(alphabet, bounds="every digit"))
    hs.append(H(limit, bounds="8 sizes around the limit"))
    return hs

TECHNIQUE = "symbolic execution of the url writer and reader on symbolic sprites and code; z3 decides equality of the re-read cart"
OUTSIDE = "runs longer than the bound; more than one symbolic code char at a time"
ASSUMPTIONS = []
META = dict(
    title="A cart's code and sprites survive the URL format",
    statement="Writing a cart as a PICO-8 education URL and reading that URL back gives the same code and the same spritesheet, for every run length and color of the run-length encoded sprites, including blank ends and sheets of one color. The URL only holds URL-safe characters, and one over the size limit is refused.",
    over=["inputs"], text="every code and every spritesheet",
    why="The tests write one or two URLs; the run-length code has corner cases at particular run lengths (3/4, 67/68, 134/135), at the end of the sheet and for color 0.",
    files=["pico_cart.py"], mech=[("url writer", "pico_cart.py: write_cart_to_url"), ("url reader", "pico_cart.py: read_cart_from_url")])
