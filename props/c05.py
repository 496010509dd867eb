"""C05: rom and tiny-rom images"""
import hashlib
from sym.ctx import H
import pico_process
from pico_cart import *
from pico_defs import *
from utils import *
import c01

def noise(n, seed, lo=0):
    x = seed
    out = []
    for _ in range(n):
        x = (x * 1103515245 + 12345) & 0x7fffffff
        out.append(lo + (x >> 16) % (256 - lo))
    return out

def mkcart(ctx, code, nb=6):
    cart = Cart(code=code)
    data = noise(k_rom_size, 5)
    for i in range(nb): data[[0, 0x1fff, 0x2000, 0x3100, 0x42ff, 0x3333][i]] = ctx.int("d%d" % i, 0, 255)
    cart.rom.replace(ctx.bytesof(data))
    return cart

def check_same(ctx, back, cart, what):
    ctx.check(ctx.eq(bytes(back.rom), bytes(cart.rom)), "%s: the data changed" % what)
    ctx.check(ctx.eq(back.code, cart.code), "%s: the code changed" % what)

def rom(ctx, trailer, mode):
    """data and code through a rom image"""
    s = ctx.str("s", 1 if mode == "compress" else 2, 1, 255)
    code = {"raw": s, "short": "a" + s + "aaaaaaaa", "compress": "print" + s + "print" + s}[mode]
    cart = mkcart(ctx, code)
    opts = dict(force_compress=True) if mode == "compress" else {}
    if trailer:
        cart.version_id = ctx.int("v", 0, 255)
        cart.version_tuple = tuple(ctx.int("v%d" % i, 0, 255) for i in range(4))
        cart.platform = ctx.str("p", 1, 0, 255)
        old, pico_hash = None, None
    data = write_cart_to_rom(cart, **opts)
    ctx.check(len(data) == k_cart_size, "a rom has a wrong size")
    ctx.check(ctx.eq(data[:k_rom_size], bytes(cart.rom)), "the data is not stored as is")
    if mode != "compress": ctx.check(ctx.eq(data[k_rom_size:k_rom_size + len(code)], encode_p8str(code)), "short code is not stored as is")
    if trailer:
        # the trailer is made of the version and of a hash, which is left out (all zero) here so that it stays symbolic
        v = [cart.version_id, *cart.version_tuple[:3], ord(cart.platform), cart.version_tuple[3]]
        data = data + ctx.bytesof(v) + bytes(20 + 6)
    back = read_cart_from_rom(data)
    check_same(ctx, back, cart, "rom")
    if trailer:
        ctx.check(ctx.eq(back.version_id, cart.version_id) and ctx.eq(back.version_tuple, cart.version_tuple), "the version changed")
        ctx.check(ctx.eq(back.platform, cart.platform), "the platform changed")
    ctx.cover("done")

def trailer(ctx):
    """the trailer that is written holds the version and the hash of everything before it"""
    cart = Cart(code="print(1)")
    cart.rom.replace(bytes(noise(k_rom_size, 7)))
    cart.version_id = ctx.int("v", 0, 255)
    cart.version_tuple = tuple(ctx.int("v%d" % i, 0, 255) for i in range(4))
    cart.platform = ctx.str("p", 1, 0, 255)
    data = write_cart_to_rom(cart, with_trailer=True)
    ctx.check(len(data) == k_cart_size + k_trailer_size, "a rom with a trailer has a wrong size")
    t = data[k_cart_size:]
    want = [cart.version_id, *cart.version_tuple[:3], ord(cart.platform), cart.version_tuple[3]]
    ctx.check(ctx.eq(t[:6], ctx.bytesof(want)), "the version is stored wrongly")
    ctx.check(ctx.eq(t[6:26], hashlib.sha1(bytes(ctx.concretize(b) for b in data[:k_cart_size])).digest()), "the stored hash is not that of the cart")
    ctx.check(ctx.eq(t[26:], bytes(6)), "the rest of the trailer is not zero")
    back = read_cart_from_rom(data)
    check_same(ctx, back, cart, "rom")
    ctx.check(ctx.eq(back.version_id, cart.version_id) and ctx.eq(back.version_tuple, cart.version_tuple) and ctx.eq(back.platform, cart.platform), "the version changed")
    ctx.check(not back.default_version and not back.default_platform, "a stored version is taken for the default one")
    ctx.cover("done")

def corrupt(ctx):
    """a cart whose hash does not match its contents is refused; one that matches, or has none, is not"""
    cart = Cart(code="print(1)")
    data = write_cart_to_rom(cart)
    digest = hashlib.sha1(data).digest()
    h = ctx.bytes("h", 20)
    t = bytes([42, 0, 2, 6, 108, 1])
    valid = ctx.any([ctx.eq(h, digest), ctx.eq(h, bytes(20))])
    try: read_cart_from_rom(data + t + h + bytes(6)); ok = True
    except CheckError: ok = False
    ctx.check(ctx.eq(valid, ok), "a wrong hash is accepted, or a right one refused")
    ctx.cover("done")

def flip(ctx):
    """any byte that differs from what was hashed is noticed"""
    cart = Cart(code="print(1)")
    data = write_cart_to_rom(cart, with_trailer=True)
    pos = ctx.choice("pos", [0, 1, 0x2fff, 0x42ff, 0x4300, 0x4305, 0x7ffe, 0x7fff, 0x8006, 0x8019])
    x = ctx.choice("x", [1, 0x80, 0xff])
    bad = bytearray(data); bad[pos] ^= x
    try: read_cart_from_rom(bytes(bad)); ok = True
    except CheckError: ok = False
    ctx.check(not ok, "a damaged cart is accepted")
    ctx.cover("done")

def tiny(ctx, kind, old):
    """code through a tiny rom, compressed or not, whichever is smaller"""
    s = ctx.str("s", 2, 1, 255) if kind == "short" and old else ctx.str("s", 1, 1, 255)
    code = {"short": s, "long": "for i=1,10 do " * 3 + s + "for i=1,10 do print(i) end", "empty": ""}[kind]
    cart = Cart(code=code)
    data = write_cart_to_tiny_rom(cart, old_compress=old)
    ctx.check(len(data) <= max(len(code), 8), "a tiny rom is larger than its code")
    back = read_cart_from_rom(data, allow_tiny=True)
    ctx.check(ctx.eq(back.code, code), "tiny rom: the code changed")
    ctx.check(ctx.eq(bytes(back.rom), bytes(mem_create_rom())), "a tiny rom changed the data")
    ctx.cover("done")

def keep(ctx, old, kind):
    """the compressed code can be kept byte for byte"""
    s = ctx.str("s", 1, 1, 255)
    cart = mkcart(ctx, "for i=1,10 do " * 3 + s + "for i=1,10 do print(i) end")
    junk = ctx.bytes("junk", 3)
    with_junk = write_cart_to_rom(cart, force_compress=True, old_compress=old)
    # another packer may have left other bytes after the code
    data = with_junk[:0x7ff0] + junk + with_junk[0x7ff3:]
    back = read_cart_from_rom(data, keep_compression=True)
    check_same(ctx, back, cart, "rom")
    if kind == "rom":
        ctx.check(ctx.eq(write_cart_to_rom(back, keep_compression=True), data), "kept compressed code changed")
        again = read_cart_from_rom(write_cart_to_rom(back, keep_compression=True))
        check_same(ctx, again, cart, "rom with kept compression")
    else:
        t = write_cart_to_tiny_rom(back, keep_compression=True)
        ctx.check(ctx.eq(t, data[k_rom_size:k_rom_size + len(t)]), "kept compressed code changed")
        ctx.check(len(t) < 0x100, "a tiny rom holds more than the code")
        ctx.check(ctx.eq(read_cart_from_rom(t, allow_tiny=True).code, cart.code), "kept compressed code is cut")
    ctx.cover("done")

def full(ctx, n):
    """code around the size where it must be compressed"""
    s = ctx.str("s", 1, chars="ab\xff")
    code = "a" * (n - 1) + s
    cart = mkcart(ctx, code, 2)
    back = read_cart_from_rom(write_cart_to_rom(cart, fast_compress=True))
    check_same(ctx, back, cart, "rom")
    ctx.cover("done")

def harnesses(tier):
    T = tier == "thorough"
    hs = []
    for t in (False, True):
        for mode in ("raw", "short", "compress"):
            hs.append(H(rom, params={"trailer": t, "mode": mode}, bounds="every value of 6 data bytes, 2 code chars and (with a trailer) the version"))
    hs.append(H(trailer, bounds="every version and platform"))
    hs.append(H(corrupt, bounds="every stored hash"))
    hs.append(H(flip, bounds="10 positions, 3 kinds of damage"))
    for old in (False, True):
        for k in ("short", "long", "empty"): hs.append(H(tiny, params={"kind": k, "old": old}, bounds="every value of 1-2 code chars"))
        for k in ("rom", "tiny"): hs.append(H(keep, params={"old": old, "kind": k}, bounds="every value of a code char, 6 data bytes, 3 trailing bytes"))
    for d in (-1, 0, 1): hs.append(H(full, params={"n": 0x3d00 + d}, bounds="3 last chars, every value of 2 data bytes"))
    return hs

TECHNIQUE = "symbolic execution of the rom writer and reader on symbolic data, code, version and hash bytes; z3 decides equality of the re-read cart"
OUTSIDE = "more than a few symbolic code chars at a time (C01/C02 cover the compression); sha1 itself (its input is concrete where it is computed)"
ASSUMPTIONS = []
META = dict(
    title="Rom and tiny-rom images hold the same cart",
    statement="Data, code, version and platform of a cart are unchanged after writing it as a rom image (with or without the version/hash trailer) or its code as a tiny rom, and reading it back, whether the code is stored as is or compressed; a tiny rom is never larger than its code. When asked to keep the original compression, the compressed code bytes come out unchanged. A cart whose stored hash does not match its contents is refused, a matching or absent hash is accepted.",
    over=["inputs"], text="every rom content, code, version, platform and stored hash",
    why="The tests convert a few carts; the switch between stored and compressed code, sizes at the limits and every byte of the trailer depend on values they do not hold.",
    files=["pico_cart.py", "pico_compress.py"], mech=[("rom writer", "pico_cart.py: write_cart_to_rom, write_cart_to_tiny_rom"), ("rom reader and hash check", "pico_cart.py: read_cart_from_rom"), ("kept compression", "pico_compress.py: get_compressed_size")])
