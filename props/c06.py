"""C06: carts inside of images"""
from sym.ctx import H
import pico_process
import media_utils, fakepil
import pico_cart, picotron_cart
from pico_cart import *
from pico_defs import *
from utils import *

def diff_ok(ctx, a, b, cm, am):
    """the visible part of the pixel is kept"""
    return ctx.all([ctx.eq(x & ~m & 255, y & ~m & 255) for x, y, m in zip(a, b, (cm, cm, cm, am))])

def pixels_of(data):
    return fakepil.MODULE.open(BytesIO(data)).load()

def p8(ctx, mode):
    """data, code and version through an image, whatever the template's pixels"""
    fakepil.install()
    cart = Cart(code="print(1)")
    rom = bytearray(k_rom_size)
    x = 9
    for i in range(k_rom_size):
        x = (x * 1103515245 + 12345) & 0x7fffffff
        rom[i] = (x >> 16) & 255
    pos = [0, 159, 160, 161, 0x2001, 0x42ff]
    rom = list(rom)
    for i, p in enumerate(pos): rom[p] = ctx.int("d%d" % i, 0, 255)
    cart.rom.replace(ctx.bytesof(rom))
    spots = [(0, 0), (1, 0), (159, 0), (0, 1), (17, 25), (1, 51), (159, 204)]
    over = {s: tuple(ctx.int("t%d%s" % (i, c), 0, 255) for c in "rgba") for i, s in enumerate(spots)}
    fakepil.OVERRIDES[(160, 205)] = over
    # (the hash needs concrete data)
    old = pico_cart.hashlib
    class fakehash:
        @staticmethod
        def sha1(d): return fakehash
        @staticmethod
        def digest(): return bytes(range(1, 21))
    pico_cart.hashlib = fakehash
    try:
        png = write_cart_to_image(cart, template_only=(mode == "template"))
        if mode == "clip":
            clip = write_raw_to_clip(png)
            ctx.check(ctx.eq(read_raw_from_clip(clip), png), "the clipboard text holds another image")
            back = read_cart_from_clip(clip)
        else: back = read_cart_from_image(png)
    finally: pico_cart.hashlib = old
    ctx.check(ctx.eq(bytes(back.rom), bytes(cart.rom)), "the data changed in the image")
    ctx.check(back.code == cart.code, "the code changed in the image")
    ctx.check(back.version_id == cart.version_id and back.version_tuple == cart.version_tuple and back.platform == cart.platform, "the version changed in the image")
    px = pixels_of(png)
    if mode == "template":
        for s in spots: ctx.check(diff_ok(ctx, px[s], over[s], 3, 3), "hiding data changed what the image shows")
    ctx.cover("done")

def p8_label(ctx):
    """the label is drawn and read back (0 is transparent: it shows the template)"""
    fakepil.install()
    cart = Cart(code="print(1)", label=MultidimArray(k_label_size, 7))
    pts = [(0, 0), (127, 0), (0, 127), (5, 9)]
    for i, p in enumerate(pts): cart.label[p] = ctx.int("p", 1, 31) if i == 0 else 10 + 6 * i
    png = write_cart_to_image(cart)
    back = read_cart_from_image(png)
    ctx.check(back.code == cart.code, "code")
    ctx.check(ctx.all([ctx.eq(back.label[p], cart.label[p]) for p in pts]), "a label pixel changed in the image")
    ctx.check(all(back.label[x, y] == 7 for x in range(128) for y in range(128) if (x, y) not in pts), "the label changed in the image")
    ctx.cover("done")

def p8_label_file(ctx, which):
    """label and spritesheet images"""
    fakepil.install()
    pts = [(0, 0), (127, 0), (1, 127), (64, 3)]
    vals = [ctx.int("p", 0, 31 if which == "label" else 15), 1, 9, 14]
    if which == "label":
        cart = Cart(label=MultidimArray(k_label_size, 0))
        for p, v in zip(pts, vals): cart.label[p] = v
        back = read_cart_label(write_cart_label(cart))
        ctx.check(ctx.all([ctx.eq(a, b) for a, b in zip(back.label.array, cart.label.array)]), "the label changed")
    else:
        cart = Cart()
        for p, v in zip(pts, vals): cart.rom.set4(mem_sprite_addr(*p), v)
        back = read_cart_spritesheet(write_cart_spritesheet(cart))
        ctx.check(ctx.eq(bytes(back.rom), bytes(cart.rom)), "the spritesheet changed")
    ctx.cover("done")

def size(ctx):
    """images of other sizes, or other files, are refused"""
    fakepil.install()
    w = ctx.choice("w", [160, 159, 161, 205])
    h = ctx.choice("h", [205, 204, 206, 160])
    io = BytesIO()
    fakepil.Image(w, h, [(0, 0, 0, 0)] * (w * h)).save(io)
    hd = ctx.bytes("hd", 2)
    data = hd + io.getvalue()[2:]
    try: read_cart_from_image(data); ok = True
    except CheckError: ok = False
    want = w == 160 and h == 205 and ctx.eq(hd, b"\x89P")
    ctx.check(ctx.eq(ok, want), "an image of a wrong kind is accepted, or a right one refused")
    ctx.cover("done")

def p64(ctx, mode):
    """a picotron cart through an image: 3+3+3+2 bits of every pixel"""
    from picotron_cart import Cart64, read_cart64_from_image, write_cart64_to_image
    from picotron_fs import PicotronFile
    fakepil.install()
    cart = Cart64()
    n = {"short": 1, "mid": 9, "long": 700}[mode]
    s = ctx.bytes("s", 2)
    body = bytes((i * 7 + i // 5 * 3) & 255 for i in range(n))
    cart.files["main.lua"] = PicotronFile(body + s)
    cart.files["label.png"] = PicotronFile(b"notanimage")
    spots = [(0, 0), (1, 0), (7, 0), (511, 0), (0, 1), (511, 383)]
    over = {p: tuple(ctx.int("t%d%s" % (i, c), 0, 255) for c in "rgba") for i, p in enumerate(spots)}
    fakepil.OVERRIDES[(512, 384)] = over
    # storing compressed data is the subject, not the compression
    old = picotron_cart.lz4_compress, picotron_cart.lz4_uncompress
    picotron_cart.lz4_compress = lambda d, *a, **k: d
    picotron_cart.lz4_uncompress = lambda d, *a, **k: d
    try:
        png = write_cart64_to_image(cart, template_only=True)
        back = read_cart64_from_image(png)
    finally: picotron_cart.lz4_compress, picotron_cart.lz4_uncompress = old
    ctx.check(sorted(back.files) == sorted(cart.files), "files are lost or made up in the image")
    for f in cart.files: ctx.check(ctx.eq(back.files[f].data, cart.files[f].data), "a file changed in the image")
    px = pixels_of(png)
    for p in spots: ctx.check(diff_ok(ctx, px[p], over[p], 7, 3), "hiding data changed what the image shows")
    ctx.cover("done")

def harnesses(tier):
    hs = []
    for m in ("template", "full", "clip"): hs.append(H(p8, params={"mode": m}, bounds="every value of 6 data bytes and of 7 template pixels"))
    hs.append(H(p8_label, bounds="every color 1..31 of a pixel"))
    for w in ("label", "spritesheet"): hs.append(H(p8_label_file, params={"which": w}, bounds="every color of a pixel"))
    hs.append(H(size, bounds="4x4 sizes, all first two bytes"))
    for m in ("short", "mid", "long"): hs.append(H(p64, params={"mode": m}, bounds="every value of 2 file bytes and of 6 template pixels", path_s=200))
    return hs

TECHNIQUE = "symbolic execution of the image writers and readers on symbolic data bytes and template pixels; z3 decides equality of the re-read cart and of the visible bits"
OUTSIDE = "PNG encoding itself (PIL is replaced by a stand-in holding plain pixels); drawing of text; sha1 (a fixed digest stands in)"
ASSUMPTIONS = ["fakepil.py stands in for PIL: pixels written are the pixels read back, and drawing copies opaque pixels"]
META = dict(
    title="Carts hidden in images come back unchanged, without altering the picture",
    statement="A PICO-8 or Picotron cart written into a cart image (or into the clipboard text holding one) and read back has the same data, code, files and version, whatever the pixels of the template image. Hiding the data changes only the low bits of each channel (2 for PICO-8; 3, and 2 for alpha, for Picotron). The label, label images and spritesheet images keep every color, and images of a wrong size or kind are refused.",
    over=["inputs"], text="every data byte, every template pixel, every label color",
    why="The tests write a few carts over one template; a bit taken from the wrong channel or lost at the end of the data shows only for some byte and pixel values.",
    files=["pico_cart.py", "picotron_cart.py"], mech=[("pico8 image", "pico_cart.py: write_cart_to_image, read_cart_from_image"), ("picotron image", "picotron_cart.py: write_cart64_to_image, read_cart64_from_image"), ("label colors", "pico_cart.py: surface_pixels_to_screenshot, create_screenshot_surface")])
