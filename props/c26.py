"""C26: picotron's p64 source, rom and tiny-rom"""
from sym.ctx import H
import pico_process
import picotron_cart
from picotron_cart import Cart64, read_cart64_from_source, write_cart64_to_source, read_cart64_from_rom, write_cart64_to_rom, write_cart64_to_tiny_rom, write_cart64_to_raw_source
from picotron_fs import PicotronFile, PicotronDir

B64 = b"ABC...XYZabc...xyz0123456789_-"     # PICO-8 and Picotron use _ and - for the last two

def unb64(ctx, text):
    """independent base64 decoder; text is a list of byte values"""
    text = [c for c in text if ctx.fork(c != 10)]
    ctx.check(len(text) % 4 == 0, "base64 of a wrong length")
    out = []
    for i in range(0, len(text), 4):
        q = text[i:i + 4]
        pad = 0
        while pad < 2 and ctx.fork(q[3 - pad] == 61): pad += 1
        v = 0
        for c in q[:4 - pad]:
            d = ctx.ite(ctx.all([c >= 65, c <= 90]), c - 65, ctx.ite(ctx.all([c >= 97, c <= 122]), c - 71, ctx.ite(ctx.all([c >= 48, c <= 57]), c + 4, ctx.ite(c == 95, 62, ctx.ite(c == 45, 63, -1)))))
            ctx.check(d >= 0, "not base64")
            v = v * 64 + d
        v = v << (6 * pad)
        out += [(v >> 16) & 255, (v >> 8) & 255, v & 255][:3 - pad]
    return out

def p64_files(ctx, text):
    """independent reader of the p64 format -> [(name, list of bytes or None)]"""
    lines, line = [], []
    for c in text:
        if ctx.fork(c == 10): lines.append(line); line = []
        else: line.append(c)
    ctx.check(not line, "the last line does not end")
    def is_file(l): return len(l) >= 3 and ctx.fork(ctx.all([l[0] == 58, l[1] == 58, l[2] == 32]))
    ctx.check(bytes(ctx.concretize(c) for c in lines[0][:18]) == b"picotron cartridge", "no p64 header")
    ctx.check(bytes(ctx.concretize(c) for c in lines[1]) == b"version 2", "no version")
    files, name, body = [], None, []
    for l in lines[2:]:
        if is_file(l):
            if name is not None: files.append((name, body))
            name, body = bytes(ctx.concretize(c) for c in l[3:]), []
        else: body.append(l)
    ctx.check(name == b"[eoc]" and not body, "no [eoc] at the end")
    out = []
    for name, body in files:
        if name.endswith(b"/"):
            ctx.check(not body, "a directory with contents")
            out.append((name, None)); continue
        data = [c for i, l in enumerate(body) for c in (([10] if i else []) + l)]
        if len(data) >= 4 and ctx.fork(ctx.all([data[i] == b"b64$"[i] for i in range(4)])): data = unb64(ctx, data[4:])
        out.append((name, data))
    return out

def check_files(ctx, cart, files, what):
    ctx.check(sorted(cart.files) == sorted(files), "%s: files appear or vanish" % what)
    for k, v in files.items():
        f = cart.files[k]
        if v is None: ctx.check(f.is_dir, "%s: a directory became a file" % what)
        else: ctx.check(not f.is_dir and ctx.eq(f.data, v), "%s: the contents of a file changed" % what)

def mkcart(files):
    cart = Cart64()
    for k, v in files.items(): cart.files[k] = PicotronDir() if v is None else PicotronFile(v)
    return cart

def no_crlf(ctx, d):
    for i in range(len(d) - 1): ctx.assume(not ctx.fork(ctx.all([d[i] == 13, d[i + 1] == 10])))

def do_p64(ctx, files, avoid):
    out = write_cart64_to_source(mkcart(files), avoid_base64=avoid)
    got = p64_files(ctx, list(out))
    ctx.check(sorted(n for n, _ in got) == sorted(k.encode() for k in files), "p64: files appear or vanish in the text")
    for n, d in got:
        w = files[n.decode()]
        ctx.check((d is None) == (w is None), "p64: a directory became a file")
        if d is not None: ctx.check(ctx.eq(ctx.bytesof(d), w), "p64: the contents of a file are written wrongly")
    if not avoid:
        for c in out: ctx.check(ctx.any([ctx.all([c >= 32, c <= 126]), c == 9, c == 10, c == 13]), "p64: not plain text")
    back = read_cart64_from_source(bytes(out))
    check_files(ctx, back, files, "p64")
    ctx.cover("done")

def p64_any(ctx, n, avoid):
    """a file of n bytes of any value"""
    d = ctx.bytes("d", n)
    no_crlf(ctx, d)
    do_p64(ctx, {"main.lua": d, "a/": None, "a/b.pod": b"--[[pod]]{}", "x": b""}, avoid)

def p64_text(ctx, n, chars, pre, post, avoid):
    """text made of the given characters"""
    s = ctx.str("s", n, chars=chars)
    d = ctx.bytesof([ord(c) for c in pre] + [ord(c) for c in s] + [ord(c) for c in post])
    no_crlf(ctx, d)
    do_p64(ctx, {"main.lua": b"a=1\n", "z.txt": d}, avoid)

def p64_b64(ctx, top, avoid):
    """binary data of any length up to four lines of base64"""
    n = ctx.concretize(ctx.int("n", 0, top))
    k = ctx.choice("k", [0, 1, 2])
    x = ctx.bytes("x", 1)
    d = [(i * 7 + 3) % 256 if i % 13 == 0 else 97 + i % 26 for i in range(n)]
    d = d[:len(d) * k // 2] + [x[0]] + d[len(d) * k // 2:] + [0]
    no_crlf(ctx, d)
    do_p64(ctx, {"main.lua": ctx.bytesof(d)}, avoid)

def rom_files(ctx, data):
    """independent reader of the contents of a rom"""
    out, at = [], 0
    while at < len(data):
        name = []
        while True:
            c = ctx.concretize(data[at]); at += 1
            if c == 0: break
            name.append(c)
        name = bytes(name)
        if name.endswith(b"/"): out.append((name, None)); continue
        n = ctx.concretize(data[at]); at += 1
        if n == 255:
            n = sum(ctx.concretize(data[at + i]) << (8 * i) for i in range(4)); at += 4
        ctx.check(at + n <= len(data), "rom: a file exceeds the rom")
        out.append((name, data[at:at + n])); at += n
    return out

class Plain:
    """lz4 left out (C11 is about it): the block is the data"""
    def __enter__(s):
        s.old = picotron_cart.lz4_compress, picotron_cart.lz4_uncompress
        picotron_cart.lz4_compress = lambda d, fast=False, debug=None: bytes(d)
        picotron_cart.lz4_uncompress = lambda d, debug=None: bytes(d)
    def __exit__(s, *a): picotron_cart.lz4_compress, picotron_cart.lz4_uncompress = s.old

def do_rom(ctx, files, version=None, padding=0, **opts):
    cart = mkcart(files)
    if version is not None: cart.version_id = version
    sizes = []
    out = write_cart64_to_rom(cart, padding=padding, size_handler=lambda prefix, name, size, limit: sizes.append(size), **opts)
    ctx.check(bytes(out[:3]) == b"p64", "rom: no header")
    n = sum(ctx.concretize(out[4 + i]) << (8 * i) for i in range(4))
    ctx.check(8 + n + padding == len(out), "rom: a wrong size is stored")
    ctx.check(sizes == [] or sizes[-1] == 8 + n, "rom: a wrong size is reported")
    got = rom_files(ctx, out[8:8 + n])
    ctx.check(sorted(a for a, _ in got) == sorted(k.encode() for k in files), "rom: files appear or vanish")
    seen = []
    for name, d in got:
        w = files[name.decode()]
        ctx.check((d is None) == (w is None), "rom: a directory became a file")
        if d is not None: ctx.check(ctx.eq(ctx.bytesof(list(d)), w), "rom: the contents of a file are written wrongly")
        parent = name.rstrip(b"/").rpartition(b"/")[0]
        ctx.check(not parent or parent.decode() + "/" not in files or parent + b"/" in seen, "rom: a file precedes its directory")
        seen.append(name)
    back = read_cart64_from_rom(bytes(out))
    check_files(ctx, back, files, "rom")
    if version is not None: ctx.check(ctx.eq(back.version_id, version), "rom: the version changed")
    ctx.cover("done")

NAMES = ["main.lua", "a/b.lua", "a/", "a/c/", "a/c/d.pod", "x", "gfx/0.gfx", "gfx/", "sfx/", "sfx/0.sfx", ".info.pod", "z/map/0.map", "z/", "z/map/"]

def rom(ctx, names):
    """several files of any contents, in any order"""
    d = ctx.bytes("d", 2)
    files = {}
    for i in range(names):
        k = ctx.choice("k%d" % i, NAMES)
        files[k] = None if k.endswith("/") else ctx.bytesof([d[i % 2]] * i + [65 + i])
    with Plain(): do_rom(ctx, files, version=ctx.int("v", 0, 255), padding=ctx.choice("pad", [0, 4]))

def rom_size(ctx):
    """sizes around the limit of the short form"""
    n = ctx.concretize(ctx.int("n", 0, 520))
    x = ctx.bytes("x", 1)
    with Plain(): do_rom(ctx, {"main.lua": ctx.bytesof([x[0]] + [i % 256 for i in range(n)]), "b": b"tail"})

def rom_lz4(ctx, n, chars):
    """with the real compression"""
    s = ctx.str("s", n, chars=chars)
    with_fast = ctx.choice("fast", [False, True])
    cart = mkcart(files := {"main.lua": ctx.bytesof([ord(c) for c in s]), "a/": None, "a/b.lua": b"print(1)print(1)print(1)print(1)"})
    back = read_cart64_from_rom(bytes(write_cart64_to_rom(cart, fast_compress=with_fast)))
    check_files(ctx, back, files, "rom")
    ctx.cover("done")

def rom_limit(ctx):
    """a cart that is too large is refused, and only such a cart"""
    lim = ctx.int("lim", 20, 60)
    n = ctx.concretize(ctx.int("n", 0, 45))
    size = 8 + len(b"main.lua\0") + 1 + n
    with Plain():
        try:
            out = write_cart64_to_rom(mkcart({"main.lua": b"x" * n}), limit=lim)
            ctx.check(size <= lim, "a rom above the limit is accepted")
            ctx.check(len(out) == size, "a wrong size")
        except pico_process.CheckError:
            ctx.check(size > lim, "a rom within the limit is refused")
    ctx.cover("done")

def do_tiny(ctx, d):
    cart = mkcart({"main.lua": d, "b.lua": b"x=1"})
    sizes = []
    out = write_cart64_to_tiny_rom(cart, size_handler=lambda prefix, name, size, limit: sizes.append(size))
    ctx.check(sizes == [] or sizes[-1] == len(out), "tiny-rom: a wrong size is reported")
    back = read_cart64_from_rom(bytes(out), allow_tiny=True)
    check_files(ctx, back, {"main.lua": d}, "tiny-rom")
    ctx.cover("done")

def tiny(ctx, n, chars, pre, post):
    s = ctx.str("s", n, chars=chars) if chars else ctx.str("s", n)
    do_tiny(ctx, ctx.bytesof([ord(c) for c in pre] + [ord(c) for c in s] + [ord(c) for c in post]))

def tiny_large(ctx, n):
    """code too large for the PICO-8 format"""
    x = ctx.choice("x", [112, 200])
    seed, d = 7, []
    for _ in range(n // 2):
        seed = (seed * 1103515245 + 12345) & 0x7fffffff
        d.append(97 if n > 65536 else 1 + (seed >> 16) % 255)
    with Plain(): do_tiny(ctx, bytes([x] + d + d))

def harnesses(tier):
    T = tier == "thorough"
    hs = []
    for avoid in (False, True):
        for n in (0, 1, 2, 3, 4) + ((5, 6) if T else ()):
            hs.append(H(p64_any, params={"n": n, "avoid": avoid}, bounds="a file of %d bytes of any value (no CR LF pair)" % n))
        for n, chars, pre, post in [(6 if T else 5, "\n: a", "", ""), (4, "\n: a", "x\n", "\n"), (5, "b64$\n", "", "YQ=="), (5, "b64$ ", "", ""), (4, "\r\n:x", "", ""), (3, "\x0b\x0c\x85\r\n", "a", "b"), (3, ": \n", "\n", ": [eoc]"), (3, "\nv ", "", "version 7\nx")]:
            hs.append(H(p64_text, params={"n": n, "chars": chars, "pre": pre, "post": post, "avoid": avoid}, bounds="text of %d of the characters %r between %r and %r" % (n, chars, pre, post)))
        hs.append(H(p64_b64, params={"top": 230 if T else 118, "avoid": avoid}, bounds="any length up to the limit, one of 3 bytes of any value"))
    for n in (1, 2, 3) + ((4,) if T else ()): hs.append(H(rom, params={"names": n}, bounds="%d of 14 names, contents and version of any value" % n))
    hs.append(H(rom_size, bounds="every size of a file up to 521"))
    hs.append(H(rom_limit, bounds="every size up to 45, every limit from 20 to 60"))
    for n, chars in ((10 if T else 7, "ab"), (4, "ab\0\xff")): hs.append(H(rom_lz4, params={"n": n, "chars": chars}, bounds="contents of %d of the characters %r" % (n, chars)))
    for n, chars, pre, post in [(0, "a", "", ""), (1, None, "", ""), (1, None, "\0", "a"), (3, "p64c=:", "", ""), (3, "p64\n", "", "=1"), (4, "\x01p:c", "", "xa=1"), (7 if T else 5, "ab", "", ""), (3, "abx", "print(1)", "print(1)print(1)"), (2, "px", "\x01", "a12345678"), (1, None, "print(1)", "print(1)print(1)"), (1, None, "p6", "=1"), (1, None, "\0px", "aaaaaaaaaaaa")] + ([(2, None, "", "")] if T else []):
        hs.append(H(tiny, params={"n": n, "chars": chars, "pre": pre, "post": post}, bounds="code of %d %s between %r and %r" % (n, "characters of any value" if not chars else "of the characters %r" % chars, pre, post), path_s=60))
    hs.append(H(tiny_large, params={"n": 40000}, bounds="code of 40000 characters, compressed only by lz4 (left out); the first of any value", path_s=200))
    hs.append(H(tiny_large, params={"n": 70000}, bounds="code of 70000 characters", path_s=200))
    return hs

TECHNIQUE = "symbolic execution of the p64, rom and tiny-rom writers and readers on symbolic file contents and sizes, the output read also by independent readers of the formats; z3 decides equality"
OUTSIDE = "CR LF line ends (read as LF by design); names with blanks at their ends; lz4 is replaced with the identity where sizes matter (it is C11's subject)"
ASSUMPTIONS = ["the independent readers' reading of the undocumented formats is that of the repository"]
META = dict(
    title="Picotron carts survive the p64, rom and tiny-rom formats",
    statement="The files and directories of a Picotron cart - of any contents, text or binary - are unchanged after writing the cart as p64 source (with base64 for what is not plain text, or avoiding it) or as a rom and reading it back; a rom holds directories before what is in them, the version, and its right size, and is refused exactly when it exceeds its limit; the code in a tiny rom, whichever of its three encodings is smallest, is read back unchanged.",
    over=["inputs"], text="every contents up to the stated length, every file size up to 521, contents that look like the markers of the formats",
    why="Tests convert a few carts; contents that contain a format's own markers (':: ', 'b64$', 'p64', a lone CR), the 254/255 size boundary and the choice between encodings are only reached by particular data.",
    files=["picotron_cart.py", "picotron_fs.py", "pico_cart.py", "utils.py"],
    mech=[("p64 source", "picotron_cart.py: read_cart64_from_source, write_cart64_to_source"), ("rom", "picotron_cart.py: read_cart64_from_rom, write_cart64_to_rom, ext_order_key"), ("tiny-rom", "picotron_cart.py: write_cart64_to_tiny_rom")])
