"""C10: the containers used by exports: pods, picotron's dat and html, icons"""
from sym.ctx import H
import pico_process
import pico_export as pe
from pico_export import PodFile, FullExportBase, lz4_uncompress
import picotron_cart
import picotron_export as px
from picotron_export import SysRom, SysRomExport64, SysRomIndex, HtmlExport64
from media_utils import Surface, Palette, PixelFormat, Color
from utils import CheckError
from props import fakepil
fakepil.install()

def pod_ref(ctx, data):
    """an independent reading of a pod: (header, fields, payload) per entry"""
    def u32(p): return ctx.concretize(data[p] + data[p + 1] * 256 + data[p + 2] * 65536 + data[p + 3] * 2**24)
    ctx.check(ctx.eq(data[0:4], b"CPOD"), "pod header")
    ctx.check(u32(4) == 0x44 and u32(8) == 1, "pod version")
    n, p, out = u32(0x2c), 0x4c, []
    for _ in range(n):
        h = bytes(data[p:p + 4])
        if h in (b"CFIL", b"cFIL"):
            ctx.check(u32(p + 4) == 0, "reserved field")
            size = u32(p + 8)
            name = bytes(data[p + 12:p + 76])
            q = p + 76
            if h == b"cFIL":
                csize = u32(q)
                body = lz4_uncompress(bytes(data[q + 4:q + 4 + csize]))
                q += 4 + csize
            else:
                body = bytes(data[q:q + size])
                q += size
            ctx.check(len(body) == size, "recorded size of a file")
            out.append((h, name, body))
        elif h in (b"CBMP", b"cBMP"):
            size, w, hh, bpp = u32(p + 4), u32(p + 8), u32(p + 12), u32(p + 16)
            ctx.check(u32(p + 20) == 0 and u32(p + 24) == 0, "reserved field")
            q = p + 28
            if h == b"cBMP":
                csize = u32(q)
                body = lz4_uncompress(bytes(data[q + 4:q + 4 + csize]))
                q += 4 + csize
            else:
                body = bytes(data[q:q + size - 0x14])
                q += size - 0x14
            ctx.check(len(body) == size - 0x14 == w * hh * (bpp // 8), "recorded size of a bitmap")
            out.append((h, (w, hh, bpp), body))
        elif h == b"CPAL":
            ctx.check(u32(p + 4) == 0x300, "recorded size of a palette")
            out.append((h, None, bytes(data[p + 8:p + 8 + 0x300])))
            q = p + 8 + 0x300
        else: ctx.check(False, "unknown kind of entry")
        p = q
    ctx.check(p == len(data), "there is something after the last entry")
    return out

def surface(ctx, tag, bpp):
    w, h = 2, 1
    if bpp == 8:
        px = ctx.bytes(tag, 2)
        return Surface.from_data(w, h, PixelFormat.i8, px), px
    px = ctx.bytes(tag, 8)
    return Surface.from_data(w, h, PixelFormat.bgra8, px), px

def pod(ctx, n):
    """entries of any kind are appended or inserted, and then replaced, renamed or deleted"""
    pod = PodFile.create("nm")
    model = []
    for k in range(n):
        kind = ctx.choice("kind%d" % k, ["file", "cfile", "pal", "bmp", "cbmp", "bmp8"])
        at = ctx.choice("at%d" % k, ["end", "begin"])
        comp = kind in ("cfile", "cbmp")
        name = None
        if kind in ("file", "cfile"):
            name = ["f.txt", "", "x" * 60][k % 3]
            c = ctx.bytes("c%d" % k, 1 if n == 2 else 3)
            ref = (b"cFIL" if comp else b"CFIL", name.encode() + bytes(64 - len(name)), c)
        elif kind == "pal":
            c = Palette.create(256)
            v = ctx.bytes("c%d" % k, 3)
            i = ctx.choice("i%d" % k, [0, 255]) if n == 1 else 0
            c[i] = Color(v[0], v[1], v[2])
            raw = [0] * 0x300
            raw[3 * i:3 * i + 3] = list(v)
            ref = (b"CPAL", None, ctx.bytesof(raw))
        else:
            bpp = 8 if kind == "bmp8" else 32
            c, raw = surface(ctx, "c%d" % k, bpp)
            ref = (b"cBMP" if comp else b"CBMP", (2, 1, bpp), raw)
        i = len(model) if at == "end" else 0
        if i == len(model) and at == "end": pod.append_content(name, c, comp)
        else: pod.insert_content(i, name, c, comp)
        model.insert(i, ref)
    def compare(data):
        got = pod_ref(ctx, data)
        ctx.check(len(got) == len(model), "number of entries")
        for a, b in zip(got, model):
            ctx.check(a[0] == b[0] and ctx.eq(a[1], b[1]) if b[0] in (b"CFIL", b"cFIL") else a[:2] == b[:2], "kind, name or size of an entry changed")
            ctx.check(ctx.eq(a[2], b[2]), "an entry's content changed")
    compare(pod.data)
    i = ctx.choice("i", list(range(n)))
    op = ctx.choice("op", ["del", "rep", "rep2", "ren"])
    if op == "del":
        pod.delete_content(i)
        del model[i]
    elif model[i][0] not in (b"CFIL", b"cFIL"): ctx.assume(False)
    else:
        h, nm, old = model[i]
        if op == "ren":
            pod.rename_content(i, "new")
            model[i] = (h, b"new" + bytes(61), old)
        else:
            new = ctx.bytes("new", 3 if op == "rep" else 5)
            pod.replace_content(i, new)
            model[i] = (b"CFIL", nm, new)
    compare(pod.data)
    re = PodFile(bytes(pod.data))
    ctx.check(re.name == "nm", "the pod's name changed")
    ctx.check([(e.pos, e.end_pos, e.header, e.name) for e in re.entries] == [(e.pos, e.end_pos, e.header, e.name) for e in pod.entries], "the entries differ from those reread")
    for e, b in zip(re.entries, model):
        if isinstance(e.content, bytes): c = e.content
        elif isinstance(e.content, Palette): c = ctx.bytesof([x for k in range(256) for x in e.content[k][:3]])
        else: c = e.content.to_data(PixelFormat.bgra8 if b[1][2] == 32 else PixelFormat.i8)
        ctx.check(ctx.eq(c, b[2]), "an entry is reread differently")
    ctx.cover("done")

def sysrom(ctx, n):
    """the picotron dat format"""
    es = [ctx.bytes("e%d" % k, ctx.choice("n%d" % k, [0, 1, 3, 300])) for k in range(n)]
    data = b""
    for e in es: data = data + len(e).to_bytes(4, "big") + e
    r = SysRom(data)
    ctx.check(len(r.entries) == n, "number of entries")
    for k in range(n): ctx.check(ctx.eq(r.get(k), es[k]), "an entry is misread")
    ctx.check(ctx.eq(r.to_bytes(), data), "the dat file changed by rewriting it")
    i = ctx.choice("i", [0, n - 1, n, n + 2])
    v = ctx.bytes("v", 2)
    r.set(i, v)
    r = SysRom(r.to_bytes())
    ctx.check(len(r.entries) == max(n, i + 1), "number of entries")
    for k in range(max(n, i + 1)):
        ctx.check(ctx.eq(r.get(k), v if k == i else es[k] if k < n else b""), "setting an entry changed another")
    ctx.check(r.get(n + 3, strict=False) is None, "an entry that does not exist is found")
    ctx.cover("done")

def html(ctx):
    """the cart inside of an html export"""
    head, tail = 'x="abc";\nvar p64cart="";\n', ';\nexport_home_str = "12ab";\n'
    old = ctx.choice("old", ["", "0f", "ABCDEF012345"])
    ex = HtmlExport64(head + 'p64cart_str="' + old + '"' + tail)
    x = ctx.bytes("x", 3)
    saved = px.write_cart64_to_rom, px.read_cart64_from_rom
    px.write_cart64_to_rom = lambda cart, **o: cart
    px.read_cart64_from_rom = lambda rom, **o: rom
    try:
        ex.set_cart(x)
        ctx.check(ctx.eq(HtmlExport64(ex.text).get_cart(), x), "the cart changed in the html")
    finally: px.write_cart64_to_rom, px.read_cart64_from_rom = saved
    ctx.check(ctx.eq(ex.text[:len(head) + 13], head + 'p64cart_str="'), "text before the cart changed")
    ctx.check(ctx.eq(ex.text[len(head) + 13 + 6:], '"' + tail), "text after the cart changed")
    ctx.check(ctx.eq(ex.text[len(head) + 13:-len(tail) - 1], x.hex()), "cart is not in hex")
    ctx.cover("done")

def icns(ctx, alpha):
    """the mac icon: uncompressed runs of each channel"""
    n = 4 if alpha else 3
    raw = [(k * 7 + k // 50) % 256 for k in range(128 * 128 * n)]
    at = ctx.choice("at", [0, 1, 127, 128, 128 * 128 - 1])
    p = ctx.bytes("p", n)
    raw[at * n:at * n + n] = list(p)
    b = FullExportBase.create_icns_data(None, ctx.bytesof(raw), has_alpha=alpha)
    def u32(o): return b[o] * 2**24 + b[o + 1] * 65536 + b[o + 2] * 256 + b[o + 3]
    ctx.check(bytes(b[0:4]) == b"icns" and u32(4) == len(b), "icns header or size")
    o, found = 8, []
    while o < len(b):
        kind, size = bytes(b[o:o + 4]), u32(o + 4)
        found.append(kind)
        q = o + 8
        if kind == b"it32":
            ctx.check(u32(q) == 0, "it32 header")
            q += 4
            for c in range(3):
                for y in range(128):
                    ctx.check(b[q] == 0x7f, "run header")
                    for x in range(0, 128, 1 if y in (0, 1, 127) else 31): ctx.check(b[q + 1 + x] == raw[(y * 128 + x) * n + c], "a pixel of the icon is wrong")
                    q += 129
        elif kind == b"t8mk":
            for k in list(range(0, 130)) + [128 * 128 - 1]: ctx.check(b[q + k] == (raw[k * n + 3] if alpha else 255), "a mask pixel of the icon is wrong")
            q += 128 * 128
        ctx.check(q == o + size, "recorded size of an icon element")
        o = q
    ctx.check(found == [b"it32", b"t8mk"], "the icon's elements")
    ctx.cover("done")

def exe(ctx, is64):
    """the position of the icon in an exe"""
    def u16(v): return [v % 256, v // 256 % 256]
    def u32(v): return [v % 256, v // 256 % 256, v // 65536 % 256, v // 2**24 % 256]
    pe_at = ctx.choice("pe", [0x40, 0x80])
    nsec = ctx.choice("nsec", [1, 2, 3])
    which = ctx.choice("which", [0, 1, 2])
    ctx.assume(which < nsec)
    named = ctx.choice("named", [0, 1, 2])
    lead = ctx.choice("lead", [0, 1])   # other resources before the icon
    missing = ctx.choice("missing", ["", "type", "lang", "size", "rsrc"])
    rva = 0x1000 * (which + 1)
    icon_rel = ctx.int("icon_rel", 0x200, 0x300)
    d = [0] * 0x3c + u32(pe_at)
    d[0:2] = [77, 90]
    d += [0] * (pe_at - len(d)) + [80, 69, 0, 0] + u16(0x8664 if is64 else 0x14c) + u16(nsec) + u32(0) * 3
    optsize = 240 if is64 else 224
    d += u16(optsize) + u16(0)
    opt = len(d)
    d += u16(0x20b if is64 else 0x10b) + [0] * (optsize - 2)
    at = opt + (2 + 126 if is64 else 2 + 110)   # the third data directory
    ctx.check(at - opt == (112 if is64 else 96) + 16, "harness")
    d[at:at + 4] = u32(rva if missing != "rsrc" else 0x9000)
    for k in range(nsec):
        d += [46, 114, 48 + k] + [0] * 5 + u32(0x800) + u32(0x1000 * (k + 1)) + u32(0x400) + u32(0x400 + 0x800 * k) + [0] * 16
    d += [0] * (0x400 + 0x800 * nsec - len(d))
    base = 0x400 + 0x800 * which
    def dirtab(entries):
        r = [0] * 12 + u16(named) + u16(len(entries)) + [9] * (8 * named)
        for i, o in entries: r += u32(i) + u32(o)
        return r
    top = dirtab([(1, 0x80000700)] * lead + [(3 if missing != "type" else 5, 0x80000080)] + [(14, 0x80000700)])
    second = dirtab([(1, 0x80000100), (2, 0x80000700)])
    third = dirtab([(7, 0x700)] * lead + [(0x409 if missing != "lang" else 0x40a, 0x180)])
    for o, t in ((0, top), (0x80, second), (0x100, third)): d[base + o:base + o + len(t)] = t
    d[base + 0x180:base + 0x188] = u32(rva + icon_rel) + u32(0x10828 if missing != "size" else 0x1000)
    data = ctx.bytesof(d)
    got = FullExportBase.find_icon_offset_in_exe(None, data)
    if missing: ctx.check(got is None, "an icon is found where there is none")
    else: ctx.check(got is not None and got == base + icon_rel + 0x28, "the icon's position in the exe is wrong")
    ctx.cover("done")

def zstr(ctx):
    """finding a text inside of an exe"""
    a = ctx.str("a", 3, chars="\0<k")
    b = ctx.str("b", 2, chars="\0<k")
    data = a + "<?x" + b + "kk\0" + "<?xyKEYz\0" + "<?xKEY\0"
    got = FullExportBase.find_zstr(None, data.encode(), b"<?x", b"KEY")
    ctx.check(got is not None and ctx.eq(got, "<?xyKEYz"), "another text than the first one with the key is found")
    ctx.check(FullExportBase.find_zstr(None, (a + "<?x" + b).encode(), b"<?x", b"KEY") is None, "a text is found where there is none")
    ctx.cover("done")

def harnesses(tier):
    T = tier == "thorough"
    hs = [H(pod, params={"n": n}, bounds="every sequence of that many entries, then every edit; contents of any value") for n in ([1, 2, 3] if T else [1, 2])]
    hs += [H(sysrom, params={"n": n}, bounds="entries of 0, 1, 3 or 300 bytes of any value") for n in ([1, 2, 3] if T else [1, 2])]
    hs += [H(html, bounds="every cart of 3 bytes")]
    hs += [H(icns, params={"alpha": a}, bounds="every color of a pixel at 5 places") for a in (False, True)]
    hs += [H(exe, params={"is64": a}, bounds="every icon position, 1-3 sections, named or other resources, missing parts") for a in (False, True)]
    hs += [H(zstr, bounds="every text of 3 and 2 chars over 3 letters around")]
    return hs

TECHNIQUE = "symbolic execution of the container readers and writers on symbolic contents against independent readers of the formats; z3 decides equality"
OUTSIDE = "the zip files of full exports and the templates they are filled into (they need pico8.dat and picotron.dat, which are not available); bitmaps of pods with a palette"
ASSUMPTIONS = ["PIL is replaced by a stand-in holding pixels"]
META = dict(
    title="The containers inside exports are well-formed and lossless",
    statement="Pods (files, bitmaps and palettes, compressed or not), Picotron's dat files and HTML exports keep every entry's kind, name and content when written, edited (append, insert, replace, rename, delete an entry) and reread; recorded sizes and counts match; editing one entry leaves the others as they were. Mac icons hold exactly the given pixels, and the icon's place in a Windows executable is found exactly where its resource directory says.",
    over=["inputs"], text="every entry content and every order of entries; every icon; every position of the icon in the executable",
    why="These containers are only produced by exports that need proprietary data files, so the tests barely reach them.",
    files=["pico_export.py", "picotron_export.py", "media_utils.py"], mech=[("pod files", "pico_export.py: PodFile"), ("picotron exports", "picotron_export.py: SysRom, HtmlExport64"), ("icons", "pico_export.py: FullExportBase")])
