"""C33: creating, reading and editing exports through the command line"""
import os, base64
from sym.ctx import H
import pico_process
import fakepil, cli
import pico_export, picotron_export
from pico_defs import k_palette, get_default_pico8_version
from picotron_cart import *
from picotron_fs import PicotronFile, PicotronDir, UserData, write_pod
from picotron_defs import k_palette_64

SIZE = 0x8000

# --- the carts

def rom(k, code=None, b=None, at=0x120):
    """the rom of a cart, told apart by k"""
    code = code if code is not None else b"x%d=1" % k
    d = bytes([k, 255 - k]) + bytes(at - 2)
    d = d + (b if b is not None else bytes([k]))
    return d + bytes(0x4300 - len(d)) + code + bytes(SIZE - 0x4300 - len(code))

LABEL = [[(x + y * 3) % 16 if x < 8 or y % 8 == 0 else 0 for x in range(128)] for y in range(128)]

def p8(k, label=False, version=29):
    hexes = "0123456789abcdefghijklmnopqrstuv"
    s = "pico-8 cartridge // http://www.pico-8.com\nversion %d\n__lua__\nx%d=1\n" % (version, k)
    if label: s += "__label__\n" + "".join("".join(hexes[v] for v in row) + "\n" for row in LABEL)
    return s

# --- independent writers and readers of what pico-8 has

def u32(v): return v.to_bytes(4, "little")
def z(s, n): return s.encode() + bytes(n - len(s))

def pod_bytes(entries, name=""):
    out = b"CPOD" + u32(0x44) + u32(1) + z(name, 32) + u32(len(entries)) + bytes(28)
    for e in entries:
        if len(e) == 2: out = out + b"CFIL" + u32(0) + u32(len(e[1])) + z(e[0], 64) + e[1]
        else: out = out + b"CBMP" + u32(len(e[3]) + 0x14) + u32(e[0]) + u32(e[1]) + u32(e[2]) + u32(0) * 2 + e[3]
    return out

def parse_pod(ctx, d):
    def u(p): return ctx.concretize(d[p] + d[p + 1] * 256 + d[p + 2] * 65536 + d[p + 3] * 2**24)
    ctx.check(ctx.eq(d[0:4], b"CPOD") and u(4) == 0x44 and u(8) == 1, "pod header")
    name = bytes(d[12:44]).rstrip(b"\0").decode()
    p, out = 0x4c, []
    for _ in range(u(0x2c)):
        h = bytes(d[p:p + 4])
        if h in (b"CFIL", b"cFIL"):
            size, nm, q = u(p + 8), bytes(d[p + 12:p + 76]).rstrip(b"\0").decode(), p + 76
            n, q = (u(q), q + 4) if h == b"cFIL" else (size, q)
            body = bytes(d[q:q + n])
            out.append((nm, pico_export.lz4_uncompress(body) if h == b"cFIL" else body))
        else:
            ctx.check(h in (b"CBMP", b"cBMP"), "an unknown entry")
            size, w, hh, bpp, q = u(p + 4), u(p + 8), u(p + 12), u(p + 16), p + 28
            n, q = (u(q), q + 4) if h == b"cBMP" else (size - 20, q)
            body = bytes(d[q:q + n])
            out.append((w, hh, bpp, pico_export.lz4_uncompress(body) if h == b"cBMP" else body))
        p = q + n
    ctx.check(p == len(d), "the pod's size")
    return name, out

def parse_js(ctx, text):
    """-> names, roms, rest of the text"""
    i = text.index("var _cartname=[") + 15
    j = text.index("]", i)
    names = [n.strip() for n in text[i:j].split(",")] if text[i:j].strip() else []
    for n in names: ctx.check(len(n) > 1 and n[0] == n[-1] and n[0] in "`\"'", "a name is not quoted")
    k = text.index("var _cartdat=[", j) + 14
    l = text.index("]", k)
    data = ctx.bytesof([int(t) for t in text[k:l].split(",")]) if text[k:l].strip() else b""
    ctx.check(len(data) == SIZE * len(names), "the size of the carts' data")
    return [n[1:-1] for n in names], [data[SIZE * n:SIZE * n + SIZE] for n in range(len(names))], text[:i] + text[j:k] + text[l:]

def js_text(carts):
    return "var _cartname=[%s];\nvar _cdpos=0;\nvar _cartdat=[%s];\nrest(1)[2];\n" % (", ".join("`%s`" % n for n, r in carts), ",".join(["%d" % b for n, r in carts for b in r]))

def exe_bytes(with_icon=True):
    """a windows executable with an icon (of 128x128 pixels), and a plist template"""
    def u16(v): return v.to_bytes(2, "little")
    d = bytearray(b"MZ" + bytes(0x3a) + u32(0x40) + b"PE\0\0" + u16(0x14c) + u16(1) + u32(0) * 3 + u16(224) + u16(0) + u16(0x10b) + bytes(110) + u32(0x1000) + bytes(224 - 116))
    d += b".rsrc\0\0\0" + u32(0x20000) + u32(0x1000) + u32(0x20000) + u32(0x200) + bytes(16)
    d += bytes(0x200 - len(d))
    def dirtab(i, o): return bytes(12) + u16(0) + u16(1) + u32(i) + u32(o)
    res = bytearray(0x200)
    res[0:24] = dirtab(3, 0x80000040)
    res[0x40:0x58] = dirtab(1, 0x80000080)
    res[0x80:0x98] = dirtab(0x409, 0xc0)
    res[0xc0:0xc8] = u32(0x1000 + 0x200) + u32(0x10828 if with_icon else 0x1234)
    return bytes(d) + bytes(res) + bytes([7]) * 0x28 + bytes([9]) * 0x10000 + bytes([5]) * 0x800 + b"\0" + PLIST + b"\0end"
ICON_AT = 0x200 + 0x200 + 0x28

PLIST = b"<?xml plist <key>CFBundleExecutable</key> a=%s b=%s.%s c=%s.icns >"
PJS, WJS = "js(_cartdat);\n", "wjs('pico8_wasm.wasm');\n"
SHELL = "<html><script src=\"##js_file##\"></script><img src=\"##label_file##\"></html>"
BOOT = "pico-8 cartridge // http://www.pico-8.com\nversion 41\n__lua__\nboot=1\n"
BIG, SCREEN = bytes(range(24)), bytes([3]) * (4 * 4 * 4)
FW = [("./SDL2", b"lib"), ("./Resources", b""), ("./Resources/Info.plist", b"pl"), ("./_CodeSignature/x", b"sig"), ("", b"no"), ("other", b"no")]

def pico8_dat(exe=None, extra=b""):
    gfx = pod_bytes([(2, 1, 32, bytes(8)), ("f", b"ile"), (1, 1, 32, b"abcd"), (1, 1, 32, b"efgh"), (6, 4, 8, BIG), (1, 1, 32, b"ijkl"), (4, 4, 32, SCREEN), ("last", b"" + extra)], "gfxname")
    fp = pod_bytes([("foo", b"bar"), ("q", b"")], "fname")
    html = pod_bytes([("src/pico8.js", PJS.encode()), ("src/pico8_wasm.js", WJS.encode()), ("src/shell.html", SHELL.encode()), ("src/pico8_wasm.wasm", b"\0asm" + extra)])
    bins = pod_bytes([("bin/pico8.exe", exe or b"MZ"), ("bin/SDL2.dll", b"dll" + extra), ("bin/pico8_dyn.amd64", b"linux"), ("builds/pi_builds/pico8_player", b"pi"), ("builds/pi_builds/pico8_player_64", b"pi64"),
        ("builds/osx_builds/pico8.icns", b"icns"), ("builds/osx_builds/pico8_player", b"osx"), ("builds/osx_builds/sdl2_framework.pod", pod_bytes(FW))])
    return pod_bytes([("pod/pico8_boot.p8", BOOT.encode()), ("pod/gfx1.pod", gfx), ("pod/f_pico8.pod", fp), ("pod/f_html5.pod", html), ("pod/f_bin.pod", bins)])

class Zip:
    """a stand-in for ZipFile: records what is put into it"""
    def __init__(s, path, mode="r"):
        s.entries = []
        DISK[0].files[cli.norm(path)] = s
        DISK[0].log.append(cli.norm(path))
        if mode != "w" or os.path.dirname(cli.norm(path)) not in DISK[0].dirs: raise FileNotFoundError(2, "no such directory", path)
    def writestr(s, info, data): s.entries.append((info, data))
    def __enter__(s): return s
    def __exit__(s, *a): pass
    def listing(s): return {i.filename: (bool(i.external_attr >> 16 & 0o100), None if i.filename.endswith("/") else d) for i, d in s.entries}
DISK = [None]

def run(disk, args, lang="pico8"):
    DISK[0] = disk
    fakepil.install()
    saved = pico_export.ZipFile, picotron_export.ZipFile, os.environ.get("PICO8_EXPORT_REPRO_TIME")
    pico_export.ZipFile = picotron_export.ZipFile = Zip
    os.environ["PICO8_EXPORT_REPRO_TIME"] = "1000000000"
    try:
        with disk: return cli.main(args, lang)
    finally:
        pico_export.ZipFile, picotron_export.ZipFile = saved[:2]
        if saved[2] is None: del os.environ["PICO8_EXPORT_REPRO_TIME"]
        else: os.environ["PICO8_EXPORT_REPRO_TIME"] = saved[2]

def check_pod(ctx, data, names, roms, version, title, label):
    name, es = parse_pod(ctx, data)
    ctx.check([e[0] for e in es] == ["", "", ""] + names, "the carts in the pod are %s" % [e[0] for e in es[3:]])
    for k, r in enumerate(roms): ctx.check(ctx.eq(es[3 + k][1], r), "a cart's data in the pod")
    boot = es[0][1].decode()
    ctx.check("version %d\n" % version in boot and "__lua__\nboot=1\n" in boot, "the boot cart")
    nm, gfx = parse_pod(ctx, es[1][1])
    ctx.check(nm == "gfxname" and gfx[:4] == [(2, 1, 32, bytes(8)), ("f", b"ile"), (1, 1, 32, b"abcd"), (1, 1, 32, b"efgh")] and gfx[5] == (1, 1, 32, b"ijkl"), "what is not the cart's in the pod")
    t = title.encode() + b"\0"
    ctx.check(gfx[4][:3] == (6, 4, 8) and ctx.eq(gfx[4][3], t + BIG[len(t):]), "the window's title")
    if label:
        want = []
        for row in LABEL:
            for v in row: want += [k_palette[v].b, k_palette[v].g, k_palette[v].r, 255]
        ctx.check(gfx[6][:3] == (128, 128, 32) and gfx[6][3] == bytes(want), "the label in the pod")
    else: ctx.check(gfx[6] == (4, 4, 32, SCREEN), "the picture in the pod")
    ctx.check(gfx[7][0] == "last" and len(gfx) == 8, "the pod's other files")
    ctx.check(parse_pod(ctx, es[2][1]) == ("fname", [("foo", b"bar"), ("q", b"")]), "the pod's other pods")
    return gfx[7][1]

def check_js(ctx, text, names, roms, js):
    n, r, rest = parse_js(ctx, text)
    ctx.check(n == names, "the carts in the js are %s, not %s" % (n, names))
    for a, b in zip(r, roms): ctx.check(ctx.eq(a, b), "a cart's data in the js")
    ctx.check(rest.startswith("var _cartname=[];\n") and rest.endswith("];\n\n" + js), "the rest of the js")

def create(ctx, fmt, n):
    """a new export holds the main cart and the extra ones, in order, and what pico8.dat has"""
    v = ctx.bytes("v", 1, 100 if fmt != "pod" and n > 1 else 0, 255)
    at = ctx.choice("at", [0x120, 0x42ff]) if n == 1 else 0x120
    roms = [rom(k, b=v if k == n - 1 else None, at=at) for k in range(n)]
    files = {"c%d.rom" % k: roms[k] for k in range(n)}
    files["d/pico8.dat"] = pico8_dat(extra=v)
    by_ext = ctx.fork(ctx.bool("by_ext"))
    out = "o/my" + ("." + fmt if by_ext else ".x")
    main_name = ctx.choice("main_name", [None, "main"])
    how = ctx.choice("how", ["positional", "option", "named"]) if n > 1 else "positional"
    names = [main_name or "c0.rom"] + ["c%d.rom" % k for k in range(1, n)]
    args = ["c0.rom"]
    if how == "positional": args += ["c%d.rom" % k for k in range(1, n)]
    args += [out, "--pico8-dat", "d/pico8.dat"]
    if how == "option":
        for k in range(1, n): args += ["--extra-input", "c%d.rom" % k] + (["rom"] if k == 1 else [])
    if how == "named":
        names[1:] = ["n%d" % k for k in range(1, n)]
        for k in range(1, n): args += ["--extra-input", "c%d.rom" % k, "rom", "n%d" % k]
    if not by_ext: args += ["-f", fmt]
    if main_name: args += ["--output-cart", main_name]
    title = ctx.choice("title", [None, "T", "a longer title"]) if fmt == "pod" else None
    if title: args += ["--export-name", title]
    version = ctx.choice("version", [None, 30])
    if version: args += ["--output-version", str(version)]
    disk = cli.Disk(files, dirs=["d", "o"])
    rc = run(disk, args)
    ctx.check(rc == 0 and not disk.out, "fails: %s" % disk.err)
    ctx.check(disk.log == [cli.norm(out)], "other files are written")
    if fmt == "js": check_js(ctx, disk.files[out], names, roms, PJS)
    else: ctx.check(ctx.eq(check_pod(ctx, disk.files[out], names, roms, version or get_default_pico8_version(), title or "my", False), v), "a file in the pod")
    ctx.cover("done")

def bin8(ctx, label, icon):
    """the directory of all exports of a cart"""
    v = ctx.bytes("v", 1, 100, 255)
    files = {"c.p8": p8(1, label), "e.rom": rom(2, b=v), "dat": pico8_dat(exe=exe_bytes(icon), extra=v)}
    name = ctx.choice("name", [None, "N"])
    clean = ctx.fork(ctx.bool("clean"))
    files["o/my/old.txt"] = b"old"
    disk = cli.Disk(files, dirs=["o", "o/my"])
    rc = run(disk, ["c.p8", "e.rom", "o/my", "-f", "bin", "--pico8-dat", "dat"] + (["--export-name", name] if name else []) + (["--clean-output-dir"] if clean else []))
    ctx.check(rc == 0, "fails: %s" % disk.err)
    N = name or "my"
    got = {k[5:]: d for k, d in disk.files.items() if k.startswith("o/my/")}
    ctx.check(("old.txt" in got) == (not clean), "what was in the directory before")
    got.pop("old.txt", None)
    want = ["_html/%s.html", "_html/%s.js", "_wasm/%s.html", "_wasm/%s.js", "_wasm/%s.wasm"]
    ctx.check(set(got) == {N + w % N for w in want} | {N + "_%s.zip" % w for w in ("windows", "linux", "raspi", "osx")}, "the files are %s" % sorted(got))
    main = rom(1)[:0]
    main = bytes(0x4300) + b"x1=1" + bytes(SIZE - 0x4304)
    names, roms = ["c.p8", "e.rom"], [None, files["e.rom"]]
    jn, jr, rest = parse_js(ctx, got[N + "_html/%s.js" % N])
    roms[0] = jr[0]
    ctx.check(bytes(jr[0][0x4300:0x4304]) == b"x1=1", "the main cart's code")
    check_js(ctx, got[N + "_html/%s.js" % N], names, roms, PJS)
    check_js(ctx, got[N + "_wasm/%s.js" % N], names, roms, WJS.replace("pico8_wasm", N))
    ctx.check(ctx.eq(got[N + "_wasm/%s.wasm" % N], b"\0asm" + v), "the wasm file")
    url = ""
    h = got[N + "_html/%s.html" % N]
    a, b = SHELL.replace("##js_file##", N + ".js").split("##label_file##")
    ctx.check(h == got[N + "_wasm/%s.html" % N] and h.startswith(a) and h.endswith(b), "the html")
    url = h[len(a):len(h) - len(b)]
    pal = [tuple(k_palette[i])[:3] for i in range(16)]
    def is_label(png):
        im = fakepil.parse(png)
        return (im.width, im.height) == (128, 128) and [tuple(p[:3]) for p in im.px] == [pal[c] for row in LABEL for c in row]
    if label: ctx.check(url.startswith("data:image/png;base64,") and is_label(base64.b64decode(url[22:])), "the label in the html")
    else: ctx.check(url == "", "a label where there is none")
    z_ = {k: got[N + "_%s.zip" % k].listing() for k in ("windows", "linux", "raspi", "osx")}
    for zz in got.values():
        if isinstance(zz, Zip):
            ctx.check(len({i.filename for i, d in zz.entries}) == len(zz.entries), "a file is in a zip twice")
            ctx.check(all(i.create_system == 3 and i.date_time[:2] == (2001, 9) for i, d in zz.entries), "the time of files in a zip")
    exe = exe_bytes(icon)
    if label and icon:
        px = b"".join(bytes([pal[c][2], pal[c][1], pal[c][0], 255]) for row in reversed(LABEL) for c in row)
        exe = exe[:ICON_AT] + px + exe[ICON_AT + 0x10000:]
    pod = z_["windows"][N + "_windows/data.pod"][1]
    check_pod(ctx, pod, names, roms, 29, N, label)
    W = N + "_windows/"
    expect = {W + N + ".exe": (True, exe), W + "data.pod": (False, pod), W + "SDL2.dll": (False, b"dll" + v)}
    compare(ctx, z_["windows"], expect, "windows")
    lpng = z_["linux"].pop(N + "_linux/%s.png" % N, None)
    rpng = z_["raspi"].pop(N + "_raspi/%s.png" % N, None)
    for x in (lpng, rpng): ctx.check((x is not None) == label and (x is None or x[0] is False and is_label(x[1])), "the picture in a zip")
    compare(ctx, z_["linux"], {N + "_linux/data.pod": (False, pod), N + "_linux/" + N: (True, b"linux")}, "linux")
    compare(ctx, z_["raspi"], {N + "_raspi/data.pod": (False, pod), N + "_raspi/" + N: (True, b"pi"), N + "_raspi/" + N + "_64": (True, b"pi64")}, "raspi")
    A = N + ".app/Contents/"
    plist = PLIST.decode().replace("%s.%s", "pico8_author." + N).replace("%s", N).encode()
    osx = {A: (True, None), A + "MacOS/": (True, None), A + "Resources/": (True, None), A + "MacOS/data.pod": (False, pod), A + "MacOS/" + N: (True, b"osx"), A + "Info.plist": (False, plist),
        A + "Frameworks/": (True, None), A + "Frameworks/SDL2.framework/": (True, None), A + "Frameworks/SDL2.framework/Versions/": (True, None)}
    for d, sig in (("", False), ("Versions/Current/", True), ("Versions/A/", True)):
        F = A + "Frameworks/SDL2.framework/" + d
        osx.update({F: (True, None), F + "SDL2": (True, b"lib"), F + "Resources/": (True, None), F + "Resources/Info.plist": (False, b"pl")})
        if sig: osx[F + "_CodeSignature/x"] = (True, b"sig")
    icns = z_["osx"].pop(A + "Resources/%s.icns" % N)
    chan = lambda i: b"".join(b"\x7f" + bytes([pal[c][i] for c in row]) for row in LABEL)
    body = b"it32" + (0xc + 0x80 * 0x81 * 3).to_bytes(4, "big") + bytes(4) + chan(0) + chan(1) + chan(2) + b"t8mk" + (8 + 0x4000).to_bytes(4, "big") + b"\xff" * 0x4000
    ctx.check(icns == (False, b"icns" + (len(body) + 8).to_bytes(4, "big") + body if label else b"icns"), "the mac icon")
    compare(ctx, z_["osx"], osx, "osx")
    ctx.cover("done")

def compare(ctx, got, want, what):
    ctx.check(sorted(got) == sorted(want), "%s: files %s" % (what, sorted(set(got) ^ set(want))))
    for k, (x, d) in want.items():
        ctx.check(got[k][0] == x, "%s: %s: executable or not" % (what, k))
        ctx.check((got[k][1] is None) == (d is None) and (d is None or ctx.eq(got[k][1], d)), "%s: %s: contents" % (what, k))

def export_of(fmt, carts):
    return js_text(carts) if fmt == "js" else pod_bytes([("", BOOT.encode()), ("", b"CP"), ("", b"")] + [(n, r) for n, r in carts])

def carts_of(ctx, fmt, data):
    if fmt == "js":
        n, r, rest = parse_js(ctx, data)
        return list(zip(n, r)), rest
    name, es = parse_pod(ctx, data)
    return [e for e in es if e[0]], [e for e in es if not e[0]]

def read(ctx, fmt):
    """listing, reading and dumping the carts of an export, and making another export of it"""
    n = ctx.choice("n", [1, 2])
    v = ctx.bytes("v", 1, 100, 255)
    carts = [("a.p8", rom(1)), ("sub/b", rom(2, b=v))][:n]
    if n == 1: carts = [("a.p8", rom(1, b=v))]
    op = ctx.choice("op", ["list", "main", "cart", "absent", "dump", "dump rom", "convert", "convert cart"])
    disk = cli.Disk({"in." + fmt: export_of(fmt, carts), "dat": pico8_dat()}, dirs=["o"])
    other = "pod" if fmt == "js" else "js"
    last = carts[-1][0]
    args = {"list": ["--list"], "main": ["o/out.rom"], "cart": ["o/out.rom", "--cart", last], "absent": ["o/out.rom", "--cart", "zz"], "dump": ["--dump", "o/dump"], "dump rom": ["--dump", "o/dump", "-f", "rom"],
        "convert": ["o/out." + other, "--pico8-dat", "dat"], "convert cart": ["o/out." + other, "--pico8-dat", "dat", "--cart", last]}[op]
    rc = run(disk, ["in." + fmt] + args)
    ctx.check((rc == 0) == (op != "absent"), "fails, or does not: %s" % disk.err)
    if op in ("list", "absent"): ctx.check(disk.log == [] and [l[0] for l in disk.out] == ([c[0] for c in carts] if op == "list" else []), "the list: %s" % disk.out)
    elif op in ("main", "cart"): ctx.check(ctx.eq(disk.files["o/out.rom"], carts[0 if op == "main" else -1][1]) and len(disk.log) == 1, "another cart is read")
    elif op[:4] == "dump":
        got = {k[7:]: d for k, d in disk.files.items() if k.startswith("o/dump/")}
        ctx.check(sorted(got) == sorted(c[0].replace("/", "_") for c in carts), "other files: %s" % sorted(got))
        for k, r in carts:
            d = got[k.replace("/", "_")]
            if op == "dump rom": ctx.check(ctx.eq(d, r), "the rom that is dumped")
            else:
                disk2 = cli.Disk({"x.p8": d})
                ctx.check(run(disk2, ["x.p8", "y.rom"]) == 0 and ctx.eq(disk2.files["y.rom"], r), "the cart that is dumped")
    else:
        got, rest = carts_of(ctx, other, disk.files["o/out." + other])
        want = carts if op == "convert" else carts[-1:]
        ctx.check([g[0] for g in got] == [os.path.basename(c[0]) for c in want], "the carts of the new export: %s" % [g[0] for g in got])
        for g, w in zip(got, want): ctx.check(ctx.eq(g[1], w[1]), "a cart of the new export")
    ctx.cover("done")

def edit(ctx, fmt):
    """carts of an existing export are inserted, replaced, deleted and renamed as told"""
    n = ctx.choice("n", [1, 2])
    v = ctx.bytes("v", 1, 100, 255)
    carts = [("a", rom(1)), ("b", rom(2))][:n]
    new = rom(3, b=v)
    op = ctx.choice("op", ["ins", "ins name", "ins before", "ins taken", "ins absent", "rep", "rep name", "rep absent", "del", "del absent", "ren", "ren taken", "ren absent"])
    last = carts[-1][0]
    args, want = {"ins": (["--insert-cart"], carts + [("in.rom", new)]), "ins name": (["--insert-cart", "x"], carts + [("x", new)]), "ins before": (["--insert-cart", "x", last], carts[:-1] + [("x", new)] + carts[-1:]),
        "ins taken": (["--insert-cart", "a"], None), "ins absent": (["--insert-cart", "x", "zz"], None), "rep": (["--replace-cart"], [("a", new)] + carts[1:]), "rep name": (["--replace-cart", last], carts[:-1] + [(last, new)]),
        "rep absent": (["--replace-cart", "zz"], None), "del": (["--delete-cart", last], carts[:-1]), "del absent": (["--delete-cart", "zz"], None), "ren": (["--rename-cart", last, "y"], carts[:-1] + [("y", carts[-1][1])]),
        "ren taken": (["--rename-cart", last, "a"], None), "ren absent": (["--rename-cart", "zz", "y"], None)}[op]
    before = export_of(fmt, carts)
    disk = cli.Disk({"in.rom": new, "e.x": before})
    rc = run(disk, (["e.x"] if op[:3] in ("del", "ren") else ["in.rom", "e.x"]) + ["-f", fmt] + args)
    ctx.check((rc == 0) == (want is not None), "an edit is refused or accepted: %s" % disk.err)
    if want is None: ctx.check(disk.log == [], "a refused edit writes a file")
    else:
        (a, rest0), (b, rest1) = carts_of(ctx, fmt, before), carts_of(ctx, fmt, disk.files["e.x"])
        ctx.check([x[0] for x in b] == [x[0] for x in want], "the carts are %s" % [x[0] for x in b])
        for x, y in zip(b, want): ctx.check(ctx.eq(x[1], y[1]), "a cart's data")
        ctx.check(rest0 == rest1, "the rest of the export changes")
    ctx.cover("done")

def misc(ctx):
    """dumping pico8.dat, and what is refused"""
    v = ctx.bytes("v", 1, 0, 255)
    op = ctx.choice("op", ["dump", "dump misc", "list dat", "read dat", "write dat", "no dat", "missing dat", "bad dat", "extra for cart"])
    gfx = pod_bytes([(1, 1, 32, b"abcd"), ("f", b"ile" + v)])
    disk = cli.Disk({"p.dat": pod_bytes([("a/b.txt", b"x" + v), ("sub.POD", gfx), ("k", b"")]), "in.rom": rom(1), "bad": b"nope", "e.rom": rom(2), "in.pod": pod_bytes([("", b"boot"), ("", gfx), ("", pod_bytes([("ff", v)])), ("c", rom(4))])}, dirs=["d"])
    args = {"dump": ["p.dat", "--dump", "d/q"], "dump misc": ["in.pod", "--dump", "d/q", "--dump-misc-too", "-f", "rom"], "list dat": ["p.dat", "--list"], "read dat": ["p.dat", "o.rom"], "write dat": ["in.rom", "o.dat", "--pico8-dat", "p.dat"], "no dat": ["in.rom", "o.js"],
        "missing dat": ["in.rom", "o.js", "--pico8-dat", "zz"], "bad dat": ["in.rom", "o.js", "--pico8-dat", "bad"], "extra for cart": ["in.rom", "o.rom", "--extra-input", "e.rom"]}[op]
    rc = run(disk, args)
    ctx.check((rc == 0) == (op[:4] == "dump"), "fails or not: %s" % disk.err)
    got = {k[4:]: d for k, d in disk.files.items() if k.startswith("d/q/")}
    if op == "dump":
        ctx.check(sorted(got) == ["a_b.txt", "k", "sub/0.png", "sub/f"] and ctx.eq(got["a_b.txt"], b"x" + v) and ctx.eq(got["sub/f"], b"ile" + v) and got["k"] == b"", "the files that are dumped: %s" % sorted(got))
        im = fakepil.parse(got["sub/0.png"])
        ctx.check([tuple(p) for p in im.px] == [(99, 98, 97, 100)], "a picture that is dumped")
    elif op == "dump misc": ctx.check(set(got) == {"c", "pod_gfx1/0.png", "pod_gfx1/f", "pod_pico8_boot.p8", "pod_f_pico8/ff"} and ctx.eq(got["c"], rom(4)) and ctx.eq(got["pod_f_pico8/ff"], v) and got["pod_pico8_boot.p8"] == b"boot", "the files that are dumped: %s" % sorted(got))
    else: ctx.check(disk.log == [], "a file is written, though it fails")
    ctx.cover("done")

def process(ctx, fmt):
    """every cart of an export is processed"""
    v = ctx.bytes("v", 1, 100, 122)
    n = ctx.choice("n", [1, 2, 3] if fmt == "pod" else [1, 2])
    files = {"c%d.rom" % k: rom(k, b"%c =  %d --c" % (97 + k, k) if k else v + b" =  %d --c" % k) for k in range(n)}
    disk = cli.Disk(dict(files, dat=pico8_dat()))
    mode = ctx.choice("mode", [None, "-M"])
    rc = run(disk, ["c%d.rom" % k for k in range(n)] + ["o." + fmt, "--pico8-dat", "dat"] + ([mode] if mode else []))
    ctx.check(rc == 0, "fails: %s" % disk.err)
    got, rest = carts_of(ctx, fmt, disk.files["o." + fmt])
    ctx.check(len(got) == n, "the number of carts")
    for k in range(n):
        code = b" =  %d --c\0" % k if mode is None else b"=%d\0" % k
        got_code = got[k][1][0x4300:0x4301 + len(code)]
        ctx.check(ctx.eq(got_code[1:], code), "the code of cart %d" % k)
        if mode is None: ctx.check(ctx.eq(got_code[:1], b"%c" % (97 + k) if k else v), "the code of cart %d" % k)
        else: ctx.check(97 <= got_code[0] <= 122, "the variable of cart %d" % k)
    ctx.cover("done")

# --- picotron

HTML = "<html><title>##page_title##</title>\n<script>// ##pcart##  \n\nafter(\"p64cart\");</script><img src=\"##label_file##\"></html>"
JS = "player('x');\nvar q=1;\n"

def be(d): return len(d).to_bytes(4, "big") + d
def cart64(files):
    c = Cart64()
    for k, d in files.items(): c.files[k] = PicotronDir() if d is None else PicotronFile(d)
    return c
FW64 = {"SDL2": b"lib", "Resources/": None, "Resources/Info.plist": b"pl", "_CodeSignature/": None, "_CodeSignature/x": b"sig", ".info.pod": b"--[[pod]]"}

def sysrom(entries): return b"".join([be(x) for x in entries])
def parse_sysrom(ctx, d):
    out, p = [], 0
    while p < len(d):
        n = ctx.concretize(d[p] * 2**24 + d[p + 1] * 65536 + d[p + 2] * 256 + d[p + 3])
        out.append(bytes(d[p + 4:p + 4 + n]))
        p += 4 + n
    ctx.check(p == len(d), "the size of the dat file")
    return out

def picotron_dat(exe=b"MZ", v=b""):
    html = write_cart64_to_rom(cart64({"shell.html": HTML.encode(), "picotron_player.js": JS.encode()}))
    mac = write_cart64_to_rom(cart64(FW64))
    return sysrom([b"info", b"system", b"player" + v, html, b"linux", exe, b"sdl", b"mac", mac])

ICON = [(x + y) % 33 for y in range(16) for x in range(16)]

def fakepng(w, h, px): return fakepil.HEADER + fakepil.MARK + bytes([w % 256, w // 256, h % 256, h // 256]) + bytes(c for p in px for c in p)
LPX = [(y % 256, 9, 7, 255) for y in range(270) for x in range(480)]

def cart_files(ctx, icon, label, home, title, v):
    meta = [b"runtime=40"]
    if title: meta.append(b"title=\"" + title + b"\"")
    if home: meta.append(b"export_home=\"" + home + b"\"")
    if icon: meta.append(b"icon=" + write_pod(UserData("u8", 16, 16, bytes(ICON).hex()), compress=False, use_pxu=False))
    files = {"main.lua": b"a=1", ".info.pod": b"--[[pod," + b",".join(meta) + b"]]", "a/": None, "a/b.bin": b"\x01" + v}
    if label: files["label.png"] = fakepng(480, 270, LPX)
    return files

def is_cart(ctx, got, files, v):
    c = read_cart64_from_rom(got)
    ctx.check(sorted(c.files) == sorted(files), "the cart's files are %s" % sorted(c.files))
    ctx.check(ctx.eq(c.files["a/b.bin"].data, b"\x01" + v) and c.files["main.lua"].data == b"a=1", "the cart's files")

def check_html(ctx, text, files, v, title, home, label):
    i = text.index('p64cart_str="') + 13
    j = text.index('"', i)
    ctx.check('p64cart_str="' not in text[j:], "there are two carts in the html")
    is_cart(ctx, bytes.fromhex(text[i:j]), files, v)
    a, rest = HTML.replace("##page_title##", (title or b"Picotron Cartridge").decode()).split("// ##pcart##  \n\n")
    before, after = text[:i - 13], text[j + 1:]
    ctx.check(before.rstrip() == a + "// ##pcart##", "the html before the cart")
    hm = ';\nexport_home_str = "%s";\n' % home.decode() + JS
    ctx.check(after.startswith(hm), "what follows the cart in the html")
    b, c = rest.split("##label_file##")
    after = after[len(hm):].lstrip()
    ctx.check(after.startswith(b) and after.endswith(c), "the html after the cart")
    url = after[len(b):len(after) - len(c)]
    if label:
        ctx.check(url.startswith("data:image/png;base64,"), "the label in the html")
        im = fakepil.parse(base64.b64decode(url[22:]))
        ctx.check((im.width, im.height) == (480, 270) and [tuple(p[:3]) for p in im.px] == [p[:3] for p in LPX], "the label in the html")
    else: ctx.check(url in ("", "##label_file##"), "a label where there is none")

def options64(ctx):
    home = ctx.choice("home", [b"", b"/h/x"])
    title = ctx.choice("title", [b"", b"T t"])
    return home, title, ctx.bytes("v", 1, 200, 255)

def create64(ctx, fmt):
    """a picotron export holds the cart, and what picotron.dat has"""
    label = ctx.fork(ctx.bool("label")) if fmt == "html" else False
    home, title, v = options64(ctx)
    if label: v = b"\xe9" # the html's text is too long to be symbolic
    files = cart_files(ctx, False, label, home, title, v)
    mini = ctx.choice("mini", [None, "-M"])
    fakepil.install()
    disk = cli.Disk({"in.rom": write_cart64_to_rom(cart64(files)), "dat": picotron_dat(v=v)}, dirs=["o"])
    by_ext = label or ctx.fork(ctx.bool("by_ext"))
    out = "o/my." + (fmt if by_ext else "x")
    own = ctx.choice("own", [None, "Own"]) if fmt == "html" else None
    rc = run(disk, ["in.rom", out, "--picotron-dat", "dat"] + ([] if by_ext else ["-f", fmt]) + ([mini] if mini else []) + (["--title", own] if own else []), "picotron")
    ctx.check(rc == 0 and disk.log == [out], "fails: %s" % disk.err)
    d = disk.files[out]
    if fmt == "dat":
        es = parse_sysrom(ctx, d)
        ctx.check(len(es) == 3 and es[0] == home and ctx.eq(es[1], b"player" + v), "the dat's other entries")
        is_cart(ctx, es[2], files, v)
    else: check_html(ctx, d, files, v, own.encode() if own else title, home, label)
    ctx.cover("done")

def bin64(ctx, icon):
    """the directory of all exports of a picotron cart"""
    home, title, v = options64(ctx)
    files = cart_files(ctx, icon, False, home, title, v)
    mini = ctx.choice("mini", [None, "-M"])
    disk = cli.Disk({"in.rom": write_cart64_to_rom(cart64(files)), "dat": picotron_dat(exe_bytes(), v)}, dirs=["o"])
    name = ctx.choice("name", [None, "N"])
    rc = run(disk, ["in.rom", "o/my", "-f", "bin", "--picotron-dat", "dat"] + ([mini] if mini else []) + (["--export-name", name] if name else []), "picotron")
    ctx.check(rc == 0, "fails: %s" % disk.err)
    N = name or "my"
    got = {k[5:]: d for k, d in disk.files.items() if k.startswith("o/my/")}
    ctx.check(set(got) == {N + ".html"} | {N + "_%s.zip" % w for w in ("windows", "linux", "mac")}, "the files are %s" % sorted(got))
    check_html(ctx, got[N + ".html"], files, v, title, home, False)
    z_ = {k: got[N + "_%s.zip" % k].listing() for k in ("windows", "linux", "mac")}
    for zz in got.values():
        if isinstance(zz, Zip): ctx.check(len({i.filename for i, d in zz.entries}) == len(zz.entries), "a file is in a zip twice")
    dat = z_["windows"][N + "_windows/sysrom.dat"][1]
    es = parse_sysrom(ctx, dat)
    ctx.check(len(es) == 3 and es[0] == home and ctx.eq(es[1], b"player" + v), "the dat's other entries")
    is_cart(ctx, es[2], files, v)
    px = [tuple(k_palette_64[i]) if i else (0, 0, 0, 0) for i in ICON]
    big = [px[(y // 8) * 16 + x // 8] for y in range(128) for x in range(128)]
    exe = exe_bytes()
    if icon: exe = exe[:ICON_AT] + b"".join(bytes([big[y * 128 + x][i] for x in range(128) for i in (2, 1, 0, 3)]) for y in range(127, -1, -1)) + exe[ICON_AT + 0x10000:]
    W, L, A = N + "_windows/", N + "_linux/", N + "_mac/" + N + ".app/Contents/"
    compare(ctx, z_["windows"], {W + N + ".exe": (True, exe), W + "sysrom.dat": (False, dat), W + "SDL2.dll": (False, b"sdl")}, "windows")
    png = z_["linux"].pop(L + N + ".png", None)
    ctx.check((png is not None) == icon, "the picture in a zip")
    if icon: ctx.check([tuple(p) for p in fakepil.parse(png[1]).px] == big, "the picture in a zip")
    compare(ctx, z_["linux"], {L + "sysrom.dat": (False, dat), L + N: (True, b"linux")}, "linux")
    icns = z_["mac"].pop(A + "Resources/%s.icns" % N, None)
    chan = lambda i: b"".join(b"\x7f" + bytes([big[y * 128 + x][i] for x in range(128)]) for y in range(128))
    body = b"it32" + (0xc + 0x80 * 0x81 * 3).to_bytes(4, "big") + bytes(4) + chan(0) + chan(1) + chan(2) + b"t8mk" + (8 + 0x4000).to_bytes(4, "big") + bytes([p[3] for p in big])
    ctx.check(icns == ((False, b"icns" + (len(body) + 8).to_bytes(4, "big") + body) if icon else None), "the mac icon")
    plist = z_["mac"].pop(A + "Info.plist")[1].decode()
    ctx.check("<string>%s</string>" % N in plist and "<string>%s.icns</string>" % N in plist and "com.picotron_author.%s<" % N in plist and "%s" not in plist, "the plist")
    osx = {A: (True, None), A + "MacOS/": (True, None), A + "Resources/": (True, None), A + "MacOS/sysrom.dat": (False, dat), A + "MacOS/" + N: (True, b"mac"),
        A + "Frameworks/": (True, None), A + "Frameworks/SDL2.framework/": (True, None), A + "Frameworks/SDL2.framework/Versions/": (True, None)}
    for d, sig in (("", False), ("Versions/Current/", True), ("Versions/A/", True)):
        F = A + "Frameworks/SDL2.framework/" + d
        osx.update({F: (True, None), F + "SDL2": (True, b"lib"), F + "Resources/": (True, None), F + "Resources/Info.plist": (False, b"pl")})
        if sig: osx.update({F + "_CodeSignature/": (True, None), F + "_CodeSignature/x": (True, b"sig")})
    compare(ctx, z_["mac"], osx, "mac")
    ctx.cover("done")

def read64(ctx, fmt):
    """reading the cart of a picotron export, dumping picotron.dat"""
    v = ctx.bytes("v", 1, 200, 255)
    files = cart_files(ctx, False, False, b"", b"T", v)
    r = write_cart64_to_rom(cart64(files))
    data = sysrom([b"", b"sys", r]) if fmt == "dat" else 'a="";p64cart_str="' + r.hex() + '";\nb="11";'
    op = ctx.choice("op", ["read", "read as", "dump", "dump rom", "no dat", "empty"])
    disk = cli.Disk({"in." + fmt: data, "bad.dat": sysrom([b"", b"sys"]), "bad.html": "x", "in.x": data}, dirs=["d"])
    args = {"read": ["in." + fmt, "o.rom"], "read as": ["in.x", "-F", fmt, "o.rom"], "dump": ["in." + fmt, "--dump", "d/q"], "dump rom": ["in." + fmt, "--dump", "d/q", "-f", "rom"], "no dat": ["in." + fmt, "o." + fmt], "empty": ["bad." + fmt, "o.rom"]}[op]
    rc = run(disk, args, "picotron")
    ctx.check((rc == 0) == (op[:4] == "read" or op[:4] == "dump" and fmt == "dat"), "fails or not: %s" % disk.err)
    if rc != 0: ctx.check(disk.log == [], "a file is written, though it fails")
    elif op[:4] == "read": is_cart(ctx, disk.files["o.rom"], files, v)
    else:
        got = {k[4:]: d for k, d in disk.files.items() if k.startswith("d/q/")}
        ext = ".rom" if op == "dump rom" else ".p64"
        ctx.check(sorted(got) == ["cart" + ext, "info", "system"] and got["system"] == b"sys", "the files that are dumped: %s" % sorted(got))
        if op == "dump rom": ctx.check(ctx.eq(got["cart.rom"], r), "the rom that is dumped")
        else: ctx.check(ctx.eq(files_of(read_cart64_from_source(got["cart.p64"]))["a/b.bin"], files["a/b.bin"]), "the cart that is dumped")
    ctx.cover("done")

def files_of(cart): return {k: f.data for k, f in cart.files.items()}

def harnesses(tier):
    T = tier == "thorough"
    hs = []
    for f in ("js", "pod"):
        for n in ((1, 2, 3) if T else (1, 2)): hs.append(H(create, params={"fmt": f, "n": n}, bounds="%d carts, every way to give them; every value of a byte of the last" % n))
        hs.append(H(read, params={"fmt": f}, bounds="1 or 2 carts, every value of a byte of one"))
        hs.append(H(edit, params={"fmt": f}, bounds="1 or 2 carts, 13 edits, every value of a byte of the new cart"))
    for l in (True, False): hs.append(H(bin8, params={"label": l, "icon": True}, bounds="with or without an icon, every value of a byte"))
    if T: hs.append(H(bin8, params={"label": True, "icon": False}, bounds="with or without an icon, every value of a byte"))
    for f in ("js", "pod"): hs.append(H(process, params={"fmt": f}, bounds="1 to 3 carts, processed or not; every letter in the code of the first"))
    for f in ("dat", "html"):
        hs.append(H(create64, params={"fmt": f}, bounds="with or without title, home, label, metadata; every value of a byte of the cart"))
        hs.append(H(read64, params={"fmt": f}, bounds="6 command lines; every value of a byte of the cart"))
    for i in (True, False): hs.append(H(bin64, params={"icon": i}, bounds="with or without title, home, metadata; every value of a byte of the cart"))
    hs.append(H(misc, bounds="9 command lines, every value of a byte"))
    return hs

TECHNIQUE = ("bounded symbolic execution of the real command line, export readers and writers (js, pod, dat, html, full exports) on an in-memory disk: carts with a symbolic byte, symbolic options; every output is read by independent readers "
    "(pod, js, dat, html, zip contents) and compared with the carts and with the template files, on every path, with Z3")
OUTSIDE = "the contents of the real pico8.dat and picotron.dat (stand-ins of the same structure are used); more than 3 carts; zip compression (a stand-in records what is put into zips); other code in the carts (C16-C23)"
ASSUMPTIONS = ["PNG pictures are encoded by a stand-in for Pillow (fakepil)", "the template files have the structure of those in the harness", "a cart's text in js is scanned with the code's own regular expressions run by the engine's regex"]
META = dict(
    title="exports made, read and edited through the command line are right",
    statement="For every cart: a js or pod export made of it holds the cart (under the name given) and the extra carts, in the order and under the names given, byte for byte, and otherwise what the template (pico8.dat) has; a pod also has the title and label. A full export (bin) makes the html, js, wasm and zip files of every platform, each with its executable bits, the pod, the label as icon, html image and png, names and plist. Carts processed for an export are all processed. Reading, listing and dumping an export gives exactly the carts (and files) in it; making another export of it keeps them. --insert-cart, --replace-cart, --delete-cart and --rename-cart change just that cart and refuse carts that are absent or names that are taken, without writing. Likewise for Picotron's dat, html and full exports: the cart, home, title, label, icon and zip contents are those of the cart given, even when minification deletes the metadata. What can't work is refused and writes nothing.",
    over=["inputs", "configurations"], text="every combination of carts, ways to give them and options in the harnesses; every value of the symbolic byte",
    why="No pico8.dat or picotron.dat is in the repository, so the tests only make a few exports of one kind, and compare them with stored files.",
    files=["run_shrinko.py", "pico_export.py", "picotron_export.py", "pico_cart.py", "picotron_cart.py"],
    mech=[("js and pod exports", "pico_export.py: JsExport, PodExport"), ("full exports", "pico_export.py: FullExport, FullExportBase"), ("Picotron exports", "picotron_export.py: SysRomExport64, HtmlExport64, FullExport64"), ("options", "run_shrinko.py: handle_input, handle_output")])
