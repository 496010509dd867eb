"""C08: versions, titles and labels"""
import re
from sym.ctx import H
import lua, luaspec
import pico_process
import fakepil, cli
import pico_cart, picotron_cart, pico_defs, utils
from pico_cart import *
from pico_defs import *
from picotron_cart import Cart64, write_cart64_to_image, read_cart64_from_image, write_cart64_to_source, read_cart64_from_source
from picotron_fs import PicotronFile
from utils import MultidimArray, Point

# the versions known, by the id in the "version" line
KNOWN = {28: (0, 2, 0, 0), 29: (0, 2, 1, 0), 30: (0, 2, 2, 0), 31: (0, 2, 2, 1), 32: (0, 2, 2, 2), 33: (0, 2, 3, 0), 34: (0, 2, 4, 0), 35: (0, 2, 4, 1), 36: (0, 2, 4, 2), 37: (0, 2, 5, 0),
         38: (0, 2, 5, 2), 39: (0, 2, 5, 4), 40: (0, 2, 5, 5), 41: (0, 2, 5, 6), 42: (0, 2, 6, 1), 43: (0, 2, 7, 0)}

class fakehash:
    @staticmethod
    def sha1(d): return fakehash
    @staticmethod
    def digest(): return bytes(range(1, 21))

class Quiet:
    """sha1 is native code: a fixed digest stands in; warnings are collected"""
    def __enter__(s):
        s.old, s.eprint, s.msgs = pico_cart.hashlib, pico_defs.eprint, []
        pico_cart.hashlib = fakehash
        pico_defs.eprint = lambda *a: s.msgs.append(a)
        return s
    def __exit__(s, *a): pico_cart.hashlib, pico_defs.eprint = s.old, s.eprint

def before(a, b):
    """whether a version is before or the same as another"""
    for i in range(4):
        if a[i] != b[i]: return a[i] < b[i]
    return True

def parse(ctx, form):
    """version strings and numbers given on the command line"""
    nums, text = [0] if form[0] != "v" else [], ""
    for i, ch in enumerate(form):
        if ch == "#":
            d = ctx.str("d%d" % i, 1, 48, 57)
            text = text + d
            nums[-1] = nums[-1] * 10 + ord(d) - 48
        elif ch == "a":
            d = ctx.str("d%d" % i, 1, 97, 122)
            text = text + d
            nums.append(ord(d) - 97)
        else:
            text = text + ch
            if ch in "v.": nums.append(0)
            else: nums[-1] = nums[-1] * 10 + int(ch)
    with Quiet() as q:
        try: got, failed = parse_pico8_version(text), False
        except utils.CheckError: got, failed = None, True
    if form[0] != "v": return ctx.check(not failed and ctx.eq(got, nums[0]), "a version number")
    v = tuple(nums) if len(nums) == 4 else tuple(nums) + (0,)
    if before(v, (0, 1, 99, 99)): return ctx.check(failed, "a version before 0.2.0 has no known number")
    if not before(v, KNOWN[43]): return ctx.check(failed, "a version that is not known yet")
    want = 0
    for k in sorted(KNOWN):
        if before(KNOWN[k], v): want = k
    ctx.check(not failed and got == want, "the version's number")
    ctx.check(bool(q.msgs) == (not ctx.eq(KNOWN[want], v)), "a version with no number of its own is warned of")
    ctx.cover("parsed")

def malformed(ctx, n):
    """other texts are refused"""
    text = ctx.choice("p", ["v", "v0.2.", "", "w0.2.5"]) + ctx.str("s", n, chars=".xvV-")
    with Quiet():
        try: got, failed = parse_pico8_version(text), False
        except utils.CheckError: got, failed = None, True
    ctx.check(failed, "a malformed version is accepted")

def ids(ctx):
    """the version of each number, and back"""
    n = ctx.int("id", 0, 255)
    with Quiet() as q:
        cart = Cart()
        cart.set_version(n)
        v = cart.version_tuple
        ctx.check(ctx.eq(cart.version_id, n) and not cart.default_version, "the version is set")
        if n in KNOWN:
            ctx.check(ctx.eq(v, KNOWN[n]) and not q.msgs, "the version of a number")
            text = format_pico8_version(v)
            ctx.check(text == "v%d.%d.%d" % v[:3] + ("abcdefg"[v[3]] if v[3] else ""), "how it is written")
            ctx.check(ctx.eq(parse_pico8_version(text), n), "a version that is printed is read back as another")
        else:
            ctx.check(all(0 <= x <= 255 for x in v), "a version that cannot be stored")
            ctx.check((n >= 28) == bool(q.msgs), "a number that is not known is warned of")
            if n < 19: ctx.check(v[1] < 2 and format_pico8_version(v) == "pre-v0.2.0", "an old version")
    ctx.cover("done")

def latest(ctx):
    ctx.check(get_latest_pico8_version() == 43 and get_default_pico8_version() in KNOWN, "the latest version")
    ctx.check(all(before(KNOWN[a], KNOWN[b]) == (a <= b) for a in KNOWN for b in KNOWN), "-")

def show(ctx, fin):
    """--version prints the version of the cart; conversions keep it, --output-version and --update-version set it"""
    fakepil.install()
    with Quiet():
        fout = ctx.choice("fout", [None, "p8", "png"])
        op = ctx.choice("op", ["", "output", "update"])
        few = fout == "png" or op != ""
        n = ctx.choice("id", [7, 30] if few else [7, 8, 19, 28, 30, 38, 42, 43, 44, 200])
        cart = Cart(code="x=1")
        cart.set_version(n)
        cart.platform = ctx.choice("platform", ["w", "x", "l", "E", "?"]) if fin == "png" and (not few or n == 30 and fout != "png") else "x"
        cart.default_platform = False
        data = {"p8": write_cart_to_source, "png": lambda c: write_cart_to_image(c, template_only=True), "rom": write_cart_to_rom}[fin](cart)
        disk = cli.Disk({"in": data})
        args = ["in", "-F", fin, "--version"] + (["out", "-f", fout, "--template-only"] if fout else [])
        args += {"": [], "output": ["--output-version", "v0.2.4"], "update": ["--update-version"]}[op]
        with disk: rc = cli.main(args)
        ctx.check(rc == 0, "fails")
        known = fin != "rom" or op != ""
        v = {"output": 34, "update": 43}.get(op, n if fin != "rom" else get_default_pico8_version())
        t = get_pico8_version_tuple(v)
        out = [l for l in disk.out]
        if not known: want = [["no version info"]]
        else: want = [["version:", format_pico8_version(t)], ["raw version: %d (%d.%d.%d.%d)" % ((v,) + t)]]
        if fin == "png": want.append(["platform:", {"w": "[w]indows", "x": "macos[x]", "l": "[l]inux", "E": "[E]mscripten", "?": "platform=[?]"}[cart.platform]])
        ctx.check(out == want, "what --version prints")
        if fout:
            back = {"p8": read_cart_from_source, "png": read_cart_from_image}[fout](disk.files["out"])
            ctx.check(back.version_id == v and back.version_tuple == t, "the version written")
            if fout == "png": ctx.check(back.platform == (cart.platform if fin == "png" else get_default_platform()), "the platform written")
        ctx.cover("done")

PROGRAMS = {
    "short": "<A>\nk()",
    "str": "x=<T>",
    "xor": "x=a ^^ b y=a^^~b z^^=<U>",
}
STMTS = ["if (a) b()", "if a then b() end", "if a then b() else c() end", "if a then if b then c() end end", "if a then if b then c() end else if d then e() end end", "while a do if b then c() break end end",
         "while (a) do b() break end", "if a then while b do c() end end", "if a then b() elseif c then d() end", "if a then ?b\nend", "if a then f=function() if b then c() end end end",
         "if a then while b do if c then d() end end else e() end"]
STRS = ['"a"', "[[a]]", r"""'"\'"\\\\\\\\\\'""", r"""'"\'"\\\\\\\\\\]'""", r"""'"\'"\\\\\\\\\\]]'""", "[=[a]]b]=]", r"""'"\'"\\\\\\\\\\]=]'""", "[[\na]b]]", r"""'"\'"\\\\\\\\\\]a'"""]

def features(ctx, prog, focus):
    """minified code uses no syntax that is newer than the cart's version, and newer syntax that is in use stays legal"""
    how = ctx.choice("how", ["header", "option"])
    v = ctx.int("version", 20, 50) if how == "header" else ctx.choice("version", [36, 37, 39, 40, 41, 42])
    src = PROGRAMS[prog].replace("<A>", ctx.choice("A", STMTS) if prog == "short" else "").replace("<T>", ctx.choice("T", STRS) if prog == "str" else "").replace("<U>", ctx.choice("U", ["1", "q^^2"]) if prog == "xor" else "")
    head = "version " + (str(v) if how == "header" else "50")
    disk = cli.Disk({"in.p8": "pico-8 cartridge // x\n" + head + "\n__lua__\n" + src + "\n"})
    args = ["in.p8", "out.p8", "--minify", "--no-minify-rename"] + (["--output-version", str(v)] if how == "option" else []) + ["--focus-" + f for f in focus]
    with Quiet():
        with disk: rc = cli.main(args)
    ctx.check(rc == 0, "fails")
    back = read_cart_from_source(disk.files["out.p8"])
    ctx.check(ctx.eq(back.version_id, v), "the version written")
    old, new = lua.marks(src), lua.marks(back.code)
    for mark, since in (("do", 42), ("nested", 42), ("level", 40), ("xor", 37)):
        if mark in new and mark not in old: ctx.check(v >= since, "syntax that is newer than the cart's version is used: %s in %r for %r" % (mark, back.code, src))
    ctx.observe("out", back.code)
    ctx.cover(" ".join(sorted(new)))

SENT = {}

def bbs(ctx, lang, n):
    """--bbs asks for just the cart named, and reads what comes in any format"""
    import urllib.request
    from urllib.parse import urlsplit, parse_qs
    fakepil.install()
    id = "".join([ctx.choice("c%d" % i, ["a", "1", "-", " ", "&", "=", "#", "\xe9", "%", "/"]) for i in range(n)])
    pre = ctx.choice("pre", ["#", "", "."])
    asked = []
    if pre == "" and (id == "" or id[0] in "-#"): return
    if lang not in SENT and not n:
        if lang == "pico8":
            with Quiet(): SENT[lang] = write_cart_to_image(Cart(code="x=1"), template_only=True)
        else:
            cart = Cart64()
            cart.files["main.lua"] = PicotronFile(b"x=1")
            SENT[lang] = write_cart64_to_image(cart, template_only=True)
    data = SENT.get(lang)
    class Reply:
        def __init__(s, url):
            asked.append(str(url))
            if n: raise OSError("404")
            s.pos = 0
        def read(s, n=-1):
            r = data[s.pos:] if n is None or n < 0 else data[s.pos:s.pos + n]
            s.pos += len(r)
            return r
        def seek(s, p, w=0): s.pos = p
        def close(s): pass
        def readable(s): return True
        def __enter__(s): return s
        def __exit__(s, *a): pass
    old = urllib.request.urlopen
    urllib.request.urlopen = Reply
    disk = cli.Disk({})
    try:
        with Quiet():
            with disk: rc = cli.main([pre + id, "out.lua", "--bbs"], lang)
    finally: urllib.request.urlopen = old
    if pre != "#": return ctx.check(rc != 0 and not asked and not disk.files, "something that is no id is asked for")
    ctx.check((rc == 0) == (n == 0) and len(asked) >= 1 and len(set(asked)) == 1, "the cart is not asked for")
    u = urlsplit(asked[0])
    ctx.check((u.scheme, u.netloc, u.path, u.fragment) == ("https", "www.lexaloffle.com", "/bbs/get_cart.php", ""), "another place is asked")
    q = parse_qs(u.query, keep_blank_values=True, strict_parsing=True)
    ctx.check(q == {"lid": [id], "cat": ["7" if lang == "pico8" else "8"]}, "another cart is asked for")
    if n: return ctx.check(not disk.files, "something is written for a cart that did not come")
    ctx.check(disk.files["out.lua"].strip() in ("x=1", b"x=1"), "the cart that came is not the one read")
    ctx.cover("done")

# ---- pictures

def font(name):
    with open(utils.path_join(get_res_path(), name), "rb") as f: return fakepil.parse(f.read())

def tinted(px, lows, alow=3):
    """the part of a pixel that shows"""
    return tuple(c & ~lows & 255 for c in px[:3]) + (px[3] & ~alow & 255,)

def p8_picture(ctx, n, chars, how):
    """the image shows the template, the label and the title: the latter at its place, cut off at the right and after two lines"""
    fakepil.install()
    title = ctx.str("pre", 0, 97, 97)
    for i in range(n): title = title + ctx.choice("t%d" % i, chars)
    if how == "long": title = "i" * 29 + title
    if how == "lines": title = "a\n" + title
    cart = Cart(code="x=1", label=None)
    if how == "meta": cart.title = title
    else: cart.code = "\n".join(["--" + (" " if how != "tight" else "") + l for l in title.split("\n")] + ["x=1"])
    if how == "code":
        cart.code = "x=1\n--no" if n == 0 else cart.code
        ctx.check(cart.title == (title if n else "\nno"), "the title is the comments the code starts with") if "\n" not in title else None
    only = ctx.fork(ctx.bool("only"))
    with Quiet(): png = write_cart_to_image(cart, template_only=only)
    im = fakepil.parse(png)
    with open(utils.path_join(get_res_path(), "template.png"), "rb") as f: want = fakepil.parse(f.read()).load()
    if not only:
        fnt = font("font.png").load()
        lines = cart.title.split("\n")
        for row, line in enumerate(lines[:2]):
            x = 0
            for ch in line:
                w = 4 if ord(ch) < 128 else 8
                if x + w <= 31 * 4:
                    for dy in range(6):
                        for dx in range(w):
                            p = fnt[ord(ch) % 16 * 8 + dx, ord(ch) // 16 * 6 + dy]
                            if p[3]: want[18 + x + dx, 167 + row * 8 + dy] = p
                x += w
    got = im.load()
    bad = [(x, y) for y in range(205) for x in range(160) if tinted(got[x, y], 3) != tinted(want[x, y], 3)]
    ctx.check(not bad, "the picture differs at %s" % bad[:3])
    ctx.check(im.size == (160, 205), "size")
    ctx.cover("done")

def from_code(ctx, a, b):
    """a title is made of the comments in the first two lines of the code; metadata takes precedence; minifying keeps it"""
    l1 = ctx.choice("p1", ["--", "-- ", "x=1", "", "--[["]) + ctx.str("a", a, chars="- z]")
    l2 = ctx.choice("p2", ["--", "-- ", " --", ""]) + ctx.str("b", b, chars="- z")
    cart = Cart(code=l1 + "\n" + l2 + "\n--]]\nx=1")
    def line(l):
        if l[:2] != "--": return ""
        l = l[2:]
        return l[1:] if l[:1] == " " else l
    t1, t2 = line(l1), line(l2)
    want = t1 + "\n" + t2 if len(t2) else t1
    ctx.check(cart.title == want, "the title")
    cart.set_code_without_title("x=1")
    ctx.check(cart.code == "x=1" and ctx.eq(cart.title, want), "the title is lost with the comments")
    cart.set_raw_title(["q", "r"])
    ctx.check(cart.title == "q\nr", "the title that is set")
    cart.set_code_without_title(l1)
    ctx.check(cart.title == "q\nr", "the title that is set")

def p64_picture(ctx, n, chars, how):
    """the same for Picotron: title over author, at their places, with the widths the font gives"""
    fakepil.install()
    title, sub = "T", "by z"
    for i in range(n):
        title = title + ctx.choice("t%d" % i, chars)
        sub = ctx.choice("u%d" % i, chars) + sub
    if how == "long": title, sub = "W" * 29 + title, "M" * 55 + sub
    cart = Cart64()
    cart.files["main.lua"] = PicotronFile(b"x=1")
    if how == "meta":
        cart.files[".info.pod"] = PicotronFile(b"--[[pod,author=\"z\",title=\"" + title.encode() + b"\",version=\"" + sub[:n].encode() + b"\"]]")
        sub = sub[:n] + " by z"
        ctx.check(tuple(cart.title) == (title, sub), "the title and author")
    else: cart.set_raw_title([title, sub])
    only = ctx.fork(ctx.bool("only"))
    png = write_cart64_to_image(cart, template_only=only)
    im = fakepil.parse(png)
    with open(utils.path_join(get_res_path(), "template64.png"), "rb") as f: tmpl = fakepil.parse(f.read())
    want = tmpl.load()
    if not only:
        fnt = font("font64.png").load()
        for text, scale, top in ((title, 2, 330), (sub, 1, 356)):
            x = 0
            for ch in text:
                fx, fy = ord(ch) % 16 * 10, ord(ch) // 16 * 11
                w = 0
                while fnt[fx + w, fy + 9][3]: w += 1
                if (x + w * scale) <= 352:
                    for dy in range(9 * scale):
                        for dx in range(w * scale):
                            if fnt[fx + dx // scale, fy + dy // scale][3]:
                                c = 0x90 if scale == 1 else 0x80 if dy % 2 else 0xd0
                                want[80 + x + dx, top + dy] = (c, c, c, 255)
                x += w * scale
    got = im.load()
    w, h = tmpl.size
    bad = [(x, y) for y in range(h) for x in range(w) if tinted(got[x, y], 7) != tinted(want[x, y], 7)]
    ctx.check(not bad, "the picture differs at %s" % bad[:3])
    ctx.check(im.size == tmpl.size, "size")
    ctx.cover("done")

def p64_label(ctx):
    """--label replaces a Picotron cart's label, whatever kind of image either is"""
    had = {k: v for k, v in (("label.png", pico_cart.k_png_header + b"old"), ("label.qoi", pico_cart.k_qoi_header + b"old")) if ctx.fork(ctx.bool("had" + k))}
    kind = ctx.choice("kind", ["label.png", "label.qoi"])
    new = {"label.png": pico_cart.k_png_header, "label.qoi": pico_cart.k_qoi_header}[kind] + ctx.bytes("new", 2, 14, 255)
    cart = Cart64()
    cart.files["main.lua"] = PicotronFile(b"x=1")
    for f, d in had.items(): cart.files[f] = PicotronFile(d)
    keep = ctx.fork(ctx.bool("keep"))
    disk = cli.Disk({"in.p64": write_cart64_to_source(cart), "l.x": new})
    with disk: rc = cli.main(["in.p64", "out.p64"] + ([] if keep else ["--label", "l.x"]), "picotron")
    ctx.check(rc == 0, "fails")
    back = read_cart64_from_source(disk.files["out.p64"])
    ctx.check(back.files["main.lua"].data == b"x=1", "another file")
    name, file = back.label
    if keep: ctx.check(sorted(back.files) == sorted(cart.files) and (file is None if not had else file.data == had["label.qoi" if "label.qoi" in had else "label.png"]), "the label")
    else: ctx.check(name == kind and ctx.eq(file.data, new) and len(back.files) == 2, "the cart's label is not the one given")
    bad = cli.Disk({"in.p64": write_cart64_to_source(cart), "l.x": b"GIF" + new})
    with bad: rc = cli.main(["in.p64", "out.p64", "--label", "l.x"], "picotron")
    ctx.check(rc != 0 and "out.p64" not in bad.files, "a label that is no image is taken")
    ctx.cover("done")

def p64_label_drawn(ctx):
    """the label given is drawn on the image, and is what is read back from it and written as a label"""
    fakepil.install()
    px = [(9, 8, 7, 255)] * (480 * 270)
    spots = [(0, 0), (479, 0), (3, 268), (479, 269)]
    vals = [ctx.choice("p", [(255, 255, 255, 255), (0, 0, 0, 255), (8, 16, 128, 255)])] + [(40 * i, 255 - i, i, 255) for i in (1, 2, 3)]
    for (x, y), v in zip(spots, vals): px[x + y * 480] = v
    import io
    cart = Cart64()
    cart.files["main.lua"] = PicotronFile(b"x=1")
    out = Sink()
    fakepil.Image(480, 270, px).save(out)
    cart.files["label.png"] = PicotronFile(out.data)
    raw = picotron_cart.write_cart64_label(cart)
    lab = fakepil.parse(raw)
    ctx.check(lab.size == (480, 270) and ctx.all([ctx.eq(lab.load()[p], v) for p, v in zip(spots, vals)]), "the label written")
    im = fakepil.parse(write_cart64_to_image(cart)).load()
    at = [im[16 + x, 38 + y] for x, y in spots]
    ctx.check(ctx.all([ctx.eq(tinted(p, 7), tinted(v, 7)) for p, v in zip(at, vals)]), "the label is not drawn")
    ctx.check(tinted(im[17, 38], 7) == tinted((9, 8, 7, 255), 7), "the label is not drawn")
    ctx.cover("done")

class Sink:
    def __init__(s): s.data = b""
    def write(s, d): s.data = s.data + d if len(s.data) else d

def harnesses(tier):
    T = tier == "thorough"
    hs = []
    for f in ("v#.#.#", "v#.#.#a", "v0.2.##", "v0.2.##a", "v0.##.0", "#", "##", "###", "v1#.#.#"): hs.append(H(parse, params={"form": f}, bounds="every digit and letter of a version of this form"))
    for n in range(4 if T else 3): hs.append(H(malformed, params={"n": n}, bounds="4 starts and texts of %d chars" % n))
    hs.append(H(ids, bounds="every number 0..255"))
    hs.append(H(latest, bounds="-"))
    for f in ("p8", "png", "rom"): hs.append(H(show, params={"fin": f}, bounds="10 versions, 5 platforms, 3 ways to set it, 3 outputs", max_s=120))
    for l in ("pico8", "picotron"):
        for n in (0, 1, 2): hs.append(H(bbs, params={"lang": l, "n": n}, bounds="ids of %d chars from 10" % n))
    for p in PROGRAMS:
        for focus in ([], ["chars"], ["compressed"], ["tokens"]): hs.append(H(features, params={"prog": p, "focus": focus}, bounds="every version 20..50, of the cart or by option; every program of this form", max_s=90))
    C = ["a", "~", "\x80", "\xff", " "]
    for how, n, chars in (("meta", 1, C), ("code", 0, C), ("code", 1, C), ("tight", 1, C[:2]), ("long", 2, ["a", "\x80"]), ("lines", 1, ["a", "\x80", "\nb", "\n"]), ("lines", 2, ["a", "\nb"])):
        hs.append(H(p8_picture, params={"n": n, "chars": chars, "how": how}, bounds="every title of this form with %d free parts; the picture pixel by pixel" % n, max_s=120))
    for a in range(3): hs.append(H(from_code, params={"a": a, "b": 1}, bounds="5 and 4 starts of lines; %d and 1 further chars" % a))
    for how, n in (("raw", 0), ("raw", 1), ("meta", 1), ("long", 1)): hs.append(H(p64_picture, params={"n": n, "chars": ["i", "W"], "how": how}, bounds="every title and author of this form; the picture pixel by pixel", max_s=150))
    hs.append(H(p64_label, bounds="a cart with or without a png and a qoi label, a label of either kind, every value (14..255: others are line breaks) of 2 bytes of it"))
    hs.append(H(p64_label_drawn, bounds="3 colors of a pixel of the label", max_s=60))
    return hs

TECHNIQUE = ("bounded symbolic execution of the real version parsing and formatting, command line, minifier and image writers on symbolic version strings and numbers, titles and label bytes; "
    "versions are compared with a table of the known ones, minified code is scanned for newer syntax, pictures are compared pixel by pixel with an independent rendering, on every path, with Z3")
OUTSIDE = "programs of other forms than those listed; longer titles; real PNG and QOI encoding (a stand-in for Pillow is used); the network (a stand-in answers for the BBS)"
ASSUMPTIONS = ["the table of known versions in the harness", "the glyphs in font.png and font64.png are what the consoles draw"]
META = dict(
    title="Versions, titles and labels are those asked for",
    statement="A PICO-8 version given as a string means the latest known version number that is not newer (with a warning if it is not exact; too new, too old and malformed ones are refused), and numbers mean themselves; --version prints the input cart's version and platform; a cart keeps its version through conversions unless --output-version or --update-version change it. Minified code uses no syntax that is newer than the cart's version (nested shorthands, 'do' for 'then', '~' for '^^', leveled long strings) unless the code did so already. A cart's title is that of its metadata or else the comments in its first two lines, and is kept when these are removed. Cart images show the template, label and title (for Picotron, title and author) at their places, letter by letter, cut off at the edges, or just the template under --template-only. --label replaces the label of a PICO-8 or Picotron cart whatever the image formats of the two. --bbs asks the BBS for exactly the cart named.",
    over=["inputs", "configurations"], text="every version string of 9 forms, every version number, every program of the forms listed under every version, every title of the forms listed",
    why="The tests convert a few carts of one version and never look at the pictures' pixels or at each version's syntax limits.",
    files=["pico_defs.py", "pico_cart.py", "picotron_cart.py", "pico_minify.py", "pico_output.py", "run_shrinko.py"],
    mech=[("versions", "pico_defs.py: parse_pico8_version, format_pico8_version, get_pico8_version_tuple"), ("version limits", "pico_minify.py: uses of ctxt.version"), ("titles", "pico_cart.py: Cart.title, draw_text_on_image; picotron_cart.py: draw_title_on_image"), ("labels", "picotron_cart.py: read_cart64_label, write_cart64_label, merge_cart64_label"), ("bbs", "pico_cart.py: get_bbs_cart_url")])
