"""C30: the command line does what its options say"""
import re
from sym.ctx import H
import lua
import pico_process
import fakepil, cli
import pico_cart
from pico_cart import *
from pico_defs import *
from utils import MultidimArray

class fakehash:
    @staticmethod
    def sha1(d): return fakehash
    @staticmethod
    def digest(): return bytes(range(1, 21))

class Quiet:
    """sha1 is native code: a fixed digest stands in (on symbolic data)"""
    def __enter__(s): s.old = pico_cart.hashlib; pico_cart.hashlib = fakehash
    def __exit__(s, *a): pico_cart.hashlib = s.old

AT = {"gfx": 0x0105, "map": 0x2003, "gff": 0x3007, "music": 0x3100, "sfx": 0x3203}     # one byte of each section
KEEPS = {   # what each format holds
    "p8": "code gfx map gff music sfx label version", "png": "code gfx map gff music sfx version", "rom": "code gfx map gff music sfx", "tiny-rom": "code", "lua": "code",
    "clip": "code gfx map gff music sfx version", "url": "code gfx", "spritesheet": "gfx", "label": "label"}
EXT = {"p8": ".p8", "png": ".p8.png", "rom": ".rom", "lua": ".LUA", "clip": ".clip", "url": ".url"}

def mkcart(ctx, fmt, which=AT, label=True, fixed=False):
    cart = Cart(code="x=" + ("y" if fixed else ctx.str("c", 1, 97, 122)) + "\n--c", label=MultidimArray(k_label_size, 3) if label else None)
    for s, a in AT.items(): cart.rom[a] = ctx.int(s, 1 if fixed else 0, 255) if s in which else 0x5b
    if label: cart.label[5, 6] = 9 if fixed else ctx.int("label", 1, 15)
    cart.set_version(41 if fixed else ctx.choice("version", [8, 41, 43]))
    data = {"p8": write_cart_to_source, "png": lambda c: write_cart_to_image(c, template_only=True), "rom": write_cart_to_rom, "tiny-rom": write_cart_to_tiny_rom, "lua": write_cart_to_raw_source,
            "clip": lambda c: write_cart_to_clip(c, template_only=True), "url": write_cart_to_url, "spritesheet": write_cart_spritesheet, "label": write_cart_label}[fmt](cart)
    return cart, data

READ = {"p8": read_cart_from_source, "png": read_cart_from_image, "rom": lambda d: read_cart_from_rom(d, allow_tiny=True), "tiny-rom": lambda d: read_cart_from_rom(d, allow_tiny=True), "lua": lambda d: read_cart_from_source(d, raw=True),
        "clip": read_cart_from_clip, "url": read_cart_from_url, "spritesheet": read_cart_spritesheet, "label": read_cart_label}

def verify(ctx, data, fmt, cart, kept, what):
    """data, in a format, holds the parts of the cart that both that format and `kept` allow for, and nothing else"""
    ctx.check(isinstance(data, str) == (fmt in ("p8", "lua", "clip", "url")), "%s: written as another kind of data" % what)
    back = READ[fmt](data)
    kept = [k for k in KEEPS[fmt].split() if k in kept]
    ctx.check(back.code == cart.code if "code" in kept else back.code == "", "%s: the code" % what)
    rom = mem_create_rom()
    for s, a in AT.items():
        if s in kept: rom[a] = cart.rom[a]
    ctx.check(ctx.eq(bytes(back.rom), bytes(rom)), "%s: the data" % what)
    if "version" in kept: ctx.check(back.version_id == cart.version_id, "%s: the version" % what)
    if "label" in kept: ctx.check(back.label is not None and ctx.eq(back.label[5, 6], cart.label[5, 6]) and back.label[0, 0] == 3, "%s: the label" % what)

def convert(ctx, fin, how):
    """a cart in any format is written in any format, by name or by option, in place, from and to the standard streams, and to several outputs"""
    fakepil.install()
    with Quiet():
        cart, data = mkcart(ctx, fin, ["gff"], fixed=True)
        kept = KEEPS[fin].split()
        outs = [f for f in KEEPS if f != "label" or "label" in kept]
        if how == "inplace": fout = fin
        elif how == "extra": fout = "rom"
        else: fout = ctx.choice("fout", [f for f in outs if f in EXT] if how == "ext" else outs)
        name_in = "in" + EXT.get(fin, ".p8") if how != "option" else ctx.choice("in", ["in.png", "in.x"])
        name_out = "d/out" + EXT.get(fout, ".p8") if how != "option" else ctx.choice("out", ["d/out.rom", "out"])
        by_option = how == "option" or fin not in EXT
        args = ["-F", fin] if by_option else []
        auto = None
        if how == "auto" and fin in ("p8", "png", "clip", "url", "lua"):
            args = ctx.choice("auto", [[], ["--input-format", "auto"]])
            name_in = "in.x"
        want = [(name_out, fout)]
        stdin = None
        extra = {}
        if how == "option": args = args + ["--format", fout]
        elif how == "inplace":
            args = args + [ctx.choice("i", ["-i", "--in-place"])]
            want = [(name_in, fout)]
        elif how == "auto": args = args + ["-f", fout]
        elif how == "std":
            name_in, stdin = "-", data
            name_out = "-"
            args = ["-F", fin, "-f", fout]
        if how == "extra":
            f2 = ctx.choice("f2", outs)
            args = args + ["--extra-output", "more.x", f2]
            want.append(("more.x", f2))
            if f2 in EXT:
                args = args + ["--extra-output", "more" + EXT[f2]]
                want.append(("more" + EXT[f2], f2))
        disk = cli.Disk({} if how == "std" else {name_in: data}, dirs=["d"], stdin=stdin)
        tmpl = ["--template-only"] if {f for n, f in want} & {"png", "clip"} else []
        with disk: rc = cli.main([name_in] + ([] if how == "inplace" else [name_out]) + args + tmpl)
        ctx.check(rc == 0, "a conversion fails")
        if how == "std":
            ctx.check(not disk.files and len(disk.stdout.out) == 1, "standard output")
            verify(ctx, disk.stdout.out[0], fout, cart, kept, "standard output as %s" % fout)
        else:
            ctx.check(sorted(disk.files) == sorted({name_in} | {n for n, f in want}), "other files are written")
            for n, f in want: verify(ctx, disk.files[n], f, cart, kept, "%s written as %s" % (n, f))
            if how != "inplace": ctx.check(ctx.eq(disk.files[name_in], data), "the input is changed")
        ctx.check(not disk.out, "something is printed")
        ctx.cover("done")

SRC = """--keepme
local loc1=qq   +   1


local loc2=rr
ff("s",loc1,loc2)
gg("t")
cc=1+2   ;
tt={mem1=4}   ff(tt.mem1)"""
PARTS = ["rename", "consts", "spaces", "lines", "comments", "tokens", "reorder", "transform"]
MODES = {"": [], "-m": ["-m"], "--minify": ["--minify"], "-M": ["-M"], "--minify-safe-only": ["--minify-safe-only"], "consts": ["--minify-consts-only"], "transform": ["--minify-transform-only"]}

def names_of(toks): return {t[1] for t in toks if t[0] == "name"}

def run_on(src, args, files=None, out="out.lua", lang="pico8"):
    disk = cli.Disk(dict({"in.lua": src}, **(files or {})))
    with disk: rc = cli.main(["in.lua"] + ([out] if out else []) + args, lang)
    return rc, disk

def flags(ctx, mode):
    """every combination of the --no-minify options: each disables just what it names"""
    off = {p: ctx.bool("no_" + p) for p in PARTS}
    if mode in ("", "transform", "--minify", "--minify-safe-only"):      # (few combinations suffice)
        ctx.assume(sum(ctx.ite(v, 1, 0) for v in off.values()) <= 1)
    off = {p: ctx.fork(v) for p, v in off.items()}
    rc, disk = run_on(SRC, MODES[mode] + ["--no-minify-" + p for p in PARTS if off[p]])
    ctx.check(rc == 0 and sorted(disk.files) == ["in.lua", "out.lua"], "minifying fails")
    out = disk.files["out.lua"]
    ctx.observe("out", out)
    if mode == "": return ctx.check(out == SRC, "the code is changed without being asked to")
    if mode == "transform": return ctx.check(out == SRC, "--minify-transform-only changes something else")
    if mode == "consts": return ctx.check(out == (SRC if off["consts"] else SRC.replace("1+2", "3")), "--minify-consts-only does something else")
    toks = lua.lex(out, "pico8")[:-1]
    vals = [t[1] for t in toks]
    names, orig = names_of(toks), names_of(lua.lex(SRC, "pico8")[:-1])
    raw = [out[t[3]:t[4]] for t in toks]
    if off["rename"]: ctx.check(names <= orig, "something is renamed under --no-minify-rename")
    else: ctx.check(not names & {"loc1", "loc2", "cc", "tt"} and ("mem1" in names) == ("afe" in mode or "M" in mode), "names are not renamed as the mode says")
    seq = lambda *x: any(tuple(raw[i:i + len(x)]) == x for i in range(len(raw)))
    ctx.check(seq("1", "+", "2") == off["consts"], "constants under --no-minify-consts" if off["consts"] else "a constant is not folded")
    if off["spaces"]: ctx.check(re.search(r"\w   \+   1", out) is not None, "spaces are removed under --no-minify-spaces")
    else: ctx.check("  " not in out, "spaces are left")
    if off["spaces"] or off["lines"]: ctx.check(re.search(r"loc2\)\n|,\w+\)\n", out) is not None, "line breaks are removed under --no-minify-lines")
    elif not off["comments"]: ctx.check("\n" not in out, "line breaks are left")
    ctx.check(("--keepme" in out) == off["comments"], "comments")
    ctx.check(seq("(", '"t"', ")") == off["tokens"] and (";" in raw) == off["tokens"], "tokens")
    ctx.check(raw.count("local") == (2 if off["reorder"] else 1), "reordering")
    ctx.cover("done")

def rename_options(ctx):
    """what the renaming options preserve"""
    pres = [n for n in ("cc", "*.mem1", "ff") if ctx.fork(ctx.bool("p" + n))]
    sep = ctx.choice("sep", [",", ", ", " "])
    sepd = ctx.fork(ctx.bool("separate"))
    nopres = ctx.fork(ctx.bool("nopres"))
    extra = ctx.choice("extra", ["", "--rename-safe-only", "--rename-members-as-globals", "--builtin", "--not-builtin", "hint", "ignored-hint"])
    args = ["-m"] + ([x for p in pres for x in ("-p", p)] if sepd else ["--preserve", sep.join(pres)] if pres else [])
    src = SRC + "\nuu=sin(1)"
    if nopres: args += ["--no-preserve", "cc"]
    if extra == "--builtin": args += ["--builtin", "gg" + sep + "tt"]
    elif extra == "--not-builtin": args += ["--not-builtin", "sin"]
    elif "hint" in extra: src = "--$preserve: tt\n" + src
    elif extra: args += [extra]
    if extra == "ignored-hint": args += ["--ignore-hints"]
    rc, disk = run_on(src, args)
    ctx.check(rc == 0, "renaming fails")
    names = names_of(lua.lex(disk.files["out.lua"], "pico8")[:-1])
    want = set()
    if "cc" in pres and not nopres: want.add("cc")
    if "ff" in pres: want.add("ff")
    if "*.mem1" in pres or extra == "--rename-safe-only": want.add("mem1")
    if extra == "--builtin": want |= {"gg", "tt"}
    if extra != "--not-builtin": want.add("sin")
    if extra == "hint": want.add("tt")
    have = names & {"loc1", "loc2", "cc", "tt", "mem1", "ff", "gg", "qq", "rr", "sin"}
    ctx.observe("have", sorted(have))
    ctx.check(have == want, "the names kept are not those the options say: %r" % sorted(have ^ want))
    if extra == "--rename-members-as-globals" and not pres and not nopres:   # one renaming for both kinds of names
        toks = lua.lex(disk.files["out.lua"], "pico8")[:-1]
        ctx.check(len(names) >= 7, "members and globals share names")
    ctx.cover("done")

def consts(ctx):
    """--const and --str-const define, with every mode"""
    a = ctx.choice("a", ["5", "0x10", "-1", "true", "nil", "\"s\"", "1.5"])
    b = ctx.choice("b", ["5", "hi", ""])
    mode = ctx.choice("mode", ["-m", "--minify-consts-only", "-M"])
    args = [mode, "--no-minify-rename"] + ["--const", "qq", a, "--str-const", "rr", b]
    rc, disk = run_on("ff(qq,rr,zz)", args)
    ctx.check(rc == 0, "defining constants fails")
    toks = lua.lex(disk.files["out.lua"], "pico8")[:-1]
    raw = [disk.files["out.lua"][t[3]:t[4]] for t in toks]
    want = {"5": ["5"], "0x10": ["16"], "-1": ["-1"], "true": ["true"], "nil": ["nil"], '"s"': ['"s"'], "1.5": ["1.5"]}[a]
    got = "".join(raw)
    ctx.observe("got", got)
    ctx.check(got in ("ff(%s,\"%s\",zz)" % (want[0], b), "ff(%s,'%s',zz)" % (want[0], b)), "the constants are not those given")
    ctx.cover("done")

def unminify(ctx):
    ind = ctx.choice("indent", ["", "1", "4", "8", "tabs"])
    rc, disk = run_on("if a then b() while c do d() end end", [ctx.choice("u", ["-U", "--unminify"])] + (["--unminify-indent", ind] if ind else []))
    pre = {"": "  ", "tabs": "\t"}.get(ind) or " " * int(ind)
    want = ["if a then", pre + "b()", pre + "while c do", pre * 2 + "d()", pre + "end", "end"]
    ctx.check(rc == 0 and [l for l in disk.files["out.lua"].split("\n") if l] == want, "unminified otherwise")
    ctx.cover("done")

def focus(ctx):
    """the focus options reach both the minifier and the renamer"""
    fs = [f for f in ("tokens", "chars", "compressed") if ctx.fork(ctx.bool(f))]
    short = ctx.fork(ctx.bool("short"))
    o = {"tokens": "-ot", "chars": "-oc", "compressed": "-ob"} if short else {f: "--focus-" + f for f in ("tokens", "chars", "compressed")}
    rc, disk = run_on(SRC, ["-m"] + [o[f] for f in fs])
    ctx.check(rc == 0, "fails")
    from pico_process import PicoContext, Source, process_code
    c, s = PicoContext(), Source("in.lua", SRC)
    ok, _ = process_code(c, s, minify={"safe-reorder": False, "safe-builtins": False, "lines": True, "wspace": True, "comments": True, "tokens": True, "reorder": True, "consts": True, "transform": True, "focus": fs},
                         rename={"safe-only": False, "focus": fs, "rules": ()})
    ctx.check(disk.files["out.lua"] == s.text, "the focus is not passed on")
    ctx.cover("done")

CODES = {
    "fine": ("function _draw() cls() print(1) end\n", None), "dirty": ("function _draw() cls() print(undef) end\n", "Identifier 'undef' not found"), "unused": ("function _draw() local un=1 end\n", "Local 'un' isn't used"),
    "broken": ("function _draw() print( end\n", "syntax"), "include": ("#include nope.lua\nx=1\n", "include")}
OPS = [[], ["-l"], ["-c"], ["-m"], ["-l", "-m"], ["-l", "--no-lint-fail"], ["-l", "--no-lint-fail", "-m"], ["-l", "--no-lint-undefined"], ["-l", "--no-lint-unused"], ["-l", "--lint-global", "undef"], ["-U"], ["-lc"], ["-l", "--no-lint-fail", "--no-lint-undefined", "-M"]]

def codes(ctx, place):
    """what is returned, printed and written when code is clean, has lint, does not compile or includes a missing file; an existing output is only replaced on success"""
    kind = ctx.choice("kind", sorted(CODES))
    ops = ctx.choice("ops", OPS)
    src, issue = CODES[kind]
    lines = ctx.choice("before", ["", "\n", "--x\ny=1\ny=y\n"]) if kind != "include" else ""
    if kind in ("fine", "unused") and "y" in lines: lines = ""
    src = lines + src
    args = ["in.p8"]
    old = "old"
    text = "pico-8 cartridge // http://www.pico-8.com\nversion 42\n__lua__\n" + src
    files = {"in.p8": text, "keep.rom": b"k"}
    if place == "out": args.append("out.lua"); files["out.lua"] = old
    elif place == "inplace": args.append("-i")
    elif not [o for o in ops if o in ("-l", "-c", "-lc")] or "-m" in ops or "-M" in ops: return ctx.cover("nothing to do")
    disk = cli.Disk(files)
    with disk: rc = cli.main(args + ops)
    ctx.observe("rc", rc); ctx.observe("out", disk.out)
    lint = any("l" in o for o in ops if not o.startswith("--"))
    parsed = ops not in ([], ["-c"])
    fails = lint and "--no-lint-fail" not in ops
    if kind == "dirty" and ("--no-lint-undefined" in ops or "--lint-global" in ops): issue = None
    if kind == "unused" and "--no-lint-unused" in ops: issue = None
    want = 0
    if kind == "include": want = 4
    elif kind == "broken" and parsed: want = 1
    elif kind in ("dirty", "unused") and issue and fails: want = 2
    ctx.check(rc == want, "the exit code is %s, not %s" % (rc, want))
    heads = [l[0] for l in disk.out]
    ctx.check(("Compilation errors:" in heads) == (want == 1), "compilation errors are (not) announced")
    shown = kind in ("dirty", "unused") and lint and issue is not None
    ctx.check(("Lint warnings:" in heads) == shown, "lint warnings are (not) announced")
    if shown:
        row, col = len(lines.split("\n")) + 3, src.split("\n")[len(lines.split("\n")) - 1].index("undef" if kind == "dirty" else "un=1") + 1
        ctx.check(any(l == "in.p8:%d:%d: %s" % (row, col, issue) for l in heads), "the warning or its place is missing: %s" % heads)
    if want:
        ctx.check(disk.log == [], "a failing run writes a file")
        for k in files: ctx.check(disk.files[k] == files[k], "a failing run changes a file")
    elif place == "out":
        ctx.check(disk.log == ["out.lua"] and disk.files["in.p8"] == text, "other files are written")
        ctx.check(disk.files["out.lua"] != old, "the output is not written")
    elif place == "inplace": ctx.check(disk.log == ["in.p8"] and disk.files["in.p8"].startswith("pico-8 cartridge"), "other files are written")
    else: ctx.check(disk.log == [], "a file is written though none was asked for")
    ctx.cover("exit %d" % want)

def places(ctx, fmt):
    """the warnings and their places do not depend on what else is done to the code"""
    k, j = ctx.choice("k", [1, 2, 4]), ctx.choice("j", [0, 3])
    src = "\n" * j + "function _draw()\n local loc1=undef1" + "\n" * k + " local loc2=undef2\n ?loc1\n"
    src += ctx.choice("tail", ["print(loc2,undef3)", "if (loc2) print(undef3)", "print(loc2) print(undef3)"]) + "\nend"
    if fmt == "tabbed": src = "x=1\nx+=x\n-->8\n" + src
    args = ["-l", "--no-lint-fail", "--error-format", fmt]
    more = ctx.choice("more", [["-m"], ["-M"], ["-U"], ["-m", "-oc"], ["-m", "-ot"], ["-m", "--no-minify-reorder"], ["--minify-consts-only"]])
    rc, disk = run_on(src, args)
    rc2, disk2 = run_on(src, args + more)
    lines = [l[0] for l in disk.out]
    ctx.check(rc == rc2 == 0 and disk.files["out.lua"] != disk2.files["out.lua"] or more[0][:4] == "--mi", "fails")
    ctx.check(len(lines) == 4 and lines[0] == "Lint warnings:", "other warnings: %s" % lines)
    for l, name in zip(lines[1:], ("undef1", "undef2", "undef3")):
        n = src[:src.index(name)].count("\n")
        col = src.index(name) - (src[:src.index(name)].rfind("\n") + 1)
        want = "in.lua (tab 1, line %d, col %d): " % (n - 2, col + 1) if fmt == "tabbed" else "in.lua:%d:%d: " % (n + 1, col + 1)
        ctx.check(l == want + "Identifier '%s' not found" % name, "the place of a warning: %s" % l)
    ctx.check([l[0] for l in disk2.out] == lines, "the warnings depend on minification")
    ctx.cover("done")

def usage(ctx):
    """senseless requests are refused, and nothing is written"""
    args = ctx.choice("args", [["in.p8"], ["nope.p8", "out.p8"], ["in.p8", "out.p8", "-i"], ["in.p8", "-f", "p8"], ["in.p8", "-m"], ["in.p8", "out.p8", "-m", "--keep-compression"], ["in.p8", "--list", "-l"], ["in.p8", "out.p8", "--list"],
                               ["in.p8", "out.js"], ["in.p8", "out.p8", "--merge", "in.p8"], ["in.p8", "out.p8", "--const", "a", "f("], ["in.p8", "out.p8", "--extra-output", "a", "p8", "x"], ["in.p8", "more.p8", "out.p8"],
                               ["in.p8", "--delete-cart", "a", "out.js"], ["in.p8", "out.p8", "--output-version", "v0.1.2"], ["in.p8", "nodir/out.p8"], ["in.p8", "out.bin"], ["in.p8", "out.p8", "-s", "x.txt"],
                               ["in.p8", "out.p8", "--merge", "in.p8", "nosection"]])
    disk = cli.Disk({"in.p8": "pico-8 cartridge // http://www.pico-8.com\nversion 42\n__lua__\nx=1\n", "out.p8": "old"})
    with disk: rc = cli.main(args)
    ctx.observe("rc", rc)
    ctx.check(rc == 3, "a senseless request succeeds")
    ctx.check(disk.log == [] and disk.files["out.p8"] == "old" and len(disk.files) == 2, "a refused request writes a file")
    ctx.check(len(disk.err) > 0, "no message")
    ctx.cover("done")

def inputs(ctx, op, parts):
    """merging, labels, titles, sections and versions by option"""
    fakepil.install()
    which = [ctx.choice("which", parts)]
    lab = op in ("label", "merge")
    cart, data = mkcart(ctx, "p8", which, lab, op == "merge")
    other = Cart(code="other()", label=MultidimArray(k_label_size, 2) if lab else None)
    for s, a in AT.items(): other.rom[a] = ctx.int("o" + s, 0, 255) if s in which else 0xa7
    files = {"in.p8": data, "o.p8": write_cart_to_source(other), }
    if op == "label": files["lab.png"] = write_cart_label(other)
    if op == "sheet": files["sheet.png"] = write_cart_spritesheet(other)
    want = {k: cart for k in KEEPS["p8"].split()}
    args = []
    if op == "merge":
        s = [k for k in ("lua", "gfx", "map", "gff", "sfx", "music", "label") if ctx.fork(ctx.bool("m" + k))]
        ctx.assume(0 < len(s) <= 2)
        args = ["--merge", "o.p8", ",".join(s)]
        for k in s: want["code" if k == "lua" else k] = other
    elif op == "merge2":
        args = ["--merge", "o.p8", "map"] + ["--merge", "o.p8", "sfx,gff", ctx.choice("mf", ["p8", "auto"])]
        for k in ("map", "sfx", "gff"): want[k] = other
    elif op == "sheet":
        args = ["--merge", "sheet.png", "gfx", "spritesheet"]
        want["gfx"] = other
    elif op == "label":
        args = ["--label", "lab.png"]
        want["label"] = other
    elif op == "title": args = ["--title", "My Title", "--title", "me"]
    elif op == "sections":
        s = ctx.choice("sections", ["lua", "gfx,map", "sfx"])
        args = ["--output-sections", s]
        for k in list(want):
            if (k if k != "code" else "lua") not in s.split(",") and k != "version": want[k] = None
    elif op == "version": args = ["--output-version", ctx.choice("v", ["7", "41", "v0.2.5g", "v0.2.4", "1000"])]
    elif op == "update": args = ["--update-version"]
    disk = cli.Disk(files)
    with disk: rc = cli.main(["in.p8", "out.p8"] + args)
    ctx.check(rc == 0 and disk.log == ["out.p8"], "fails")
    back = read_cart_from_source(disk.files["out.p8"])
    c = want["code"]
    ctx.check(back.code == (c.code if c else ""), "%s: the code" % op)
    for s, a in AT.items():
        c = want[s]
        ctx.check(ctx.eq(back.rom[a], c.rom[a] if c else mem_create_rom()[a]), "%s: section %s" % (op, s))
    c = want["label"]
    if c is not None and c.label is None: c = None
    ctx.check((back.label is not None) == (c is not None) and (c is None or ctx.eq(back.label[5, 6], c.label[5, 6])), "%s: the label" % op)
    if op == "version": ctx.check(back.version_id == {"7": 7, "41": 41, "v0.2.5g": 41, "v0.2.4": 34, "1000": 1000}[args[1]], "another version")
    elif op == "update": ctx.check(back.version_id == 43, "not the latest version")
    else: ctx.check(back.version_id == cart.version_id, "%s: the version" % op)
    if op == "title": ctx.check(back.meta.get("title") == ["My Title", "me"], "another title")
    else: ctx.check(not back.meta, "%s: a title appears" % op)
    ctx.cover("done")

def counts(ctx):
    """the counts printed are those of the input and of the output"""
    mini = ctx.fork(ctx.bool("minify"))
    inp = ctx.fork(ctx.bool("input"))
    out = ctx.choice("out", [None, "out.lua", "out.p8", "out.rom"])
    noc, nom = ctx.fork(ctx.bool("nocompress")), ctx.fork(ctx.bool("count"))
    if not (inp or nom) : return
    args = (["-m"] if mini else []) + (["--input-count"] if inp else []) + (["--count"] if nom else []) + ["--parsable-count"] + (["--no-count-compress"] if noc else [])
    if mini and not out and not nom: return
    k = ctx.int("k", 1, 3)
    k = ctx.concretize(k)
    src = "abc = 1 -- comment\n" * k + "ff( abc )"
    rc, disk = run_on(src, args, out=out)
    ctx.check(rc == 0, "fails")
    got = {}
    for l in disk.out:
        p = l[0].split(":")
        ctx.check(p[0] == "count" and len(p) == 5, "not a count: %s" % l)
        key = (p[1] if p[1] == "input" else "out", p[2])
        ctx.check(key not in got, "counted twice")
        got[key] = (int(p[3]), int(p[4]))
    ctx.observe("got", sorted(got.items()))
    text = disk.files[out] if out == "out.lua" else None
    tokens = 3 * k + 3
    want = set()
    if inp:
        want |= {("input", "tokens"), ("input", "chars")}
        ctx.check(got[("input", "chars")] == (len(src), 65535), "chars of the input")
        ctx.check(got[("input", "tokens")] == (tokens, 8192), "tokens of the input")
    if nom:
        want |= {("out", "tokens"), ("out", "chars")}
        if not noc or out == "out.rom": want.add(("out", "compressed"))
        if text is not None: ctx.check(got[("out", "chars")][0] == len(text), "chars of the output")
        ctx.check((got[("out", "chars")][0] < len(src)) == mini and got[("out", "chars")][1] == 65535, "chars of the output")
        ctx.check(got[("out", "tokens")][0] <= tokens and (mini or got[("out", "tokens")][0] == tokens), "tokens of the output")
        if ("out", "compressed") in want: ctx.check(got[("out", "compressed")][1] == 15616, "limit of the compressed size")
    got.pop(("input", "compressed"), None)
    ctx.check(set(got) == want, "other counts are printed: %s" % sorted(set(got) ^ want))
    ctx.cover("done")

def harnesses(tier):
    T = tier == "thorough"
    hs = []
    for fin in KEEPS:
        for how in ("ext", "option", "auto", "inplace", "std", "extra"):
            if how in ("ext", "inplace") and fin not in EXT: continue
            if how == "auto" and fin not in ("p8", "png", "clip", "url", "lua"): continue
            hs.append(H(convert, params={"fin": fin, "how": how}, bounds="every output format; every value of a byte of the flags, the other parts of the cart fixed"))
    for m in MODES: hs.append(H(flags, params={"mode": m}, bounds="every combination of the eight --no-minify options"))
    for f in (rename_options, consts, unminify, focus, usage, counts): hs.append(H(f, bounds="every combination of the options in the harness"))
    for f in ("common", "tabbed"): hs.append(H(places, params={"fmt": f}, bounds="3 x 2 x 3 shapes of the code, 7 ways to change it"))
    for op in ("merge", "merge2", "sheet", "label", "title", "sections", "version", "update"):
        hs.append(H(inputs, params={"op": op, "parts": sorted(AT) if T else ["gff"] if op in ("merge", "sheet") else ["gff", "map"]}, bounds="every value of a byte of the flags (or map; thorough: any section) of both carts, of a letter of the code and of a pixel of the label, 3 versions; at most two sections merged"))
    for p in ("out", "inplace", "none"): hs.append(H(codes, params={"place": p}, bounds="6 kinds of carts, 13 sets of options, 3 offsets of the code"))
    return hs

TECHNIQUE = "symbolic execution of the whole command line (run_shrinko.create_main and everything below it) on an in-memory disk; the options are solver variables, and z3 decides that the exit code, the output and every written file are what the options say"
OUTSIDE = "the Picotron command line (C32), exports (C09, C24, C25, C28), custom scripts, sub-languages and compilers; option values not listed in the harnesses; the argument parser's own errors (argparse)"
ASSUMPTIONS = ["files, directories and the standard streams behave like the in-memory stand-in (props/cli.py)", "PIL behaves like props/fakepil.py", "sha1 is a fixed value (on symbolic data)"]
META = dict(
    title="The command line does what its options say",
    statement="Converting a cart by file name or by --format/--input-format (including 'auto', in place, standard input and output and extra outputs) writes exactly the requested files, each holding the parts of the cart its format can hold. The --no-minify-*, safe-only, rename, preserve, builtin, const, focus and unminify options each affect just what they name, in every combination. --merge, --label, --title, --output-sections and --output-version affect just those parts. Counts printed are those of the input and the output. Lint warnings and errors are printed with their place in the source, whatever else is done to the code; the exit code says whether the run succeeded; a run that fails or is refused writes nothing.",
    over=["inputs", "configurations"], text="every combination of the options in the harnesses; every value of a byte of the cart",
    why="The tests run some fifty command lines and compare outputs with stored files; the options combine in thousands of ways.",
    files=["run_shrinko.py", "pico_process.py", "pico_cart.py"],
    mech=[("options", "run_shrinko.py: main_inner"), ("inputs", "run_shrinko.py: handle_input"), ("processing and exit codes", "run_shrinko.py: handle_processing"), ("outputs", "run_shrinko.py: handle_output"), ("places of warnings", "pico_process.py: Error")])
