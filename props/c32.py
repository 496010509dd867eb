"""C32: shrinkotron's options on Picotron carts"""
from sym.ctx import H
import lua
import pico_process
import fakepil, cli
from picotron_cart import *
from picotron_cart import k_label_png_file, k_label_qoi_file
from picotron_fs import PicotronFile, PicotronDir, read_pod, write_pod, UserData
from picotron_defs import Cart64Source

UD = UserData("u8", 40, 1, "07" * 40)
BIG = {"x": 5, "ud": UD, "z": "t" * 60}
FORMS = {"text": dict(compress=False, use_pxu=False), "pxu": dict(compress=False), "lz4": dict(use_pxu=False), "both": dict(), "b64": dict(use_base64=True)}

def files_of(cart): return {k: f.data for k, f in cart.files.items()}

def mkcart(files):
    cart = Cart64()
    for k, d in files.items(): cart.files[k] = PicotronDir() if d is None else PicotronFile(d)
    return cart

def run(files, args, name="in.p64", more=None, dirs=(), stdin=None, lang="picotron"):
    data = {name: write_cart64_to_source(mkcart(files))}
    disk = cli.Disk(dict(data, **(more or {})), dirs=dirs, stdin=stdin)
    with disk: rc = cli.main([name] + args, lang)
    return rc, disk

def readp64(ctx, disk, name="out.p64"):
    ctx.check(name in disk.files, "%s is not written" % name)
    return read_cart64_from_source(disk.files[name])

def tree(disk, at):
    """the files below a directory of the disk"""
    out = {k[len(at) + 1:]: v for k, v in disk.files.items() if k.startswith(at + "/")}
    out.update({k[len(at) + 1:] + "/": None for k in disk.dirs if k.startswith(at + "/")})
    return out

WRITE = {"p64": write_cart64_to_source, "png": lambda c: write_cart64_to_image(c, template_only=True), "rom": write_cart64_to_rom, "tiny-rom": write_cart64_to_tiny_rom, "lua": write_cart64_to_raw_source}
READ = {"p64": read_cart64_from_source, "png": read_cart64_from_image, "rom": lambda d: read_cart64_from_rom(d, allow_tiny=True), "tiny-rom": lambda d: read_cart64_from_rom(d, allow_tiny=True), "lua": lambda d: read_cart64_from_source(d, raw=True)}
EXT = {"p64": ".p64", "png": ".p64.png", "rom": ".ROM", "lua": ".lua"}
ALL = {"main.lua": b"x=1 -- k", "a/": None, "a/b.lua": b"y=2", "a/c.bin": b"\x01q", "d.pod": b"--[[pod,k=1]]{x=5}", "e/": None}

def convert(ctx, fin, how, few):
    """a cart in any format is written in any format, by name or by option, in place, and to several outputs"""
    fakepil.install()
    files = dict(ALL)
    files["a/c.bin"] = b"\x01" + (b"\xff" if fin == "png" else ctx.bytes("c", 1, 32, 255))
    cart = mkcart(files)
    only = fin in ("tiny-rom", "lua")
    kept = {"main.lua": files["main.lua"]} if only else files
    fout = fin if how == "inplace" else ctx.choice("fout", [f for f in (("p64", "rom") if few else ("p64", "png", "rom", "tiny-rom", "lua", "dir")) if how != "ext" or f in EXT or f == "dir"])
    args, disk = [], cli.Disk(dirs=["d"])
    name_in = "in" + EXT.get(fin, "") if how in ("ext", "inplace", "extra") else "in.x"
    if fin == "dir":
        disk.dirs.add(name_in)
        for k, v in files.items():
            if v is None: disk.dirs.add(name_in + "/" + k[:-1])
            else: disk.files[name_in + "/" + k] = v
    else: disk.files[name_in] = WRITE[fin](cart)
    if fin == "tiny-rom" or how == "option": args += ["-F", fin]
    elif how == "auto": args += ctx.choice("auto", [[], ["-F", "auto"]])
    name_out = name_in if how == "inplace" else "d/out" + (EXT.get(fout, "/") if how == "ext" else ctx.choice("ext", [".rom"] if few else [".rom", ""]))
    want = [(name_out.rstrip("/"), fout)]
    if how == "inplace": args += ["-i"]
    else: args = [name_out] + args + (["-f", fout] if how != "ext" else [])
    if how == "extra":
        f2 = ctx.choice("f2", ["dir"] if few else ["p64", "rom", "tiny-rom", "dir"])
        args += ["--extra-output", "more", f2]
        want.append(("more", f2))
    if any(f == "png" for n, f in want): args += ["--template-only"]
    args += ["--keep-pod-compression", "--keep-label"]
    with disk: rc = cli.main([name_in] + args, "picotron")
    ctx.check(rc == 0 and not disk.out, "a conversion fails")
    for n, f in want:
        keep = {"main.lua": files["main.lua"]} if f in ("tiny-rom", "lua") else kept
        if f == "dir":
            ctx.check(n in disk.dirs, "no directory is written")
            got = tree(disk, n)
        else:
            ctx.check(n in disk.files, "%s is not written" % n)
            got = files_of(READ[f](disk.files[n]))
        dirs = lambda t: {k: v for k, v in t.items() if v is not None}     # (p64 has empty directories, roms have not)
        got, keep = dirs(got), dirs(keep)
        if fin == "png" or f == "png": got.pop("label.png", None)      # (the picture of a png is read as a label)
        ctx.check(sorted(got) == sorted(keep), "%s as %s: other files: %s" % (n, f, sorted(set(got) ^ set(keep))))
        for k in keep: ctx.check(ctx.eq(got[k], keep[k]), "%s as %s: the contents of %s" % (n, f, k))
    ctx.cover("done")

def pods(ctx, fmt):
    """how pods are stored is what the options say; what they hold stays"""
    form = ctx.choice("form", sorted(FORMS))
    raw = b"--[[pod_format=\"raw\",k=1]]{not a pod" + ctx.bytes("r", 2, 33, 126)
    files = {"main.lua": b"x=1", "p.pod": b"--[[pod,k=1]]" + write_pod(BIG, **FORMS[form]), "r.bin": raw, "n.pod": b"--[[pod]]{" + ctx.bytes("n", 2, 48, 57) + b"}"}
    u, b, keep = [ctx.fork(ctx.bool(k)) for k in ("u", "b64", "keep")]
    args = [ctx.choice("uo", ["-u", "--uncompress-pods"])] if u else []
    args += (["--base64-pods"] if b else []) + (["--keep-pod-compression"] if keep else [])
    rc, disk = run(files, ["out." + fmt] + args, dirs=["out.dir"])
    ctx.check(rc == 0, "fails")
    got = tree(disk, "out.dir") if fmt == "dir" else files_of(READ[fmt](disk.files["out." + fmt]))
    ctx.check(sorted(got) == sorted(files), "other files")
    for k in ("main.lua", "r.bin"): ctx.check(ctx.eq(got[k], files[k]), "a file that is no pod changes")
    new = PicotronFile(got["p.pod"])
    ctx.check(new.raw_metadata == b"pod,k=1" and not new.is_raw, "the metadata changes")
    ctx.check(ctx.eq(read_pod(new.raw_payload), BIG), "a pod holds something else")
    body = new.raw_payload
    packed = 0
    if keep: ctx.check(got["p.pod"] == files["p.pod"] and ctx.eq(got["n.pod"], files["n.pod"]), "a pod changes under --keep-pod-compression")
    else:
        ctx.check(body.startswith(b"b64:") == b, "base64")
        if b: body = pico_base64_decode(body[4:])
        lz = not u and fmt in ("p64", "dir")      # (for text; the binary formats are compressed as they are)
        ctx.check(body.startswith(b"lz4\0") == lz, "compression of pods")
        if not lz: ctx.check((b"pxu\0" in body) == (not u), "compression of userdata")
        n = PicotronFile(got["n.pod"]).raw_payload
        a, c = files["n.pod"][10], files["n.pod"][11]
        value = PicotronFile(got["n.pod"]).payload
        ctx.check(ctx.eq(value, {1: (a - 48) * 10 + c - 48}), "a pod holds another number")
    ctx.cover("done")

METAS = {"main.lua": b"--[[pod_format=\"raw\",runtime=9,title=\"t\",version=\"3\",icon=1]]x=1", "a/": None, "a/b.lua": b"--[[pod_format=\"raw\",k=2]]y=2", "a/.info.pod": b"--[[pod,k=3,runtime=7]]", "d.pod": b"--[[pod,k=1]]{x=5}",
         "e.pod": b"--[[pod,pod_type=\"map\",icon=4]]{x=6}", ".info.pod": b"--[[pod,k=3,title=\"t\"]]", "f.txt": b"plain"}
MVALS = {"main.lua": {"pod_format": "raw", "runtime": 9, "title": "t", "version": "3", "icon": 1}, "a/b.lua": {"pod_format": "raw", "k": 2}, "a/.info.pod": {"k": 3, "runtime": 7}, "d.pod": {"k": 1}, "e.pod": {"pod_type": "map", "icon": 4},
         ".info.pod": {"k": 3, "title": "t"}, "f.txt": None}

def glob(pats, name):
    import fnmatch
    r = False
    for p in pats:
        if fnmatch.fnmatchcase(name, p.lstrip("!")):
            r = not p.startswith("!")
            if not r: return False
    return r

def meta(ctx, mode):
    """which metadata is deleted, by option or by default"""
    args = [mode] if mode else []
    dm = ctx.choice("dm", [None, ["*"], ["*.lua"], ["a/*", "d.*"], ["*", "!*.info.pod"], ["*.pod", "!e.pod", "main.lua"]])
    km = ctx.choice("km", [None, ["icon"], ["*"], ["*", "!k"], ["title", "runtime"], ["t*", "pod*"]])
    sep = ctx.choice("sep", [",", ", "])
    twice = ctx.fork(ctx.bool("twice"))
    give = lambda o, v: [x for p in v for x in (o, p)] if twice else [o, sep.join(v)]
    if dm: args += give("--delete-meta", dm)
    if km: args += give("--keep-meta-keys", km)
    rc, disk = run(METAS, ["out.p64", "--no-minify-rename"] + args)
    ctx.check(rc == 0, "fails")
    got = readp64(ctx, disk).files
    dm = dm or (["*"] if mode in ("-m", "--minify") else [])
    km = km or ["runtime"]
    for k, vals in MVALS.items():
        hit = glob(dm, k)
        keep = {q: v for q, v in (vals or {}).items() if not hit or glob(km, q)}
        if k.endswith(".info.pod") and not keep:
            ctx.check(k not in got, "%s: only deleted metadata, but stays" % k)
            continue
        ctx.check(k in got, "%s vanishes" % k)
        new = got[k].metadata
        if vals is None: ctx.check(new is None, "metadata appears")
        else:
            have = dict(new or {})
            for q in ("pod_format", "pod_type"):
                if q in vals and q in have and q not in keep: ctx.check(have.pop(q) == vals[q], "%s: format" % k)
            have.pop("pod", None)
            ctx.check(have == keep, "%s: metadata %s, not %s" % (k, have, keep))
        ctx.check(got[k].is_raw == PicotronFile(METAS[k]).is_raw, "%s: raw or not" % k)
        ctx.check(got[k].payload == PicotronFile(METAS[k]).payload or k.endswith(".lua") and mode, "%s: contents" % k)
    ctx.check(set(got) - {"a/"} <= set(METAS), "files appear")
    ctx.cover("done")

def label(ctx, fmt):
    """the label stays or goes as told, by default only in a png, whose picture shows it"""
    which = ctx.choice("which", ["label.png", "label.qoi", "both", "none"])
    opt = ctx.choice("opt", [None, "--keep-label", "--delete-label"])
    files = {"main.lua": b"x=1", "sub/": None, "sub/label.png": b"no label"}
    for k in ("label.png", "label.qoi"):
        if which in (k, "both"): files[k] = b"pic" + (b"\x80" if fmt == "png" else ctx.bytes(k, 1, 0, 255))
    fakepil.install()
    rc, disk = run(files, ["out", "-f", fmt, "--template-only"] + ([opt] if opt else []))
    ctx.check(rc == 0, "fails")
    got = tree(disk, "out") if fmt == "dir" else files_of(READ[fmt](disk.files["out"]))
    gone = opt == "--delete-label" or opt is None and fmt == "png"
    want = {k: v for k, v in files.items() if not (gone and k in ("label.png", "label.qoi")) and v is not None}
    got = {k: v for k, v in got.items() if v is not None}
    if fmt == "png" and which not in ("label.png", "both") or gone: got.pop("label.png", None) if fmt == "png" else None     # (the picture is read as a label again)
    ctx.check(sorted(got) == sorted(want), "files %s, not %s" % (sorted(got), sorted(want)))
    for k in want: ctx.check(ctx.eq(got[k], want[k]), "%s changes" % k)
    ctx.cover("done")

def manip(ctx, op):
    """--list, --filter, --insert, --extract, --merge"""
    files = dict(ALL)
    files["a/c.bin"] = b"\x01" + ctx.bytes("c", 1, 32, 255)
    new = ctx.bytes("new", 2, 32, 255)
    more, dirs, args, want, out = {}, [], [], dict(files), {}
    if op == "list":
        rc, disk = run(files, ["--list"])
        ctx.check(rc == 0 and sorted(l[0] for l in disk.out) == sorted(files) and disk.log == [], "the list of files")
        return ctx.cover("done")
    if op == "filter":
        pats = ctx.choice("pats", [["*"], ["*.lua"], ["a/*"], ["*", "!a/*"], ["main.lua", "*.pod"], ["[a-d]*", "!*.bin"]])
        args = ["--filter", ",".join(pats)] if ctx.fork(ctx.bool("joined")) else [x for p in pats for x in ("--filter", p)]
        want = {k: v for k, v in files.items() if glob(pats, k)}
        want.update({k[:i + 1]: None for k in list(want) for i, c in enumerate(k) if c == "/"})
    elif op == "insert":
        more = {"new.bin": new, "dir/n.lua": new, "dir/deep/q.bin": b"q", "dir/deep/r.lua": b"r"}
        dirs = ["dir", "dir/deep", "dir/void"]
        what = ctx.choice("what", ["file", "file at", "file into", "file over", "dir", "dir at", "dir filter"])
        args = ["--insert"] + {"file": ["new.bin"], "file at": ["new.bin", "x/y.bin"], "file into": ["new.bin", "a/"], "file over": ["new.bin", "a/c.bin"], "dir": ["dir"], "dir at": ["dir", "a/z"], "dir filter": ["dir", "w", "*.lua,w/deep/q*"]}[what]
        if what[:4] == "file": want[{"file": "new.bin", "file at": "x/y.bin", "file into": "a/new.bin", "file over": "a/c.bin"}[what]] = new
        else:
            pre = {"dir": "dir/", "dir at": "a/z/", "dir filter": "w/"}[what]
            want.update({pre + "n.lua": new, pre + "deep/q.bin": b"q", pre + "deep/r.lua": b"r"})
            if what != "dir filter": want[pre + "void/"] = None
        want.update({k[:i + 1]: None for k in list(want) for i, c in enumerate(k) if c == "/"})
    elif op == "extract":
        what = ctx.choice("what", ["file", "file at", "dir", "dir at", "dir slash"])
        args = ["--extract"] + {"file": ["a/c.bin"], "file at": ["a/c.bin", "o/q.x"], "dir": ["a"], "dir at": ["a", "o/z"], "dir slash": ["a/", "o/z"]}[what]
        dirs = ["o"]
        if what[:4] == "file": out = {"c.bin" if what == "file" else "o/q.x": files["a/c.bin"]}
        else:
            pre = "a/" if what == "dir" else "o/z/"
            out = {pre + "b.lua": files["a/b.lua"], pre + "c.bin": files["a/c.bin"]}
    elif op == "merge":
        more = {"o.p64": write_cart64_to_source(mkcart({"main.lua": new if False else b"other", "g/": None, "g/h.bin": b"\x02" + new[:1], "a/": None, "a/c.bin": b"oc"}))}
        pats = ctx.choice("pats", [["*"], ["*.lua"], ["g/*"], ["*.bin", "!a/*"], ["a/*", "g/*"]])
        args = ["--merge", "o.p64", ",".join(pats)] + ctx.choice("f", [[], ["p64"], ["auto"]])
        for k, v in {"main.lua": b"other", "g/": None, "g/h.bin": b"\x02" + new[:1], "a/": None, "a/c.bin": b"oc"}.items():
            if glob(pats, k):
                want[k] = v
        want.update({k[:i + 1]: None for k in list(want) for i, c in enumerate(k) if c == "/"})
    rc, disk = run(files, (["out.p64"] if op != "extract" else []) + args + ["--keep-pod-compression"], more=more, dirs=dirs)
    ctx.check(rc == 0, "fails: %s" % disk.err)
    if op == "extract":
        ctx.check(sorted(set(disk.files) - {"in.p64"}) == sorted(out), "other files are extracted: %s" % sorted(disk.files))
        for k, v in out.items(): ctx.check(ctx.eq(disk.files[k], v), "%s is extracted otherwise" % k)
    else:
        got = files_of(readp64(ctx, disk))
        ctx.check(sorted(got) == sorted(want), "files %s, not %s" % (sorted(got), sorted(want)))
        for k, v in want.items(): ctx.check((got[k] is None) == (v is None) and (v is None or ctx.eq(got[k], v)), "%s is another" % k)
        ctx.check(sorted(disk.files) == sorted({"in.p64", "out.p64"} | set(more)), "other files are written")
    ctx.cover("done")

def code(ctx, n):
    """all code files of a cart are minified as one program, whatever includes what; other files are left alone"""
    names = ["main.lua", "b.lua", "s/c.lua"][:n]
    inc = {}
    for k in names:
        inc[k] = ctx.choice("inc" + k, ["", "main.lua", "b.lua", "s/c.lua", "nope.lua", "main.lua b.lua", "()"] if n < 3 or k != "main.lua" else ["", "b.lua", "s/c.lua b.lua"])
    sel = ctx.choice("sel", [None, ["*.lua"], ["*.lua", "!s/*"], ["main.lua", "t.txt"]])
    files = {"t.txt": b"  globaltxt  =  1 --t", "p.pod": b"--[[pod]]{x=1}"}
    for i, k in enumerate(names):
        files[k] = ("--%s\n" % k + "".join("include(\"%s\")\n" % x if x != "()" else "include()include(t)\n" for x in inc[k].split()) + "globalfn%d = function(arg) return arg end\n" % i + "globalfn%d(globalfn%d(globaltxt))" % (i, (i + 1) % n)).encode()
    mode = ctx.choice("mode", ["-m", "-M"])
    rc, disk = run(files, ["out.p64", mode] + (["--code-files", ",".join(sel)] if sel else []))
    ctx.check(rc == 0, "fails: %s %s" % (disk.err, disk.out))
    got = files_of(readp64(ctx, disk))
    have = {k for k in got if not k.endswith("/")}
    ctx.check(have == set(files), "other files")
    hit = [k for k in files if (glob(sel, k) if sel else k.endswith(".lua")) and k != "p.pod"]
    names_, back = {}, {}
    for k in files:
        new, old = bytes(got[k]), files[k]
        if k not in hit:
            ctx.check(new == old or k == "p.pod", "%s is not code, but changes" % k)
            continue
        a, b = [[t for t in lua.lex(x.decode(), "picotron")[:-1] if t[1] not in ("(", ")")] for x in (old, new)]
        ctx.check(len(a) == len(b), "%s is other code: %r" % (k, new))
        ctx.check(b"--" not in new, "comments are left in %s" % k)
        for x, y in zip(a, b):
            ctx.check(x[0] == y[0], "%s is other code: %r" % (k, new))
            if x[0] == "name" and x[1].startswith("global"):
                ctx.check(names_.setdefault(x[1], y[1]) == y[1] and back.setdefault(y[1], x[1]) == x[1], "global %s has other names in other files" % x[1])
            elif x[1] != "arg": ctx.check(x[1] == y[1], "%s is other code: %r" % (k, new))
    ctx.check(mode == "-M" or all(a != b for a, b in names_.items()), "globals are not renamed")
    ctx.cover("done")

def consts(ctx):
    """constants of an included file are known where it is included"""
    depth = ctx.choice("depth", [1, 2])
    order = ctx.choice("order", [0, 1])
    chain = ["main.lua", "m.lua", "k.lua"][:depth + 1] if depth == 2 else ["main.lua", "k.lua"]
    files = {}
    for a, b in zip(chain, chain[1:]): files[a] = b'include("' + b.encode() + b'")\nprint(KK)\n'
    v = ctx.bytes("v", 1, 48, 57)
    files[chain[-1]] = b"--[[$const]] KK = 4" + v + b"\n"
    items = list(files.items())
    if order: items.reverse()
    rc, disk = run(dict(items), ["out.p64", "-m"])
    ctx.check(rc == 0, "fails")
    got = files_of(readp64(ctx, disk))
    for k in chain[:-1]: ctx.check(ctx.any([ctx.eq(bytes(got[k])[i:i + 2], b"4" + v) for i in range(len(got[k]) - 1)]), "the constant is not known in %s" % k)
    ctx.cover("done")

def order(ctx, n):
    """every file is processed once, after those it includes (unless they include each other)"""
    graph = {}
    for i in range(n): graph[i] = [j for j in range(n) if ctx.fork(ctx.bool("e%d%d" % (i, j)))]
    if ctx.fork(ctx.bool("twice")): graph = {k: v + v for k, v in graph.items()}
    got = Cart64Source.topologic_sort(graph)
    ctx.check(sorted(got) == list(range(n)), "a file is left out, or processed twice: %s for %s" % (got, graph))
    def reach(a, b, seen=()): return any(x == b or x not in seen and reach(x, b, seen + (x,)) for x in graph[a])
    if not any(reach(i, i) for i in range(n)):
        for i in range(n):
            for j in graph[i]: ctx.check(got.index(j) < got.index(i), "a file is processed before what it includes: %s for %s" % (got, graph))
    ctx.cover("done")

def version(ctx):
    """--output-version, --update-version, --version"""
    meta = ctx.choice("meta", [b"--[[pod,runtime=9]]", b"--[[pod,k=1]]", None])
    files = {"main.lua": b"x=1"}
    if meta: files[".info.pod"] = meta
    had = {b"--[[pod,runtime=9]]": 9}.get(meta, -1)
    op = ctx.choice("op", ["show", "output", "update", "both"])
    v = ctx.choice("v", [7, 21, 40])
    args = {"show": ["--version"], "output": ["out.p64", "--output-version", str(v)], "update": ["out.p64", "--update-version"], "both": ["out.p64", "--output-version", str(v), "--version", "--keep-pod-compression"]}[op]
    rc, disk = run(files, args)
    ctx.check(rc == 0, "fails: %s" % disk.err)
    now = v if op in ("output", "both") else 27 if op == "update" else had
    if "--version" in args: ctx.check(["runtime version: %d" % now] in disk.out, "the version printed: %s" % disk.out)
    if op != "show":
        got = readp64(ctx, disk).files
        ctx.check(set(got) == set(files), "other files")
        if meta: ctx.check(got[".info.pod"].metadata.get("runtime") == now and got[".info.pod"].metadata.get("k") == (1 if b"k=" in meta else None), "the version in the metadata")
    ctx.cover("done")

def single(ctx):
    """a single pod is read and written as such"""
    form = ctx.choice("form", sorted(FORMS))
    with_meta = ctx.fork(ctx.bool("meta"))
    data = (b"--[[pod,k=1]]" if with_meta else b"") + write_pod(BIG, **FORMS[form])
    u, b, keep = [ctx.fork(ctx.bool(k)) for k in ("u", "b64", "keep")]
    args = (["-u"] if u else []) + (["--base64-pods"] if b else []) + (["--keep-pod-compression"] if keep else [])
    disk = cli.Disk({"in.pod": data})
    with disk: rc = cli.main(["in.pod", "out.pod"] + args, "picotron")
    ctx.check(rc == 0, "fails")
    out = disk.files["out.pod"]
    f = PicotronFile(out)
    ctx.check(f.raw_metadata == (b"pod,k=1" if with_meta else None), "the metadata changes")
    body = f.raw_payload
    ctx.check(ctx.eq(read_pod(body), BIG), "the pod holds something else")
    if keep: ctx.check(out == data, "the pod changes")
    else:
        ctx.check(body.startswith(b"b64:") == b, "base64")
        if b: body = pico_base64_decode(body[4:])
        ctx.check(body.startswith(b"lz4\0") == (not u), "compression")
        if u: ctx.check(b"pxu\0" not in body, "compression of userdata")
    ctx.cover("done")

def harnesses(tier):
    T = tier == "thorough"
    hs = []
    for fin in ("p64", "png", "rom", "tiny-rom", "lua", "dir"):
        for how in ("ext", "option", "auto", "inplace", "extra"):
            if how == "auto" and fin == "tiny-rom": continue
            if how == "ext" and fin == "tiny-rom": continue
            hs.append(H(convert, params={"fin": fin, "how": how, "few": fin == "png" and how in ("option", "auto", "extra") and not T}, bounds="every output format; every value of a byte of a file"))
    for f in ("p64", "dir", "rom"): hs.append(H(pods, params={"fmt": f}, bounds="5 forms of a pod, every combination of the options, every 2-digit number"))
    for m in ("", "-m", "-M", "--minify"): hs.append(H(meta, params={"mode": m}, bounds="6 selections of files, 6 of keys, given together or one by one"))
    for f in ("p64", "png", "rom", "dir"): hs.append(H(label, params={"fmt": f}, bounds="4 carts, 3 options, every value of a byte"))
    for op in ("list", "filter", "insert", "extract", "merge"): hs.append(H(manip, params={"op": op}, bounds="the selections in the harness; every value of the bytes of a file"))
    hs.append(H(code, params={"n": 3 if T else 2}, bounds="every include graph of %d files in the harness, 4 selections of code files" % (3 if T else 2)))
    hs.append(H(consts, bounds="2 depths, 2 orders of files, every digit"))
    hs.append(H(order, params={"n": 4 if T else 3}, bounds="every graph of %d files, cycles and repeated includes too" % (4 if T else 3)))
    hs.append(H(version, bounds="3 carts, 4 options, 3 versions"))
    hs.append(H(single, bounds="5 forms of a pod, with or without metadata, every combination of the options"))
    return hs

TECHNIQUE = ("bounded symbolic execution of the real shrinkotron (its command line, format readers and writers, pod and metadata code) on an in-memory disk: carts with symbolic bytes and symbolic options; every output is checked against "
    "what the options promise (files, contents, storage of pods, metadata, label, versions) on every path, with Z3")
OUTSIDE = "the contents of the formats themselves (C09-C13, C26); listing through a picture of other sizes; scripts and macros; concurrent processing of directories; more than the files and patterns named in the harnesses"
ASSUMPTIONS = ["PNG pictures are encoded by a stand-in for Pillow (fakepil)", "patterns are matched as by fnmatchcase"]
META = dict(
    title="shrinkotron's options on Picotron carts do what they say",
    statement="For every Picotron cart: reading it in one format and writing it in another keeps all its files and their contents (or only main.lua, for the formats that hold nothing else), whether the formats come from the names, the options, autodetection, in-place processing or extra outputs. --uncompress-pods, --base64-pods and --keep-pod-compression decide how pods are stored and never what they hold, and files that are no pods are left alone. --delete-meta and --keep-meta-keys (and the defaults under --minify) decide exactly which metadata stays. The label stays or goes as told. --list, --filter, --insert, --extract and --merge act on exactly the files their patterns and paths name. All code files (as selected by --code-files) are minified as one program: globals get the same names everywhere, whatever includes what, and constants of an included file are known where it is included. --output-version, --update-version and --version set and show the version.",
    over=["inputs", "configurations"], text="every combination of the options, formats and patterns in the harnesses; every value of the symbolic bytes",
    why="The tests convert a few Picotron carts and compare the outputs with stored files; most options are tested once, alone.",
    files=["run_shrinko.py", "picotron_cart.py", "picotron_fs.py", "picotron_defs.py"],
    mech=[("formats", "picotron_cart.py: read_cart64, write_cart64"), ("metadata, pods, label", "picotron_cart.py: preproc_cart64"), ("selections of files", "picotron_cart.py: filter_cart64, merge_cart64, read_cart64_from_fs"), ("code files of a cart", "picotron_defs.py: Cart64Source")])
