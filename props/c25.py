"""C25: extracting a picotron cart into a directory"""
import os, shutil, builtins
from sym.ctx import H
import pico_process
import picotron_cart
import pico_export
from picotron_cart import Cart64, write_cart64_to_fs
from picotron_fs import PicotronFile, PicotronDir
from utils import CheckError

BASE = "/dst/out"

class Files:
    """the entries of a cart, whose names may be symbolic"""
    def __init__(s, ctx, entries): s.ctx, s.e = ctx, entries
    def items(s): return list(s.e)
    def __iter__(s): return iter([k for k, _ in s.e])
    def get(s, key, default=None):
        for k, f in s.e:
            if len(k) == len(key) and s.ctx.fork(s.ctx.eq(k, key)): return f
        return default
    def __contains__(s, key): return s.get(key) is not None
    def __getitem__(s, key): return s.get(key)

class Guard:
    """stand-ins for what changes the file system, should the code reach it in another way than below"""
    NAMES = [(builtins, "open"), (os, "makedirs"), (os, "mkdir"), (os, "remove"), (os, "unlink"), (os, "rename"), (os, "replace"), (os, "rmdir"), (os, "open"), (os, "symlink"), (os, "link"), (shutil, "rmtree"), (shutil, "move"), (shutil, "copy"), (shutil, "copyfile")]
    def start(s, made, written, removed):
        s.real = [getattr(m, n) for m, n in s.NAMES]
        real_open = builtins.open
        class File:
            def __init__(t, path):
                t.at = len(written)
                written.append((path, b""))
            def write(t, data): written[t.at] = (written[t.at][0], written[t.at][1] + data if written[t.at][1] else data)
            def __enter__(t): return t
            def close(t): pass
            def __exit__(t, *a): pass
        def fake_open(path, mode="r", *a, **k):
            if isinstance(mode, str) and not any(c in mode for c in "wax+"): return real_open(path, mode, *a, **k)
            return File(path)
        fakes = {"open": fake_open, "makedirs": lambda p, *a, **k: made.append(p), "mkdir": lambda p, *a, **k: made.append(p)}
        for m, n in s.NAMES: setattr(m, n, fakes[n] if n in fakes and (m, n) != (os, "open") else lambda *a, **k: removed.extend(a))
    def stop(s):
        for (m, n), f in zip(s.NAMES, s.real): setattr(m, n, f)

class Disk:
    """records what would be done to the file system; nothing is done. Paths are resolved as POSIX does it"""
    def __init__(s, ctx, dirs=()):
        s.ctx, s.made, s.written, s.removed, s.dirs = ctx, [], [], [], list(dirs)
    def __enter__(s):
        m = picotron_cart
        s.old = m.dir_create, m.file_write, m.path_is_dir
        def dir_create(path, delete_existing=False):
            if delete_existing: s.removed.append(path)
            s.made.append(path)
        def file_write(path, value): s.written.append((path, value))
        def path_is_dir(path):
            return any(len(p) == len(path) and s.ctx.fork(s.ctx.eq(p, path)) for p in s.made + s.dirs)
        m.dir_create, m.file_write, m.path_is_dir = dir_create, file_write, path_is_dir
        s.guard = Guard()
        s.guard.start(s.made, s.written, s.removed)
        return s
    def __exit__(s, *a):
        s.guard.stop()
        m = picotron_cart
        m.dir_create, m.file_write, m.path_is_dir = s.old

def resolve(ctx, path):
    """independent: the components that a path (of characters, any of them symbolic) leads to, following '..'"""
    comps, cur = [], []
    if not (len(path) and ctx.fork(ctx.eq(path[0], "/"))): comps = ["c1", "c2", "c3"]
    for c in list(path) + ["/"]:
        if not ctx.fork(ctx.eq(c, "/")): cur.append(c); continue
        if len(cur) == 0 or (len(cur) == 1 and ctx.fork(ctx.eq(cur[0], "."))): pass
        elif len(cur) == 2 and ctx.fork(ctx.all([ctx.eq(cur[0], "."), ctx.eq(cur[1], ".")])):
            if comps: comps.pop()
        else: comps.append(cur)
        cur = []
    return comps

def inside(ctx, path, base):
    want = resolve(ctx, base)
    comps = resolve(ctx, path)
    if len(comps) < len(want): return False
    return all(len(a) == len(b) and ctx.fork(ctx.all([ctx.eq(x, y) for x, y in zip(a, b)])) for a, b in zip(comps, want))

def check_inside(ctx, disk, base):
    for p in disk.made + disk.removed + [p for p, _ in disk.written]: ctx.check(inside(ctx, p, base), "something outside of the destination would be written")

def contained(ctx, lens, chars, base, pre, is_dirs=None):
    """entries with hostile names"""
    entries = []
    for i, n in enumerate(lens):
        name = ctx.str("n%d" % i, n, chars=chars) if chars else ctx.str("n%d" % i, n, 1, 255)
        if i == 0: name = pre + name
        is_dir = name.endswith("/")
        entries.append((name, PicotronDir() if is_dir else PicotronFile(b"%d" % i)))
    cart = Cart64()
    cart.files = Files(ctx, entries)
    with Disk(ctx) as disk:
        try: write_cart64_to_fs(cart, base, is_dir=True, delete_existing=True)
        except CheckError: ctx.cover("refused")
    check_inside(ctx, disk, base)
    ctx.check(all(p == base for p in disk.removed), "something else than the destination would be removed")
    ctx.cover("done")

def kinds(ctx, lens, chars, base):
    """as above, but an entry can be a file or directory whatever its name"""
    entries = []
    for i, n in enumerate(lens):
        name = ctx.str("n%d" % i, n, chars=chars)
        entries.append((name, PicotronDir() if ctx.choice("d%d" % i, [False, True]) else PicotronFile(b"%d" % i)))
    cart = Cart64()
    cart.files = Files(ctx, entries)
    with Disk(ctx) as disk:
        try: write_cart64_to_fs(cart, base, is_dir=True)
        except CheckError: ctx.cover("refused")
    check_inside(ctx, disk, base)
    ctx.cover("done")

def complete(ctx, n, chars):
    """every file of a cart is written, to the place that its name says"""
    a, b = ctx.str("a", n, chars=chars), ctx.str("b", n, chars=chars)
    for s in (a, b):
        for bad in (".", ".."):
            if len(bad) == n: ctx.assume(not ctx.fork(ctx.eq(s, bad)))
    ctx.assume(not ctx.fork(ctx.eq(a, b)))
    files = [("x", b"1"), (a + "/", None), (a + "/" + b, b"2"), (a + "/" + a + "/", None), (b, b"3"), (a + "/" + a + "/x", b"4")]
    order = ctx.choice("order", [1, -1])
    cart = Cart64()
    cart.files = Files(ctx, [(k, PicotronDir() if d is None else PicotronFile(d)) for k, d in files[::order]])
    with Disk(ctx) as disk: write_cart64_to_fs(cart, BASE, is_dir=True)
    check_inside(ctx, disk, BASE)
    for k, d in files:
        got = [v for p, v in disk.written if len(p.rstrip("/")) == len(BASE) + 1 + len(k) and ctx.fork(ctx.eq(p, BASE + "/" + k))]
        if d is None: ctx.check(any(ctx.fork(ctx.eq(p.rstrip("/"), BASE + "/" + k.rstrip("/"))) for p in disk.made), "a directory is not created")
        else: ctx.check(got == [d], "a file is not written, or with other contents")
    ctx.check(len(disk.written) == len([1 for _, d in files if d is not None]), "more is written than the cart holds")
    ctx.cover("done")

def single(ctx, n, chars):
    """--extract: one file or directory of the cart"""
    a = ctx.str("a", n, chars=chars)
    ctx.assume(not ctx.fork(ctx.eq(a, ".")))
    ctx.assume(not ctx.fork(ctx.eq(a, "..")))
    files = [(a + "/", None), (a + "/f", b"1"), (a + "/d/", None), (a + "/d/g", b"2"), ("f", b"3"), ("g", b"4")]
    cart = Cart64()
    cart.files = Files(ctx, [(k, PicotronDir() if d is None else PicotronFile(d)) for k, d in files])
    what = ctx.choice("what", ["f", "", "/", "/d", "/d/", "/d/g", "/f", "/q"])
    to_dir = ctx.choice("to_dir", [False, True])
    fspath = what if what == "f" else a + what
    with Disk(ctx, ["/dst/out"] if to_dir else []) as disk:
        try: write_cart64_to_fs(cart, BASE, fspath=fspath); ok = True
        except CheckError: ok = False
    ctx.check(ok == (what != "/q"), "an entry is not found")
    check_inside(ctx, disk, BASE)
    under = {"f": [], "": [("/f", b"1"), ("/d/g", b"2")], "/": [("/f", b"1"), ("/d/g", b"2")], "/d": [("/g", b"2")], "/d/": [("/g", b"2")], "/d/g": [], "/f": [], "/q": []}[what]
    if what in ("f", "/d/g", "/f"): under = [(("/" + what[-1]) if to_dir else "", {"f": b"3", "/d/g": b"2", "/f": b"1"}[what])]
    ctx.check(sorted((p, v) for p, v in disk.written) == sorted((BASE + k, v) for k, v in under), "other files are extracted")
    ctx.cover("done")

class Dump:
    """records what dumping an export would write"""
    def __enter__(s):
        m = pico_export
        s.made, s.written = [], []
        s.old = m.file_write, m.dir_ensure_exists, m.PodFile
        class Pod:
            def __init__(t, content): t.content = content
            def dump_contents(t, dest, fmt, misc=False): s.written.append((dest + "/0.png", t.content))
        m.file_write, m.dir_ensure_exists, m.PodFile = lambda p, v: s.written.append((p, v)), s.made.append, Pod
        s.guard = Guard()
        s.guard.start(s.made, s.written, s.made)
        return s
    def __exit__(s, *a):
        s.guard.stop()
        m = pico_export
        m.file_write, m.dir_ensure_exists, m.PodFile = s.old

def dump(ctx, n, post):
    """--dump: names of carts and files inside exports"""
    name = ctx.str("n", n, 1, 255) + post
    real = pico_export.PodFile
    with Dump() as d:
        if ctx.choice("what", [0, 1]): real.dump_file(object.__new__(real), BASE, pico_export.CartFormat.rom, True, 0, name, b"data")
        else: pico_export.JsExport.dump_cart(object.__new__(pico_export.JsExport), BASE, pico_export.CartFormat.rom, name, b"data")
    ctx.check([v for _, v in d.written] == [b"data"], "the contents are not written")
    for p in d.made + [p for p, _ in d.written]:
        ctx.check(inside(ctx, p, BASE) and len(resolve(ctx, p)) > 2, "something outside of the destination would be written")
    ctx.cover("done")

def harnesses(tier):
    T = tier == "thorough"
    hs = []
    for lens in ((3,), (4,), (5,), (3, 4), (4, 3)) + (((6,), (7,), (4, 5), (5, 4), (3, 3, 4)) if T else ()):
        hs.append(H(contained, params={"lens": list(lens), "chars": "./a", "base": BASE, "pre": ""}, bounds="entries whose names have %s of the characters './a'" % (lens,), weight=sum(lens)))
    for lens in ((8,), (12,), (5, 5), (2, 3, 4), (4, 3, 2)) + (((16,), (8, 8), (6, 9), (2, 2, 2, 2), (3, 3, 3, 3), (4, 4, 5), (1, 2, 3, 4)) if T else ()):
        hs.append(H(contained, params={"lens": list(lens), "chars": "./a\\", "base": BASE, "pre": ""}, bounds="entries whose names have %s of the characters './a\\'" % (lens,), weight=sum(lens)))
    hs.append(H(contained, params={"lens": [6], "chars": None, "base": BASE, "pre": ""}, bounds="names of 6 characters of any value"))
    for n, post in ((1, ""), (2, ""), (4, ""), (6, ""), (1, ".pod"), (2, ".pod"), (3, ".POD"), (4, "/")): hs.append(H(dump, params={"n": n, "post": post}, bounds="names of %d characters of any value, then %r" % (n, post)))
    for base in ("out", "out/", "..", "../x", "/", "."):
        hs.append(H(contained, params={"lens": [4], "chars": "./a", "base": base, "pre": ""}, bounds="4 of './a', destination %r" % base) if base not in ("/",) else H(contained, params={"lens": [3], "chars": "./a", "base": "/dst", "pre": "/"}, bounds="absolute names"))
    hs.append(H(contained, params={"lens": [3, 3], "chars": "./a", "base": BASE, "pre": "../"}, bounds="names that begin with '../'"))
    hs.append(H(contained, params={"lens": [6, 2], "chars": "./", "base": BASE, "pre": ""}, bounds="6 and 2 of './'"))
    hs.append(H(kinds, params={"lens": [4], "chars": "./a", "base": BASE}, bounds="4 of './a', file or directory"))
    hs.append(H(kinds, params={"lens": [3, 3], "chars": "./", "base": BASE}, bounds="3 and 3 of './', file or directory"))
    for n in (1, 2) + ((3,) if T else ()): hs.append(H(complete, params={"n": n, "chars": ".a-b" if n < 3 else ".ab"}, bounds="names of %d characters" % n))
    for n in (1, 2): hs.append(H(single, params={"n": n, "chars": ".ab"}, bounds="names of %d characters" % n))
    return hs

TECHNIQUE = "symbolic execution of write_cart64_to_fs and path_is_inside on carts whose entries have symbolic names, against stand-ins that record what would be written; z3 decides where every recorded path leads"
OUTSIDE = "symbolic links that already exist in the destination; Windows path rules; longer names; reading directories"
ASSUMPTIONS = ["the path functions of the standard library behave as their published pure-python versions (props/pathsim.py), which every sampled path is replayed against"]
META = dict(
    title="Extracting a Picotron cart writes its files, and only inside the destination",
    statement="Whatever names the entries of a Picotron cart have ('..', absolute, empty components, files named like directories), writing the cart into a directory - or one file or directory of it - creates, writes and removes nothing outside that directory: such carts are refused or the entries left out. Every file of a well-formed cart is written under its own name with its own contents, and nothing else. Dumping a PICO-8 export likewise writes only inside the destination, whatever the names in it.",
    over=["inputs"], text="every name over '.', '/' and a letter up to the stated lengths, alone or with another entry",
    why="Tests extract one well-formed cart; a path traversal needs a particular combination of names and kinds of entries.",
    files=["picotron_cart.py", "utils.py", "pico_export.py"],
    mech=[("extraction", "picotron_cart.py: write_cart64_to_fs"), ("containment", "utils.py: path_is_inside, path_relative"), ("dumping exports", "pico_export.py: dump_cart, PodFile.dump_file; utils.py: filename_fixup")])
