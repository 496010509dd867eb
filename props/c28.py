"""C28: merging, filtering and selecting parts of carts"""
from sym.ctx import H
import pico_process
from pico_cart import Cart, merge_cart, write_cart_to_source, read_cart_from_source
from pico_defs import *
from pico_cart import k_label_size
from utils import MultidimArray
from picotron_defs import Cart64Glob
from picotron_cart import Cart64, filter_cart64, merge_cart64, preproc_meta
from picotron_fs import PicotronFile, PicotronDir

PARTS = {"gfx": (0, 0x2000), "map": (0x2000, 0x3000), "gff": (0x3000, 0x3100), "music": (0x3100, 0x3200), "sfx": (0x3200, 0x4300)}
NAMES = ["lua", "gfx", "map", "gff", "music", "sfx", "label", "meta:title", "meta:x"]

def mkcart(ctx, tag, fill, code):
    cart = Cart(code=code)
    data = [fill] * 0x4300
    for k, (a, b) in PARTS.items():
        for at in (a, a + (b - a) // 2 + 1, b - 1): data[at] = ctx.int("%s%x" % (tag, at), 0, 255)
    cart.rom.replace(ctx.bytesof(data))
    cart.label = MultidimArray(k_label_size, fill % 16)
    cart.label[5, 7] = ctx.int(tag + "label", 0, 31)
    cart.meta["title"].append(tag + "t")
    cart.meta["x"].append(tag + "x")
    return cart

def state(ctx, cart):
    return dict([(k, bytes(cart.rom)[a:b]) for k, (a, b) in PARTS.items()] + [("lua", cart.code), ("label", list(cart.label.array)), ("meta:title", list(cart.meta["title"])), ("meta:x", list(cart.meta["x"]))])

def same(ctx, a, b):
    if isinstance(a, list): return len(a) == len(b) and ctx.all([ctx.eq(x, y) for x, y in zip(a, b)])
    return ctx.eq(a, b)

def merge(ctx, n):
    """--merge: the named parts become those of the other cart; everything else stays"""
    dest, src = mkcart(ctx, "d", 1, "dest=1"), mkcart(ctx, "s", 2, "src=" + ctx.str("c", 1, 1, 255))
    before, other = state(ctx, dest), state(ctx, src)
    wanted = [ctx.choice("s%d" % i, NAMES) for i in range(n)]
    merge_cart(dest, src, wanted)
    after = state(ctx, dest)
    for k in NAMES: ctx.check(same(ctx, after[k], (other if k in wanted else before)[k]), "merging %s: %s is that of the other cart" % (wanted, k) if k not in wanted else "merging: a part is not taken over")
    now = state(ctx, src)
    for k in NAMES: ctx.check(same(ctx, now[k], other[k]), "merging changes the other cart")
    ctx.cover("done")

def merge_unknown(ctx):
    s = ctx.str("s", 3, chars="gfxmap")
    dest = Cart()
    try: merge_cart(dest, Cart(), [s]); ok = True
    except pico_process.CheckError: ok = False
    ctx.check(ok == any(len(k) == 3 and ctx.fork(ctx.eq(s, k)) for k in NAMES), "an unknown section is accepted, or a known one refused")
    ctx.cover("done")

def select(ctx, n):
    """--output-sections: exactly the named parts are written"""
    cart = mkcart(ctx, "d", 1, "a=1")
    wanted = [ctx.choice("s%d" % i, NAMES) for i in range(n)]
    had, blank = state(ctx, cart), None
    back = read_cart_from_source(write_cart_to_source(cart, sections=wanted))
    blank = Cart(label=MultidimArray(k_label_size, 0))
    if back.label is None: back.label = MultidimArray(k_label_size, 0)
    got, want = state(ctx, back), state(ctx, blank)
    for k in NAMES: ctx.check(same(ctx, got[k], (had if k in wanted else want)[k]), "a section named is not written" if k in wanted else "a section that was not named is written")
    ctx.cover("done")

# --- picotron

def wild(ctx, pat, s):
    """independent: does the name match the pattern (* any characters, ? one, [..] one of, [!..] none of)"""
    states = {0}
    n = len(pat)
    toks, i = [], 0
    while i < n:
        c = pat[i]
        j = pat.find("]", i + 3 if pat[i + 1:i + 2] == "!" else i + 2) if c == "[" else -1
        if j > 0: toks.append(("set", pat[i + 1:j])); i = j + 1
        else: toks.append((c if c in "*?" else "chr", c)); i += 1
    def ok(t, c):
        if t[0] == "?": return True
        if t[0] == "chr": return ctx.eq(c, t[1])
        body, neg = (t[1][1:], True) if t[1][0] == "!" else (t[1], False)
        alts, k = [], 0
        while k < len(body):
            if body[k + 1:k + 2] == "-" and k + 2 < len(body):
                alts.append(ctx.all([ord(c) >= ord(body[k]), ord(c) <= ord(body[k + 2])])); k += 3
            else: alts.append(ctx.eq(c, body[k])); k += 1
        r = ctx.any(alts)
        return not ctx.fork(r) if neg else r
    # conditions that the first i characters match the first j parts
    m = [[False] * (len(toks) + 1) for _ in range(len(s) + 1)]
    m[0][0] = True
    for i in range(len(s) + 1):
        for j in range(1, len(toks) + 1):
            t = toks[j - 1]
            if t[0] == "*": m[i][j] = ctx.any([m[i][j - 1], m[i - 1][j] if i else False])
            elif i: m[i][j] = ctx.all([m[i - 1][j - 1], ok(t, s[i - 1])])
    return m[len(s)][len(toks)]

def selected(ctx, pats, s):
    inc = ctx.any([wild(ctx, p, s) for p in pats if not p.startswith("!")])
    exc = ctx.any([wild(ctx, p[1:], s) for p in pats if p.startswith("!")])
    return ctx.all([inc, ctx.implies(exc, False)])

PATS = [["*"], ["*.lua"], ["a/*"], ["*", "!a/*"], ["!a/*", "*"], ["*.lua", "!a.lua", "b"], ["a?b*"], ["[ab]*"], ["[!a]*"], ["*/*"], ["a", "b", "a/"], ["a*a", "!*b*"], [""], ["[a"], ["!*"], ["*", "!*"], ["a.b"], ["[a-b]/*a"], ["**a"], ["*?", "!?"]]

def globs(ctx, pats, n, chars):
    """which names a list of patterns selects"""
    s = ctx.str("s", n, chars=chars)
    got = Cart64Glob(pats).matches(s)
    ctx.check(ctx.fork(selected(ctx, pats, s)) == bool(got), "a list of patterns selects another name, or leaves one out")
    ctx.cover("done")

TREE = ["a/", "a/b.lua", "a/c/", "a/c/d.lua", "a/c/e.pod", "main.lua", "x.pod", "g/", "g/0.gfx", ".info.pod"]

def mk64(ctx, tag, names):
    cart = Cart64()
    for i, k in enumerate(names): cart.files[k] = PicotronDir() if k.endswith("/") else PicotronFile(tag + b"%d" % i + ctx.bytes("d" + tag.decode(), 1))
    return cart

def parents(name):
    return [name[:i + 1] for i, c in enumerate(name.rstrip("/")) if c == "/"]

def filter64(ctx):
    """--filter: exactly the selected files stay, along with the directories they are in"""
    pats = ctx.choice("pats", PATS + [["a/c/*"], ["*.lua", "!a/*"], ["*.pod"], ["*,!g/*"], ["a/*.lua"]])
    cart = mk64(ctx, b"f", TREE)
    old = dict(cart.files)
    filter_cart64(cart, pats)
    keep = [k for k in TREE if ctx.fork(selected(ctx, pats, k))]
    for k in TREE:
        if not k.endswith("/"): ctx.check((k in cart.files) == (k in keep), "a file that was selected is left out" if k in keep else "a file that was not selected stays")
        if k in cart.files: ctx.check(cart.files[k] is old[k] and all(p in cart.files for p in parents(k)), "a file stays without its directory")
    for k in keep: ctx.check(k in cart.files, "a directory that was selected is left out")
    ctx.check(all(k in old for k in cart.files), "filtering makes up entries")
    ctx.cover("done")

def merge64(ctx, n):
    """--merge and --insert: the selected files are added or replaced, with their directories"""
    pats = ctx.choice("pats", [None, ["*"], ["*.lua"], ["a/c/*"], ["*", "!a/*"], ["q/r/s.lua"], ["main.lua"]])
    dest = mk64(ctx, b"d", ["main.lua", "x.pod", "z"] + (["a/", "a/b.lua"] if ctx.choice("has", [False, True]) else []))
    src = mk64(ctx, b"s", TREE + ["q/r/s.lua"])
    if ctx.choice("order", [False, True]): src.files = dict(reversed(list(src.files.items())))
    before, other = dict(dest.files), dict(src.files)
    merge_cart64(dest, src, pats)
    ctx.check(src.files == other, "merging changes the other cart")
    sel = [k for k in other if pats is None or ctx.fork(selected(ctx, pats, k))]
    for k in sel: ctx.check(k in dest.files and (dest.files[k] is other[k] or (k.endswith("/") and dest.files[k].is_dir)), "a selected file is not taken over")
    for k in before: ctx.check(k in dest.files and (k in sel or dest.files[k] is before[k] or (k.endswith("/") and dest.files[k].is_dir)), "a file that was not selected changes")
    need = set(p for k in sel for p in parents(k))
    for k in need: ctx.check(k in dest.files and dest.files[k].is_dir, "a file is added without its directory")
    ctx.check(all(k in before or k in sel or k in need for k in dest.files), "something that was not selected is taken over")
    ctx.cover("done")

METAS = [b"", b"--[[pod]]", b"--[[pod,icon=1,x=\"y\"]]", b"--[[pod_format=\"raw\",icon=2]]", b"--[[pod_format=\"raw\",author=\"me\",title=\"t\"]]", b"--[[pod_type=\"z\",title=\"t\"]]", b"--[[pod,bookmark={1,2}]]"]
VALUES = [{}, {}, {"icon": 1, "x": "y"}, {"pod_format": "raw", "icon": 2}, {"pod_format": "raw", "author": "me", "title": "t"}, {"pod_type": "z", "title": "t"}, {"bookmark": {1: 1, 2: 2}}]

def meta(ctx, n):
    """--delete-meta, --keep-meta-keys: metadata goes but for the keys kept; contents stay"""
    i = ctx.choice("meta", list(range(len(METAS))))
    names = ["m.lua", "a/.info.pod", "a/d.gfx", ".info.pod"]
    pats = ctx.choice("pats", [["*"], ["a/*"], ["*.lua"], ["*", "!.info.pod"]])
    keys = ctx.choice("keys", [[], ["icon"], ["title", "author"], ["*"], ["*", "!icon"], ["pod*"]])
    raw = METAS[i].startswith(b"--[[pod_format") or not METAS[i]
    body = (b"" if raw else b"{1}") + ctx.bytes("b", n, 97, 122)
    cart = Cart64()
    cart.files["a/"] = PicotronDir()
    for k in names: cart.files[k] = PicotronFile(METAS[i] + body)
    preproc_meta(cart, pats, keys)
    had = i > 0
    keep = {k: v for k, v in VALUES[i].items() if ctx.fork(selected(ctx, keys, k))}
    for k in names:
        hit = ctx.fork(selected(ctx, pats, k))
        if hit and k.endswith(".info.pod") and not keep:
            ctx.check(k not in cart.files, "a file that holds nothing but deleted metadata stays")
            continue
        ctx.check(k in cart.files, "a file vanishes")
        f = cart.files[k]
        ctx.check(ctx.eq(f.raw_payload, body), "the contents of a file change with its metadata")
        got = f.metadata
        if not hit: ctx.check(ctx.eq(f.data, METAS[i] + body), "a file that was not selected changes")
        elif not had: ctx.check(got is None, "metadata appears")
        else:
            ctx.check(f.is_raw == raw, "a raw file becomes a pod or the reverse")
            for q in VALUES[i]:
                if q in keep: ctx.check(got is not None and got.get(q) == keep[q], "metadata that is to be kept vanishes")
                elif q not in ("pod_format", "pod_type"): ctx.check(got is None or q not in got, "metadata that is to be deleted stays")
    ctx.cover("done")

def harnesses(tier):
    T = tier == "thorough"
    hs = [H(merge, params={"n": n}, bounds="every sequence of %d of 9 sections; the first, a middle and the last byte of every section of both carts of any value" % n) for n in (0, 1, 2) + ((3,) if T else ())]
    hs.append(H(merge_unknown, bounds="section names of 3 of the characters 'gfxmap'"))
    hs += [H(select, params={"n": n}, bounds="every sequence of %d of 9 sections" % n) for n in (0, 1) + ((2,) if T else ())]
    for pats in PATS:
        for n in (0, 1, 3, 5) + ((8,) if T else ()): hs.append(H(globs, params={"pats": pats, "n": n, "chars": "ab/.lu"}, bounds="names of %d of the characters 'ab/.lu'" % n))
    hs.append(H(filter64, bounds="25 lists of patterns, 10 entries"))
    hs.append(H(merge64, params={"n": 1}, bounds="7 selections, 11 entries, in either order"))
    hs.append(H(meta, params={"n": 1}, bounds="7 forms of metadata, 4 selections of files and 6 of keys"))
    return hs

TECHNIQUE = "symbolic execution of the merging, filtering and pattern-matching code on carts with symbolic contents and names, compared to independent definitions of what each selection means; z3 decides equality"
OUTSIDE = "patterns other than the 25 listed (names are symbolic); the command line; names with line breaks"
ASSUMPTIONS = ["wildcards have their fnmatch meaning, '*' and '?' also matching '/', and a name that any '!' pattern matches is left out"]
META = dict(
    title="Merging, filtering and selecting touch exactly the named parts",
    statement="Merging sections of a cart into another replaces exactly those sections with the other cart's, byte for byte, and --output-sections writes exactly the named ones. For Picotron carts a list of patterns selects exactly the names that match an including and no excluding ('!') pattern, whatever their order; filtering keeps exactly the selected files, merging adds or replaces exactly them, both with the directories they are in; deleting metadata removes exactly the keys not kept and never changes contents.",
    over=["inputs"], text="every subset and order of sections up to the stated length, every name up to the stated length for each list of patterns",
    why="Tests merge one or two combinations; a wrong section limit, an order-dependent pattern or a file left without its directory shows only for other combinations.",
    files=["pico_cart.py", "picotron_cart.py", "picotron_defs.py", "pico_defs.py"],
    mech=[("sections", "pico_cart.py: merge_cart, write_cart_to_source; pico_defs.py: Memory"), ("patterns", "picotron_defs.py: Cart64Glob"), ("picotron", "picotron_cart.py: filter_cart64, merge_cart64, preproc_meta")])
