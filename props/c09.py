"""C09: editing the carts of a js or pod export"""
from sym.ctx import H
import pico_process
import pico_export as pe
from pico_export import JsExport, PodExport, PodFile, ListOp
from pico_cart import Cart, read_cart_from_rom, write_cart_to_rom
from pico_defs import *
from utils import CheckError

class Fake:
    """stands for a cart whose rom is known"""
    def __init__(s, name, rom): s.name, s.rom = name, rom

class Small:
    """within: the containers handle carts of a few bytes"""
    def __init__(s, n): s.n = n
    def __enter__(s):
        s.old = pe.k_cart_size, pe.write_cart_to_rom, pe.read_cart_from_rom
        pe.k_cart_size = s.n
        pe.write_cart_to_rom = lambda cart, **o: cart.rom
        pe.read_cart_from_rom = lambda rom, path=None, **o: Fake(path, bytes(rom))
    def __exit__(s, *a):
        pe.k_cart_size, pe.write_cart_to_rom, pe.read_cart_from_rom = s.old

JS_HEAD = "var foo=[1,2];\n"
JS_MID = ";\nvar _cdpos=0; var iii=0; var ciii=0;\n"
JS_TAIL = ";\nvar _cartdata2=[9]; function f() { return _cartdat[0] + [3,4][1]; }\n"

def js_text(names, roms, style):
    q = "`" if style != 1 else '"'
    sep = ", " if style != 1 else ","
    data = [b for r in roms for b in r]
    return JS_HEAD + "var _cartname=[" + sep.join(q + n + q for n in names) + "]" + JS_MID + \
        ("var _cartdat=[" if style == 0 else "var  _cartdat = [\n") + ",".join("%d" % b for b in data) + "]" + JS_TAIL

def parse_js(ctx, text):
    """an independent reading of the export: (names, bytes), and that the rest of the text is unchanged"""
    i = text.index("var _cartname=[")
    ctx.check(ctx.eq(text[:i], JS_HEAD), "text before the carts changed")
    i += len("var _cartname=[")
    j = text.index("]", i)
    names = [n.strip() for n in text[i:j].split(",")] if text[i:j].strip() else []
    for n in names: ctx.check(ctx.any([n[:1] == "`" and n[-1:] == "`", n[:1] == '"' and n[-1:] == '"']), "a name is not quoted")
    names = [n[1:-1] for n in names]
    k = text.index("[", j)
    l = text.index("]", k)
    ctx.check(ctx.any([ctx.eq(text[j + 1:k], JS_MID + "var _cartdat="), ctx.eq(text[j + 1:k], JS_MID + "var  _cartdat = ")]), "text between the carts' names and data changed")
    ctx.check(ctx.eq(text[l + 1:], JS_TAIL), "text after the carts changed")
    data = []
    if text[k + 1:l].strip():
        for t in text[k + 1:l].split(","): data.append(int(t.strip()))
    return names, data

def pod_bytes(entries):
    """an independent writer of pods"""
    def u32(v): return v.to_bytes(4, "little")
    def z(s, n): return s.encode() + bytes(n - len(s))
    out = b"CPOD" + u32(0x44) + u32(1) + z("", 32) + u32(len(entries)) + bytes(28)
    for name, data in entries:
        out = out + b"CFIL" + u32(0) + u32(len(data)) + z(name, 64) + data
    return out

def parse_pod(ctx, data):
    def u32(p): return data[p] + data[p + 1] * 256 + data[p + 2] * 65536 + data[p + 3] * 2**24
    ctx.check(ctx.eq(data[0:4], b"CPOD"), "pod header")
    ctx.check(u32(4) == 0x44 and u32(8) == 1, "pod version")
    n = ctx.concretize(u32(0x2c))
    p = 0x4c
    out = []
    for _ in range(n):
        ctx.check(ctx.eq(data[p:p + 4], b"CFIL"), "entry header")
        ctx.check(u32(p + 4) == 0, "entry reserved")
        size = ctx.concretize(u32(p + 8))
        raw = data[p + 12:p + 12 + 64]
        k = 0
        while k < 64 and ctx.fork(raw[k] != 0): k += 1
        name = raw[:k].decode()
        ctx.check(p + 76 + size <= len(data), "entry exceeds the file")
        out.append((name, data[p + 76:p + 76 + size]))
        p += 76 + size
    ctx.check(p == len(data), "there is something after the last entry")
    return out

NAMES = ["a", "b.p8", "c-1"]

def roms_for(ctx, tag, k):
    b = ctx.bytes(tag, 1)
    return ctx.bytesof([b[0], k, 255 - k])

def apply_op(ctx, ex, model, j, fixed):
    """one symbolic edit, in the export and in the model (list of (name, rom))"""
    op = ctx.choice("op%d" % j, ["ins", "insb", "rep", "repd", "del", "deld", "ren"])
    new = NAMES[2 if j == 0 else 1] + ("x" if j else "")
    which = ctx.choice("which%d" % j, ["first", "last", "absent"])
    name = "zz" if which == "absent" or not model else model[0][0] if which == "first" else model[-1][0]
    idx = [k for k, (n, _) in enumerate(model) if n == name]
    if op in ("ins", "repd", "deld"): ctx.assume(which == "first")
    rom = roms_for(ctx, "rom%d" % j, j * 10 + 3)
    cart = Fake(new, rom)
    fails = False
    try:
        if op == "ins": ex.write_cart(cart, cart_op=ListOp.insert)
        elif op == "insb": ex.write_cart(cart, new + "q", ListOp.insert, target_name=name)
        elif op == "rep": ex.write_cart(cart, name, ListOp.replace)
        elif op == "repd": ex.write_cart(cart, cart_op=ListOp.replace)
        elif op == "del": ex.write_cart(None, name, ListOp.delete)
        elif op == "deld": ex.write_cart(None, cart_op=ListOp.delete)
        else: ex.write_cart(None, name, ListOp.rename, target_name=new + "r")
    except CheckError: fails = True
    out = list(model)
    if op in ("insb", "rep", "del", "ren") and not idx: should = True
    elif op in ("repd", "deld") and not model: should = True
    elif op in ("ins", "insb", "ren") and any(n == new + {"ins": "", "insb": "q", "ren": "r"}[op] for n, _ in model): should = True
    else: should = False
    ctx.check(fails == should, "an impossible edit is accepted" if should else "a possible edit is refused")
    if fails: return out
    if op == "ins": out.append((new, rom))
    elif op == "insb": out.insert(idx[0], (new + "q", rom))
    elif op == "rep": out[idx[0]] = (name, rom)
    elif op == "repd": out[0] = (out[0][0], rom)
    elif op == "del": del out[idx[0]]
    elif op == "deld": del out[0]
    else: out[idx[0]] = (new + "r", out[idx[0]][1])
    return out

def compare(ctx, ex, model):
    ctx.check([n for n in ex.list_carts()] == [n for n, _ in model], "the carts are not those expected, or in another order")
    for n, rom in model:
        ctx.check(ctx.eq(ex.read_cart(n).rom, rom), "a cart's data is not as expected")

def js(ctx, count, style, ops):
    model = [(NAMES[k], roms_for(ctx, "m%d" % k, k)) for k in range(count)]
    with Small(3):
        ex = JsExport(js_text([n for n, _ in model], [r for _, r in model], style))
        compare(ctx, ex, model)
        for j in range(ops):
            model = apply_op(ctx, ex, model, j, False)
            names, data = parse_js(ctx, ex.text)
            ctx.check(names == [n for n, _ in model], "the names in the file are not those expected")
            ctx.check(ctx.eq(ctx.bytesof(data), ctx.bytesof([b for _, r in model for b in r])), "the carts' data in the file is not as expected")
        compare(ctx, JsExport(ex.text), model)
        compare(ctx, ex, model)
    ctx.cover("done")

def pod(ctx, count, ops):
    boot = ("", b"pico-8 boot")
    tail = ("", b"CPODother")
    pos = ctx.choice("extra", [0, 1])
    model = [(NAMES[k], roms_for(ctx, "m%d" % k, k)) for k in range(count)]
    fixed = [boot, tail] if pos == 0 else [boot]
    with Small(3):
        ex = PodExport(pod_bytes(fixed + model))
        compare(ctx, ex, model)
        for j in range(ops):
            model = apply_op(ctx, ex, model, j, True)
            got = parse_pod(ctx, ex.data)
            ctx.check([n for n, _ in got] == [n for n, _ in fixed + model], "the names in the file are not those expected")
            for (_, a), (_, b) in zip(got, fixed + model): ctx.check(ctx.eq(bytes(a), b), "the data in the file is not as expected")
            compare(ctx, ex, model)
        compare(ctx, PodExport(bytes(ex.data)), model)
    ctx.cover("done")

def sizes(ctx):
    """pod carts of different sizes: one of another size is refused or handled, never written over its neighbours"""
    a = ctx.choice("a", [2, 3, 5])
    with Small(3):
        ex = PodExport(pod_bytes([("", b"boot"), ("x", b"123"), ("y", b"456")]))
        new = ctx.bytes("new", a)
        try: ex.write_cart(Fake("x", new), "x", ListOp.replace)
        except CheckError:
            ctx.check(a != 3, "refused")
            want = b"123"
        else: want = new
        got = parse_pod(ctx, ex.data)
        ctx.check(len(got) == 3 and ctx.eq(bytes(got[1][1]), want) and got[2][1] == b"456" and got[1][0] == "x", "replacing a cart by one of another size damages the file")
    ctx.cover("done")

def real(ctx, kind):
    """with whole carts: what is inserted is read back"""
    c = Cart(name="q", code="x=1")
    v = ctx.bytes("v", 1)
    at = ctx.choice("at", [0, 0x2fff, 0x42ff])
    c.rom[at] = v[0]
    ex = JsExport(js_text([], [], 0)) if kind == "js" else PodExport(pod_bytes([("", b"boot")]))
    ex.write_cart(c)
    ex = JsExport(ex.text) if kind == "js" else PodExport(bytes(ex.data))
    back = ex.read_cart("q")
    ctx.check(back.code == "x=1" and back.name in ("q", None) or back.code == "x=1", "the code changed")
    ctx.check(ctx.eq(bytes(back.rom), bytes(c.rom)), "the cart's data changed")
    ctx.cover("done")

def harnesses(tier):
    T = tier == "thorough"
    hs = []
    for c in (0, 1, 2):
        for style in (0, 1, 2) if T else ((0, 1) if c else (0,)):
            hs.append(H(js, params={"count": c, "style": style, "ops": 2 if T or (c < 2 and style == 0) else 1}, bounds="every edit (by kind and place), a byte of any value per cart"))
        hs.append(H(pod, params={"count": c, "ops": 3}, bounds="every edit (by kind and place), a byte of any value per cart"))
    hs.append(H(sizes, bounds="every content of 2, 3 or 5 bytes"))
    for k in ("js", "pod") if T else ("pod",): hs.append(H(real, params={"kind": k}, bounds="a byte of any value at 3 addresses"))
    return hs

TECHNIQUE = "symbolic execution of the export editors (carts reduced to a few symbolic bytes, edits symbolic) against a list model and independent readers of the containers; z3 decides equality"
OUTSIDE = "names with quotes, commas or brackets (not supported by the js format's reader); longer edit histories; the pod is edited with its carts stored uncompressed, as pico8 does"
ASSUMPTIONS = []
META = dict(
    title="Editing a cart in a JS or POD export leaves everything else as it was",
    statement="After any sequence of inserting (at the end or before another cart), replacing, deleting and renaming carts of a multi-cart JS or POD export, the export holds exactly the expected carts - names, order and contents - and everything that is not a cart (the surrounding JavaScript text, unnamed pod entries) is unchanged. Edits that are impossible (cart not found, name taken, wrong size) are refused and change nothing. The file can be reread and edited further.",
    over=["inputs", "histories"], text="every sequence of edits and every cart contents",
    why="The tests do a handful of edits in a row; positions of entries, text spans and cart slices must stay consistent after every combination of edits.",
    files=["pico_export.py"], mech=[("export editing", "pico_export.py: CartExport.write_cart, JsExport, PodExport, PodFile")])
