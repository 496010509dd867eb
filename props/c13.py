"""C13: picotron pods and file metadata"""
from sym.ctx import H
import pico_process
from utils import CheckError
from picotron_fs import *

def strv(ctx, name, n, chars, pre="", post=""):
    return pre + (ctx.str(name, n, chars=chars) if chars else ctx.str(name, n, 0, 127)) + post

def same(ctx, a, b):
    """equality of pod values, of the same types"""
    if isinstance(a, UserData):
        return isinstance(b, UserData) and a.type == b.type and a.width == b.width and a.height == b.height and ctx.eq(a.data, b.data)
    if isinstance(a, dict):
        if not isinstance(b, dict) or len(a) != len(b): return False
        r = []
        for (k1, v1), (k2, v2) in zip(a.items(), b.items()):   # (the order of keys is kept too)
            r += [same(ctx, k1, k2), same(ctx, v1, v2)]
        return ctx.all(r)
    if isinstance(a, bool) or isinstance(b, bool): return isinstance(a, bool) and isinstance(b, bool) and a == b
    if isinstance(a, str): return isinstance(b, str) and len(a) == len(b) and ctx.eq(a, b)
    if isinstance(a, float) or isinstance(b, float): return isinstance(a, float) and isinstance(b, float) and a == b
    return ctx.eq(a, b)

def all_ways(ctx, v, want=None):
    want = v if want is None else want
    ctx.check(same(ctx, want, parse_pod(format_pod(v))), "a value changed when written as text and read back")
    for opts in (dict(compress=False), dict(compress=False, use_pxu=False), dict(compress=False, use_base64=True)):
        ctx.check(same(ctx, want, read_pod(write_pod(v, **opts))), "a value changed when written and read back (%s)" % opts)

def shaped(ctx, shape, s):
    """values around a symbolic string"""
    if shape == "str": return s
    if shape == "val": return {"a": s, "b": {}}
    if shape == "list": return {1: s, 2: s + "x", 3: {1: s}}
    if shape == "key": return {s: 1, "zz9": s}
    if shape == "keys": return {2: 1, 1: 2, s: {s: True}, 3: False}
    return {"k": {"k": {"end": s}}, -1: s, 2.5: s}

def text(ctx, shape, n, chars, pre, post):
    all_ways(ctx, shaped(ctx, shape, strv(ctx, "s", n, chars, pre, post)))
    ctx.cover("done")

def ints(ctx, lo, hi, shape):
    v = ctx.int("v", lo, hi)
    all_ways(ctx, v if shape == "int" else {"a": v, 1: v})
    ctx.cover("done")

def keys(ctx, n):
    """tables with every mixture of a few keys, in any order"""
    KEYS = [1, 2, 3, 0, -1, "a", "end", "1", "", True, False, 1.5]
    ks = [ctx.choice("k%d" % i, KEYS) for i in range(n)]
    for i in range(n):
        for j in range(i):
            # python's dict cannot hold both 1 and true (known limit)
            ctx.assume(ks[i] != ks[j])
    v = {k: i + 10 for i, k in enumerate(ks)}
    all_ways(ctx, v)
    if n == 2: all_ways(ctx, {"t": v, 1: v})
    ctx.cover("done")

def parsed(ctx, which):
    """what the text of a pod says is what is read: lists with gaps, nested tables, separators, spaces, comments"""
    x = ctx.int("x", 0, 9)
    d = str(x)
    T = [("{1,nil,%s}", {1: 1, 3: None}), ("{[5]=%s,6;7}", {5: None, 1: 6, 2: 7}), ("{ a = %s , ['b'] = {%s} ; }", {"a": None, "b": {1: None}}),
         ("{a=-%s}", None), ("{nil,nil,%s}", {3: None}), ("-- c\n{%s,--[[x]]true}", {1: None, 2: True}), ("{a=nil,b=%s}", {"b": None}), ("{{{%s}}}", {1: {1: {1: None}}}),
         ("{[true]=%s,[false]=2}", {True: None, False: 2})]
    t, w = T[which]
    s = t.replace("%s", d)
    def fill(w): return {k: x if v is None else fill(v) if isinstance(v, dict) else v for k, v in w.items()}
    want = {"a": -x} if w is None else fill(w)
    ctx.check(same(ctx, want, parse_pod(s)), "a pod's text is read as another value")
    ctx.cover("done")

def userdata(ctx, typ, n, h, pos):
    """userdata amid other values, compressed or not"""
    nyb = 2 if typ == "u8" else 4
    lim = ctx.choice("fill", [0, 1, 200])
    a = ctx.int("a", 0, 255)
    vals = [a] + [lim] * (n - 1)
    ud = UserData(typ, n // h if h else n, h, "".join("%0*x" % (nyb, x) for x in vals))
    ud2 = UserData(typ, 2, 0, "%0*x" % (nyb, lim) * 2)
    v = {"one": ud, "two": {1: ud, 2: ud2, 3: ud}, "three": {"s": "userdata()\0x", "ud": ud2}, "four": ud2} if pos == "many" else ud if pos == "alone" else {1: {ud: 1}, 2: ud2} if pos == "key" else {1: ud}
    for opts in (dict(compress=False), dict(compress=False, use_pxu=False), dict(compress=False, runtime=20)):
        ctx.check(same(ctx, v, read_pod(write_pod(v, **opts))), "userdata changed when written and read back (%s)" % opts)
    ctx.cover("done")

def compressed(ctx, n):
    """lz4 and base64 around a pod"""
    a = ctx.int("a", 0, 9)
    v = {"key": "abcabcabc" * n, "k2": a, "k3": "abcabcabc" * n}
    for opts in (dict(), dict(use_base64=True), dict(use_pxu=False)):
        b = write_pod(v, **opts)
        ctx.check(same(ctx, v, read_pod(b)), "a value changed when written and read back (%s)" % opts)
        if not opts: ctx.check(n < 10 or b[:4] == b"lz4\0", "not compressed")
    ctx.cover("done")

def meta(ctx, n, chars, pre, post, raw):
    """metadata: a table written to a file comes back, and leaves the payload alone"""
    s = strv(ctx, "s", n, chars, pre, post)
    m = {"s": s, "revision": 3, s: 1} if raw is None else {"pod_format": "raw", "s": s, s: 2}
    want = m if raw is None else m
    text = format_meta_pod(m)
    ctx.check(text.find("]]") < 0, "the metadata ends early")
    ctx.check(same(ctx, dict(sorted_like(m)), parse_meta_pod(text)), "metadata changed when written and read back")
    payload = bytes([ctx.int("p", 0, 255)]) + b"--[[pod]]x" if raw is not None else {"v": s}
    f = PicotronFile.create(payload, m) if raw is not None else PicotronFile.create(payload, m)
    g = PicotronFile(f.data)
    ctx.check(g.is_raw == (raw is not None), "the kind of file changed")
    ctx.check(same(ctx, dict(sorted_like(m)), g.metadata), "a file's metadata changed when written and read back")
    if raw is not None: ctx.check(len(g.payload) == len(payload) and ctx.eq(g.payload, payload), "a file's data changed")
    else: ctx.check(same(ctx, payload, g.payload), "a file's data changed")
    # replacing one of them leaves the other alone
    g.metadata = {"pod_format": "raw", "n": s} if raw is not None else {"n": s}
    h = PicotronFile(g.data)
    ctx.check(same(ctx, {"pod_format": "raw", "n": s} if raw is not None else {"n": s}, h.metadata), "new metadata is not what was written")
    if raw is not None: ctx.check(ctx.eq(h.payload, payload), "writing metadata changes the data")
    else: ctx.check(same(ctx, payload, h.payload), "writing metadata changes the data")
    h.payload = b"new" if raw is not None else {"w": s}
    k = PicotronFile(h.data)
    ctx.check(same(ctx, {"pod_format": "raw", "n": s} if raw is not None else {"n": s}, k.metadata), "writing data changes the metadata")
    ctx.check(k.payload == b"new" if raw is not None else same(ctx, {"w": s}, k.payload), "new data is not what was written")
    ctx.cover("done")

def sorted_like(m):
    """(pod_format comes first)"""
    return sorted(m.items(), key=lambda kv: not (isinstance(kv[0], str) and kv[0] == "pod_format"))

def bare(ctx, n):
    """files without metadata are raw, whatever they hold"""
    b = ctx.bytes("b", n) + b"]]--[[pod]]"
    f = PicotronFile(b)
    ctx.assume(ctx.eq(b[0], 45) == False)
    ctx.check(f.is_raw and f.metadata is None and ctx.eq(f.payload, b), "a raw file is not read as it is")
    f.metadata = {"pod_format": "raw", "x": 1}
    g = PicotronFile(f.data)
    ctx.check(g.is_raw and ctx.eq(g.payload, b) and g.metadata["x"] == 1, "adding metadata changes a raw file's data")
    g.metadata = None
    ctx.check(ctx.eq(g.data, b), "removing metadata changes a raw file's data")
    ctx.cover("done")

def harnesses(tier):
    T = tier == "thorough"
    hs = []
    S = "\\\"'\n]=[0a\x01\0_ \r{"
    for shape in ("str", "val", "list", "key", "keys", "deep"):
        hs.append(H(text, params={"shape": shape, "n": 1, "chars": None, "pre": "", "post": ""}, bounds="every 1-character ascii string"))
        if shape in ("str", "val", "key") or T:
            hs.append(H(text, params={"shape": shape, "n": 2, "chars": S, "pre": "", "post": ""}, bounds="every string of 2 of %r" % S))
    hs.append(H(text, params={"shape": "key", "n": 1, "chars": None, "pre": "en", "post": ""}, bounds="every key en?"))
    hs.append(H(text, params={"shape": "key", "n": 1, "chars": None, "pre": "a", "post": "1"}, bounds="every key a?1"))
    hs.append(H(text, params={"shape": "val", "n": 1, "chars": "\xe9\u4f60\udc80\udcff\U0001f600", "pre": "x", "post": "1"}, bounds="unicode characters and stray bytes"))
    for lo, hi in ((-99, 99), (-2**63, -2**63 + 15), (2**63 - 16, 2**63 - 1), (-10**18 - 8, -10**18 + 8), (-2**31 - 8, -2**31 + 8)):
        for shape in ("int", "tab"):
            hs.append(H(ints, params={"lo": lo, "hi": hi, "shape": shape}, bounds="every integer %d..%d" % (lo, hi)))
    for n in (1, 2) + ((3,) if T else ()): hs.append(H(keys, params={"n": n}, bounds="every sequence of %d of 12 keys" % n))
    for w in range(9): hs.append(H(parsed, params={"which": w}, bounds="every digit"))
    for typ in ("u8", "i16", "f64"):
        for n, h, pos in ((4, 0, "alone"), (40, 0, "many"), (40, 4, "in"), (64, 0, "key")):
            hs.append(H(userdata, params={"typ": typ, "n": n, "h": h, "pos": pos}, bounds="a value of any value, 3 fillings"))
    for n in (1, 12): hs.append(H(compressed, params={"n": n}, bounds="every digit amid repetitive text"))
    for raw in (None, True):
        for n, chars, pre, post in ((1, None, "", ""), (1, None, "]", "]"), (2, "]\\\"\n[a", "", "]")) + (((2, None, "", ""), (3, "]\\\"[", "", "]")) if T else ()):
            hs.append(H(meta, params={"n": n, "chars": chars, "pre": pre, "post": post, "raw": raw}, bounds="every string %r + %d characters + %r" % (pre, n, post)))
    for n in (1, 2): hs.append(H(bare, params={"n": n}, bounds="every file of %d bytes (not starting with -) and some text" % n))
    return hs

TECHNIQUE = "symbolic execution of the pod writer and reader (through tokenizer, parser, pxu, lz4, base64) on values holding symbolic strings and numbers; z3 decides equality of what is read with what was written"
OUTSIDE = "tables with both true and 1 (or false and 0) as keys, which the python dictionary cannot hold; floats other than a few; userdata whose data does not match its size; not-a-number"
ASSUMPTIONS = []
META = dict(
    title="Picotron pods and file metadata are lossless",
    statement="Every pod value - nested tables in key order, strings of any bytes, integers of the whole 64-bit range, booleans, userdata anywhere - that is written as text, with pxu, lz4 or base64 in any combination, is read back as the same value of the same types. The metadata of a file holds whatever table was stored (it cannot end its comment early), and writing metadata or data never changes the other.",
    over=["inputs"], text="every string up to the stated length in every position, every integer in ranges around the limits, every mixture of keys",
    why="The tests convert a few real files; quoting, identifiers as keys, list parts, ']]' in metadata and placeholders for userdata go wrong only for particular contents.",
    files=["picotron_fs.py", "pico_output.py", "pico_tokenize.py", "pico_parse.py"],
    mech=[("pod text", "picotron_fs.py: format_pod, parse_pod, read_pod, write_pod"), ("metadata", "picotron_fs.py: format_meta_pod, parse_meta_pod, escape_meta, PicotronFile")])
