"""Programs generated from small grammars (each choice is a solver variable), minified by the real code and
compared with the original in a symbolic world (props/lua.py)"""
import re
from props import lua
import pico_process
from pico_process import PicoContext, Source, process_code
from picotron_defs import PicotronContext

def expand(ctx, g, start, prefix="p"):
    """the text of `start` with every <X> replaced by a choice among g["X"]"""
    n = 0
    text = start
    while True:
        m = re.search(r"<([A-Z][A-Za-z0-9]*)>", text)
        if not m: return text
        opts = g[m.group(1)]
        text = text[:m.start()] + ctx.choice("%s%d" % (prefix, n), opts) + text[m.end():]
        n += 1

def words(s):
    """[between, name, between, name, ...] (a name does not start with a digit)"""
    return re.split(r"(?<![A-Za-z0-9_])([A-Za-z_][A-Za-z0-9_]*)", s)

def trim(g, sizes):
    """a grammar with the first so many choices only"""
    return dict(g, **{k: g[k][:n] for k, n in sizes.items()}) if sizes else g

def count(g, start):
    """how many programs there are"""
    n = 1
    for x in re.findall(r"<([A-Z][A-Za-z0-9]*)>", start): n *= sum(count(g, o) for o in g[x])
    return n

MIN = dict(safe=False, builtins=False, wspace=True, lines=True, comments=True, tokens=True, reorder=True, consts=True, focus=["compressed"])

def options(**kw):
    o = dict(MIN, **kw)
    if o.pop("safe"): o["safe-reorder"] = o["safe-builtins"] = True
    if o.pop("builtins"): o["safe-builtins"] = True
    return o

CACHE = {}

def cached(key, f):
    """the paths of one program run one after another and differ in the world only"""
    if key not in CACHE:
        if len(CACHE) > 50: CACHE.clear()
        try: CACHE[key] = (True, f())
        except lua.Bad as e: CACHE[key] = (False, str(e))
    return CACHE[key]

def process(src, lang="pico8", version=42, rename=None, defs=None, **kw):
    """-> (ok, output or errors)"""
    c = PicoContext(version=version, consts=defs) if lang == "pico8" else PicotronContext(version=version, consts=defs)
    s = Source("main", src)
    ok, errors = process_code(c, s, minify=options(**kw), rename=rename or False)
    return ok, s.text if ok else [e.msg for e in errors]

def validate(ctx, src, lang="pico8", canon=None, tree=False, world=None, **kw):
    """what the real code makes of src does what src does"""
    good, before = cached(("parse", src, lang), lambda: lua.parse(src, lang))
    if not good:
        ctx.cover("not a program: " + src)
        return
    good, (ok, out) = cached(("run", src, lang, repr(kw)), lambda: process(src, lang, **kw))
    ctx.check(ok, "a program is refused: %r" % src)
    good, after = cached(("parse", out, lang), lambda: lua.parse(out, lang))
    if not good: ctx.check(False, "what comes out is not a program (%s): %r for %r" % (after, out, src))
    if lua.norm(before, lang) == lua.norm(after, lang):
        ctx.cover("same tree")
        return
    if tree: ctx.check(False, "what comes out is another program: %r for %r" % (out, src))
    w = lua.World(ctx, lang, **(world or {}))
    try:
        a = lua.Run(ctx, w, before, lang, canon=canon).main()
        b = lua.Run(ctx, w, after, lang, canon=canon).main()
    except lua.Unsupported:
        ctx.cover("unsupported")
        return
    if "stopped" in (a[0][0], b[0][0]):
        ctx.cover("stopped: %s / %s" % (a[0], b[0]))
        return
    a, b = lua.outcome(a), lua.outcome(b)
    ctx.check(lua.sizes(a) == lua.sizes(b), "what comes out behaves otherwise: %r for %r" % (out, src))
    ctx.check(same(ctx, a, b), "what comes out behaves otherwise: %r for %r" % (out, src))
    ctx.cover("compared")

def same(ctx, a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and ctx.all([same(ctx, x, y) for x, y in zip(a, b)])
    if isinstance(a, str) != isinstance(b, str): return False
    return ctx.eq(a, b)
