"""C20: renaming"""
from sym.ctx import H
from props import prog, lua
import pico_process

# what a program cannot rename: the API (PICO-8 manual; Lua manual for picotron) and the names it is called by or consults
API = """abs add all assert atan2 band bnot bor btn btnp bxor camera cartdata  ceil chr circ circfill clip cls cocreate color coresume cos costatus count
cstore cursor del deli dget dset  extcmd fget fillp flip flr foreach fset getmetatable  holdframe  inext  ipairs  line
load ls lshr map max mapdraw memcpy memset menuitem mget mid min  mset music next ord oval ovalfill pack pairs pal palt peek peek2 peek4 pget poke
poke2 poke4 print printh pset rawequal rawget rawlen rawset rect rectfill reload reset  rnd rotl rotr rrect rrectfill run  select serial setmetatable sfx
sget sgn shl shr sin split spr sqrt srand sset sspr stat stop sub t time tline tonum tostr trace type unpack yield _init _update _update60 _draw _ENV""".split() + [chr(c) for c in range(0x80, 0x9a)]
PAPI = """abs add all assert ceil chr cls color cos count create_process cursor del deli error exit fetch fget fillp flr foreach fset get get_clipboard getmetatable include
ipairs key keyp line map max memcpy memset mget mid min mkdir mouse mset music next note notify ord oval ovalfill pack pairs pal palt pcall peek peek2 peek4 pget pod poke poke2 poke4
print printh pset rawequal rawget rawlen rawset rect rectfill rm rnd select setmetatable set_clipboard sfx  sgn sin split spr sqrt srand  sspr stat stop
store string sub t table time tline3d tonum tonumber tostr tostring type unpack unpod userdata vec vid  window yield btn btnp camera circ circfill clip cocreate coresume costatus flip math utf8 coroutine date peek8 poke8 send_message on_event menuitem theme fullpath ls cd cp mv env pwd fstat _init _update _draw _ENV""".split()
META8 = """n __index __newindex __len __eq __lt __le __add __sub __mul __div __idiv __mod __pow __and __or __xor __shl __shr __lshr __rotl __rotr __concat __unm __not
__peek __peek2 __peek4 __call __tostring __pairs __ipairs __metatable __gc __mode""".split()
METAN = """n __index __newindex __len __eq __lt __le __add __sub __mul __div __idiv __mod __pow __band __bor __bxor __shl __shr __bnot __concat __unm __call __tostring __pairs __metatable
__gc __mode __close __name x y width height len sub gsub sort insert remove floor parent draw event concat random""".split()

OPT = dict(tokens=False, reorder=False, consts=False, wspace=False, lines=False, comments=True)
PARSED = {}

def once(key, f):
    if key not in PARSED:
        if len(PARSED) > 200: PARSED.clear()
        PARSED[key] = f()
    return PARSED[key]

def read(src, lang):
    try: return lua.parse(src, lang, key="member")
    except lua.Bad as e: return str(e)

def renamed(ctx, src, lang, rename, consts=False):
    """-> (what the names became, text)"""
    before = read(src, lang)
    if isinstance(before, str):
        ctx.cover("not a program")
        return
    ok, out = prog.process(src, lang, rename=rename, **dict(OPT, consts=consts))
    ctx.check(ok, "a program is refused: %r" % src)
    after = read(out, lang)
    ctx.check(not isinstance(after, str), "renamed into something that is no program (%s): %r for %r" % (after, out, src))
    try: q = lua.Alike(before, after)
    except lua.Differ as e: ctx.check(False, "renaming changed what a name refers to (%s): %r for %r" % (e, out, src))
    return q, out

def check(ctx, src, lang, rename, keep=(), keepm=()):
    """keep / keepm: globals / members that stay"""
    r = renamed(ctx, src, lang, rename)
    if r is None: return
    q, out = r
    p8 = lang == "pico8"
    api, meta = API if p8 else PAPI, META8 if p8 else METAN
    what = "%r for %r" % (out, src)
    for a, b in q.strings: ctx.check(a == b, "a string changed: " + what)
    safe = bool(rename.get("safe-only"))
    env = any(x[2] for x in q.globals) or "_ENV" in src
    if env and not safe: # fields or globals, who knows
        ctx.cover("_ENV")
        return
    one(ctx, {(a, b) for a, b, _ in q.globals}, api, keep if not (safe and env) else None, "global", what)
    one(ctx, set(q.members), meta, keepm if not safe else None, "member", what)
    ctx.cover("renamed" if out != src else "as it was")

def one(ctx, pairs, api, keep, kind, what):
    fwd, back = {}, {}
    for a, b in sorted(pairs):
        ctx.check(fwd.setdefault(a, b) == b, "%s %s has two names: %s" % (kind, a, what))
        ctx.check(back.setdefault(b, a) == a, "%s %s and %s got the same name: %s" % (kind, a, back.get(b), what))
        if keep is None or a in api or a in keep: ctx.check(a == b, "%s %s must keep its name: %s" % (kind, a, what))
        else: ctx.check(b not in api, "%s %s got the name of a builtin: %s" % (kind, a, what))

G = {
    "N": ["e", "o", "t"],
    "M": ["e", "o"],
    "S": ["local <N>,<M>=<N>,<M>", "local function <M>(<M>) <I> end", "function <N>(<M>,...) <I> end", "<N>.<M>=<N>.e", "for <M>=<N>,<M> do <I> end", "for <M>,<N> in <N> do <I> end",
          "repeat local <M>=<N> until <M>", "function <N>.<M>:<M>(<M>) self.e=<M> end", "e={<M>=<N>,<M>={<N>,o=<M>}}", "goto <M> ::<M>:: o()", "local <M>=function(<M>) return <N> end", "<M>,<N>=<N>,<M>",
          "e={function(<N>) <I> end,<M>}", "local e do <I> end <N>()", "while <N> do local <M>=<M> break end", "<N>:<M>(<M>)", "<N>+=<M>", "local e=1 do local e=<M> o=<N>+e end <I>"],
    "I": ["return <N>,<M>", "local <M>=<M> return <N>", "<N>(<M>)", "goto e do local o=<N> end ::e::", "local function <M>() return <M>(<N>) end"],
}

def names(ctx, text, lang="pico8", small=None, focus=(), rules=(), safe=False):
    src = prog.expand(ctx, prog.trim(G, small), text)
    keep = [r for r in rules if "." not in r]
    keepm = [r[2:] for r in rules if r.startswith("*.")]
    check(ctx, src, lang, {"safe-only": safe, "focus": list(focus), "rules": list(rules)}, keep, keepm)

def builtins(ctx, text, lang="pico8", safe=False):
    """the names a program cannot do without"""
    p8 = lang == "pico8"
    src = text
    if "<G>" in src: src = src.replace("<G>", ctx.choice("g", [n for n in (API if p8 else PAPI) if n != "_ENV"]))
    if "<M>" in src: src = src.replace("<M>", ctx.choice("m", META8 if p8 else METAN))
    check(ctx, src, lang, {"safe-only": safe, "focus": [], "rules": []})

HINTS = {
    "M": ["e", "o", "n", "x", "ee"],
    "H": ["$", ""],
    "D": [",", "|", " ", "=1;", "-9-"],
}

def hinted(ctx, text, kind, rules=(), lang="pico8", consts=False):
    """strings and names whose kind a hint tells"""
    src = prog.expand(ctx, HINTS, text)
    if lang == "pico8" and "$" in src: return
    r = renamed(ctx, src, lang, {"safe-only": False, "focus": [], "rules": list(rules)}, consts)
    if r is None: return
    q, out = r
    what = "%r for %r" % (out, src)
    gs, ms = {a: b for a, b, _ in q.globals}, dict(q.members)
    if kind == "shared": # globals and members are the same names
        one(ctx, {(a, b) for a, b, _ in q.globals} | set(q.members), (), (), "name", what)
        ms = gs = dict(gs, **ms)
    else:
        one(ctx, {(a, b) for a, b, _ in q.globals}, API, (), "global", what)
        if kind != "keys": one(ctx, set(q.members), META8, (), "member", what)
    for a, b in q.strings:
        if kind == "plain" or kind == "keys": ctx.check(a == b, "a string without a hint changed: " + what)
        else:
            names, new = prog.words(a), prog.words(b)
            ctx.check([w for i, w in enumerate(names) if i % 2 == 0] == [w for i, w in enumerate(new) if i % 2 == 0], "a hinted string lost its separators: " + what)
            for x, y in zip(names[1::2], new[1::2]):
                ctx.check(y == (ms if kind != "global" else gs).get(x, y), "a hinted string is renamed otherwise than its name: " + what)
    if kind == "keys":
        ctx.check(all([a == b for a, b in q.members[:3]]), "preserved keys were renamed: " + what)
        one(ctx, set(q.members[3:]), META8, (), "member", what)
    ctx.cover("renamed" if out != src else "as it was")

def harnesses(tier):
    hs = []
    T = tier == "thorough"
    def q(**kw): return None if T else kw
    def add(text, small, **kw):
        hs.append(H(names, params=dict(kw, text=text, small=small), bounds="%d programs %r" % (prog.count(prog.trim(G, small), text), text)))
    add("<S>", None if T else dict(N=2), focus=["chars"])
    add("<S> <S>", dict(N=2, M=2, S=18, I=2) if T else dict(N=1, M=2, I=1), rules=["o"])
    add("<S>", None if T else dict(N=2, I=4), rules=["e", "*.o"])
    add("<S>", dict(N=2), focus=["compressed"], safe=True)
    add("<S>", dict(N=2, I=4), lang="picotron", rules=["*.e"])
    add("local _ENV={} <S>", dict(N=2, M=2, I=2), safe=True)
    for lang in ("pico8", "picotron"):
        for text in ("x=<G>", "function <G>() <G>() end e=o", "local t={<M>=1,c=x.<M>}", "x:<M>() function x:<M>() end"):
            hs.append(H(builtins, params={"text": text, "lang": lang}, bounds="every API function or special member"))
    for lang in ("pico8", "picotron"):
        h = "" if lang == "pico8" else "$"
        for text, kind, rules in (('local k=--[[%smember]]"<M>" x.<M>=y.<M> z=y[k]', "member", ()), ('f(--[[%smember]]"<M><D><M>") x.<M>=y', "member", ()), ('f(--[[%sglobal]]"<M><D><M>") <M>=<M>', "global", ()),
                                  ('local --[[%spreserve-keys]]q={<M>=1} q.<M>,q.<M>=2,3 r.<M>=x.<M>', "keys", ()), ('<M>.<M>=<M> x={<M>=e}', "shared", ("*=*.*",)), ('<M>.<M>=<M> f"<M>"', "plain", ()), ('f(--[[%smember]]"<M>",--[[%sglobal]]"<M>") <M>.<M>=1', "shared", ("*=*.*",))):
            hs.append(H(hinted, params={"text": text.replace("%s", h), "kind": kind, "rules": list(rules), "lang": lang}, bounds="every choice of names"))
        for text in ('local --[[%sconst]] k=--[[%smember]]"<M>" x.<M>=y.<M> z=y[k]', 'f(#--[[%smember]]"<M>") x.<M>=y', 'f("b"..--[[%smember]]"<M>"==y) x.<M>=y'):
            hs.append(H(hinted, params={"text": text.replace("%s", h), "kind": "member", "lang": lang, "consts": True}, bounds="every choice of names; constants are folded"))
    return hs

TECHNIQUE = "translation validation: programs over a grammar whose names are solver variables are renamed by the real code and read by an independent parser that resolves every name; z3 covers every assignment of names"
OUTSIDE = "programs that use _ENV or strings as keys without hints (README's assumptions), outside of --rename-safe-only; programs beyond the grammar's shapes"
ASSUMPTIONS = ["the API and metamethods are those of the PICO-8 manual (z8lua's list) and Picotron's (Lua 5.4)"]
META = dict(
    title="Renaming preserves what every name refers to",
    statement="After renaming, every use of a local or label refers to the same definition as before; globals and members are renamed consistently and never collide (with each other, with a local in scope, with a name that had to stay, or with a builtin); API functions, callbacks, metamethods, implicit names (self, _ENV) and names preserved by rules or hints keep their names. With --rename-safe-only members stay as they are, and so do globals if _ENV is used.",
    over=["inputs"], text="every assignment of names to the grammar's programs (shadowing, recursion, captured, loop, parameter, label and member names)",
    why="The tests rename two carts; captures arise from particular coincidences of names, scopes and the short names that happen to be chosen.",
    files=["pico_rename.py", "pico_parse.py"],
    mech=[("renamer", "pico_rename.py: rename_tokens"), ("scopes", "pico_parse.py: Scope, parse"), ("builtins", "pico_process.py: builtin_globals, builtin_members")])
