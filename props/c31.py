"""C31: the rename map"""
from sym.ctx import H
from props import prog, lua, c20
import pico_process, cli
from pico_process import PicoContext, Source, process_code
from picotron_defs import PicotronContext
from collections import Counter

class Trace(lua.Alike):
    """also notes what locals and labels became"""
    def __init__(q, a, b):
        q.locals, q.labels = [], []
        super().__init__(a, b)
    def bind(q, scope, na, nb):
        q.locals.append((na, nb))
        return super().bind(scope, na, nb)
    def stmt(q, a, b, scope, outer):
        if a[0] == b[0] == "label": q.labels.append((a[1], b[1]))
        return super().stmt(a, b, scope, outer)

def process(src, lang, rename, opts=c20.OPT):
    c = PicoContext(srcmap=True) if lang == "pico8" else PicotronContext(srcmap=True)
    s = Source("main", src)
    ok, errors = process_code(c, s, minify=prog.options(**opts), rename=rename)
    return ok, s.text, c.srcmap

def entries(ctx, lines):
    out = []
    for l in lines:
        w = l.split(" ")
        ctx.check(len(w) == 4 and w[2] == "<-" and w[0] in ("global", "member", "local", "label"), "not a line of a map: %r" % l)
        out.append((w[0], w[3], w[1]))
    return out

def agree(ctx, src, out, lines, lang, what):
    before, after = c20.read(src, lang), c20.read(out, lang)
    ctx.check(not isinstance(after, str), "no program: %r" % out)
    try: q = Trace(before, after)
    except lua.Differ as e: ctx.check(False, "renaming changed what a name refers to (%s): %s" % (e, what))
    got = entries(ctx, lines)
    want = {"global": {(a, b) for a, b, _ in q.globals}, "member": set(q.members), "local": q.locals, "label": q.labels}
    for kind, pairs in want.items():
        there = Counter((a, b) for k, a, b in got if k == kind)
        for p, n in Counter(pairs).items():
            if p[0] != p[1]:
                ctx.check(there[p] > 0, "the map lacks %s %s <- %s: %s" % (kind, p[1], p[0], what))
                ctx.check(there[p] == n, "the map has %s %s <- %s %d times, not %d: %s" % (kind, p[1], p[0], there[p], n, what))
        for p in there: ctx.check(p in pairs or p in q.strings and kind in ("global", "member"), "the map has %s %s <- %s, which is not so: %s" % (kind, p[1], p[0], what))
    return q

def lists(ctx, text, lang="pico8", small=None, focus=(), rules=(), safe=False):
    src = prog.expand(ctx, prog.trim(G, small), text)
    if isinstance(c20.read(src, lang), str): return ctx.cover("not a program")
    ok, out, lines = process(src, lang, {"safe-only": safe, "focus": list(focus), "rules": list(rules)})
    ctx.check(ok, "a program is refused: %r" % src)
    agree(ctx, src, out, lines, lang, "%r for %r: %s" % (out, src, lines))
    ctx.cover("done")

G = dict(c20.G)
G["N"] = ["e", "abc", "t"]
G["M"] = ["e", "abc"]
G["H"] = ["local --[[$rename::q]]<N>=1 k(<N>,<M>)", "--[[$rename::q]]<N>=1 k(<N>,<M>)", "y.--[[$rename::q]]<N>=1 z.<N>=<M>", "y.--[[$preserve]]<N>=<M>", "k(--[[$member]]'<N>',--[[$global]]'<M>') <M>.<N>=<M>", "goto <M> ::--[[$rename::q]]<M>:: k()"]

def file(ctx, lang):
    """the map is written to the file it is asked for, in the names the code is written with"""
    name = ctx.choice("name", ["abc", "\u2588x", "\u3042b", "_"] if lang == "pico8" else ["abc", "_", "Abc"])
    mode = ctx.choice("mode", [["-m"], ["-M"], ["-m", "-oc" if lang == "pico8" else "-oC"][:2 if lang == "pico8" else 1], ["-m", "--no-minify-spaces", "--no-minify-lines"]])
    shape = ctx.choice("shape", ["local %s=f() k(%s,%s)\n", "%s=1 k(%s)\n", "t.%s=%s\n", "::%s:: goto %s\n", "for i=1,2 do local %s=i k(%s) end\n"])
    src = shape.replace("%s", name) + "--end\nreturn"
    disk = cli.Disk({"in.lua": src})
    with disk: rc = cli.main(["in.lua", "out.lua", "--rename-map", "map.txt"] + mode, lang)
    ctx.check(rc == 0 and sorted(disk.files) == ["in.lua", "map.txt", "out.lua"], "the files written")
    out, lines = disk.files["out.lua"], disk.files["map.txt"]
    ctx.check(isinstance(lines, str), "the map is not text")
    agree(ctx, norm(src, lang), norm(out, lang), [norm(l, lang) for l in lines.split("\n") if l], lang, "%r for %r: %r" % (out, src, lines))
    ctx.cover("done")

def norm(s, lang):
    from pico_defs import to_langstr, Language
    return to_langstr(s, Language.pico8) if lang == "pico8" else s if isinstance(s, str) else bytes(s).decode("utf-8")

def harnesses(tier):
    hs = []
    T = tier == "thorough"
    def q(**kw): return None if T else kw
    def add(text, small, **kw):
        hs.append(H(lists, params=dict(kw, text=text, small=small), bounds="%d programs %r" % (prog.count(prog.trim(G, small), text), text)))
    add("<S>", None if T else dict(N=2), focus=["chars"])
    add("<S> <S>", dict(N=2, M=2, S=18, I=2) if T else dict(N=1, M=2, I=1), rules=["abc"])
    add("<S>", None if T else dict(N=2, I=4), rules=["e", "*.abc"])
    add("<S>", dict(N=2), focus=["compressed"], safe=True)
    add("<S>", dict(N=2, I=4), lang="picotron", focus=["tokens"])
    add("<H> <S>", dict(N=3 if T else 2, M=2, I=2 if T else 1))
    add("<H> <S>", dict(N=2, M=2, I=1, S=None if T else 6), lang="picotron", rules=["*.e"])
    for lang in ("pico8", "picotron"): hs.append(H(file, params={"lang": lang}, bounds="every name, mode and shape in the harness"))
    return hs

TECHNIQUE = "translation validation: programs over a grammar whose names are solver variables are renamed by the real code; an independent parser and resolver pair every name with what it became, and the map has to say just that; z3 covers every assignment of names"
OUTSIDE = "programs beyond the grammar's shapes; names in strings and sub-languages"
META = dict(
    title="The rename map tells exactly what was renamed",
    statement="The file written by --rename-map has one line 'kind new <- old' for each global, member, local and label that was renamed - one per variable, so that homonymous locals have a line each -, with the kind and the names as they are in the source and in the output, under every renaming mode, rule and hint; and it has no line for a renaming that was not made.",
    over=["inputs"], text="every assignment of names to the grammar's programs, names with special characters, both languages",
    why="No test compares the map with the code; a wrong or missing line shows only for some coincidences of shadowed names, kinds and hints, and then misleads whoever debugs the minified cart.",
    files=["pico_rename.py", "run_shrinko.py"],
    mech=[("map", "pico_rename.py: update_srcmap"), ("file", "run_shrinko.py: handle_processing, --rename-map")])
