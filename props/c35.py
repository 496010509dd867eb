"""C35: custom scripts and sub-languages"""
from collections import Counter
from sym.ctx import H
import pico_process
import c17, cli, luaspec
from props import prog, lua, c20
import run_shrinko, pico_cart, pico_utils
from pico_cart import Cart
from pico_defs import Language, Memory
from pico_process import PicoContext, Source, SubLanguageBase, process_code, is_identifier, Local, Scope
from pico_parse import Node
from pico_tokenize import Token, tokenize
from pico_parse import parse
from picotron_defs import PicotronContext

# --- data in strings

def contents(ctx, n, kind, pre=""):
    """what bytes_to_string_contents gives reads as the bytes, between double quotes"""
    if kind == "text": data = ctx.str("s", n, 0, 255)
    else: data = ctx.bytes("b", n)
    want = [ord(c) for c in data] if kind == "text" else [data[i] for i in range(n)]
    got = pico_utils.bytes_to_string_contents(data)
    lit = '"' + got + '"'
    r = c17.spec_string(ctx, lit, Language.pico8)
    ctx.check(r is not None and r[1] == len(lit), "the contents of a string do not end where the string does")
    ctx.check(len(r[0]) == n and ctx.all([a == b for a, b in zip(r[0], want)]), "the string has other contents")
    ctx.cover("done")

# --- sub-languages: README's

MADE = []

class Evally(SubLanguageBase):
    def __init__(s, str, args, on_error, ctxt=None, **_):
        s.args, s.text, s.given = args, str, {}
        MADE.append(s)
        s.stmts = [stmt.split() for stmt in str.splitlines()]
        for i, stmt in enumerate(s.stmts):
            if "!!" in stmt: on_error("bad %d" % i)
    def is_global(s, t): return is_identifier(t)
    def is_member(s, t): return t.startswith(".") and s.is_global(t[1:])
    def is_assignment(s, stmt): return len(stmt) > 1 and stmt[1] == "<-"
    def get_unminified_chars(s, **_):
        for stmt in s.stmts:
            for t in stmt:
                if not s.is_global(t) and not s.is_member(t): yield from t
    def get_global_usages(s, **_): return Counter(t for stmt in s.stmts for t in stmt if s.is_global(t))
    def get_member_usages(s, **_): return Counter(t[1:] for stmt in s.stmts for t in stmt if s.is_member(t))
    def rename(s, globals, members, **_):
        for stmt in s.stmts:
            for i, t in enumerate(stmt):
                if s.is_global(t) and t in globals: stmt[i] = globals[t]
                elif s.is_member(t) and t[1:] in members: stmt[i] = "." + members[t[1:]]
    def minify(s, **_): return "\n".join(" ".join(stmt) for stmt in s.stmts)
    def get_defined_globals(s, **_):
        for stmt in s.stmts:
            if s.is_assignment(stmt): yield stmt[0]
    def get_used_globals(s, **_):
        for stmt in s.stmts:
            for t in (stmt[2:] if s.is_assignment(stmt) else stmt):
                if s.is_global(t): yield t
    def lint(s, builtins, globals, on_error, **_):
        for stmt in s.stmts:
            for t in stmt:
                if s.is_global(t) and t not in builtins and t not in globals: on_error("Identifier '%s' not found" % t)

class Passive(SubLanguageBase):
    """all members are optional"""

class Localy(SubLanguageBase):
    """one with locals of its own: '$name' is a local of the whole string"""
    def __init__(s, str, **_):
        s.toks = str.split()
        s.scope = Scope()
        s.locals = {t: Local(t[1:], s.scope) for t in s.toks if t[:1] == "$"}
        s.scope.used_globals = {t for t in s.toks if t[:1] not in "$."}
        s.scope.used_locals = set(s.locals.values())
    def get_global_usages(s, **_): return Counter(t for t in s.toks if t[:1] not in "$.")
    def get_member_usages(s, **_): return Counter(t[1:] for t in s.toks if t[:1] == ".")
    def get_local_usages(s, **_): return Counter(s.locals[t] for t in s.toks if t[:1] == "$")
    def rename(s, globals, members, locals, **_):
        s.toks = ["$" + locals.get(s.locals[t], t[1:]) if t[:1] == "$" else "." + members.get(t[1:], t[1:]) if t[:1] == "." else globals.get(t, t) for t in s.toks]
    def minify(s, **_): return " ".join(s.toks)

class NoMinify(Evally):
    minify = None

def getter(name, **_): return {"evally": Evally, "passive": Passive, "localy": Localy, "nominify": NoMinify}.get(name)

def process(src, lang, rename=True, lint=False, mini=None, rules=(), minify=True):
    del MADE[:]
    c = PicoContext(sublang_getter=getter) if lang == "pico8" else PicotronContext(sublang_getter=getter)
    s = Source("main", src)
    ok, errors = process_code(c, s, lint=lint, minify=prog.options(**(mini or c20.OPT)) if minify else False, rename={"safe-only": False, "focus": [], "rules": list(rules)} if rename else False)
    return ok, s.text, errors

MAINS = ["glob=1 t.memb=2 ev(@)", "ev(@) function glob(loc) return loc.memb end", "local loc=@ ev(loc,glob,t.memb,t.e)", "e={o=@} ev(e.o,t)", "function f(e,o) ev(@,e,glob,t.memb) end", "glob=@ glob2=glob", "ev(@,{memb=1,n=2})"]
TOKS = ["glob", ".memb", "circfill", "e", ".e", "12", "own", ".n", "<-", "!x"]

def names(ctx, n, lang="pico8", few=None, rule=False):
    """names in strings of a sub-language are renamed together with those of the code"""
    main = ctx.choice("main", MAINS)
    toks = [ctx.choice("t%d" % i, TOKS[:few]) for i in range(n)]
    sep = ctx.choice("sep", [" ", "\n", "  "])
    text = sep.join(toks)
    rules = ctx.choice("rule", [("own",), ("e", "*.memb"), ("gl*", "*.e")]) if rule else ()
    quote = ctx.choice("quote", ['"', "[["])
    esc = text.replace("\n", "\\n") if quote == '"' else text
    lit = '--[[$language::evally]]"%s"' % esc if quote == '"' else "--[[$language::evally]][[%s]]" % esc
    src = main.replace("@", lit)
    before = lua.parse(src, lang, key="member")
    ok, out, errors = process(src, lang, rules=rules)
    ctx.check(ok and not errors, "a program is refused: %r" % src)
    what = ": %r for %r" % (out, src)
    try: after = lua.parse(out, lang, key="member"); q = lua.Alike(before, after)
    except lua.Bad as e: ctx.check(False, "what comes out is no program (%s)" % e + what)
    except lua.Differ as e: ctx.check(False, "renaming changed what a name refers to (%s)" % e + what)
    ctx.check(len(q.strings) == 1 and q.strings[0][0] == text, "the string is lost" + what)
    got = q.strings[0][1]
    rows = [r.split() for r in got.split("\n")]
    ctx.check(got == "\n".join(" ".join(r) for r in rows) and [len(r) for r in rows] == [len(r.split()) for r in text.split("\n")], "the string is not what the sub-language's minify gives" + what)
    news = [t for r in rows for t in r]
    g, m = {(a, b) for a, b, _ in q.globals}, set(q.members)
    for a, b in zip(toks, news):
        if a[0] == "." and a[1:].isalpha():
            ctx.check(b[0] == ".", "a member is lost" + what)
            m.add((a[1:], b[1:]))
        elif a.isalpha(): g.add((a, b))
        else: ctx.check(a == b, "what is no name is changed" + what)
    one(ctx, g, {"circfill"} | set(r for r in rules if "." not in r) | ({"glob", "glob2"} if "gl*" in rules else set()), "global", what)
    one(ctx, m, {"n"} | {r[2:] for r in rules if "." in r}, "member", what)
    ctx.check([(x.text, x.args) for x in MADE] == [(text, "")], "the sub-language is made otherwise")
    ctx.cover("renamed")

def one(ctx, pairs, keep, kind, what):
    d = {}
    for a, b in sorted(pairs):
        ctx.check(d.setdefault(a, b) == b, "a %s gets two names" % kind + what)
        if a in keep: ctx.check(a == b, "a %s is renamed that must not be" % kind + what)
        elif len(a) > 2: ctx.check(len(b) < len(a), "a %s is not renamed" % kind + what)
    ctx.check(len(set(d.values())) == len(d), "two %ss get the same name" % kind + what)

def locals_(ctx, n, lang="pico8"):
    """a sub-language's locals are renamed without hiding the globals it uses"""
    T = ["$loc", "$e", "glob", "e", ".memb", "$a", "circfill", "t"]
    toks = [ctx.choice("t%d" % i, T) for i in range(n)]
    main = ctx.choice("main", ["ev(@)", "local loc=glob ev(@,loc,e)", "function f(loc,e) ev(@,loc.memb,e,t) end"])
    src = main.replace("@", '--[[$language::localy]]"%s"' % " ".join(toks))
    ok, out, errors = process(src, lang)
    ctx.check(ok and not errors, "a program is refused: %r" % src)
    what = ": %r for %r" % (out, src)
    try: q = lua.Alike(lua.parse(src, lang, key="member"), lua.parse(out, lang, key="member"))
    except (lua.Bad, lua.Differ) as e: ctx.check(False, "what comes out is another program (%s)" % e + what)
    news = q.strings[0][1].split(" ")
    ctx.check(len(news) == len(toks), "tokens are lost" + what)
    g, m, l = {(a, b) for a, b, _ in q.globals}, set(q.members), set()
    for a, b in zip(toks, news):
        ctx.check((a[0] in "$." and a[0]) == (b[0] in "$." and b[0]), "tokens are mixed up" + what)
        if a[0] == ".": m.add((a[1:], b[1:]))
        elif a[0] == "$": l.add((a[1:], b[1:]))
        else: g.add((a, b))
    one(ctx, g, {"circfill"}, "global", what)
    one(ctx, m, set(), "member", what)
    one(ctx, l, set(), "local", what)
    seen = {b for a, b in zip(toks, news) if a[0] not in "$."}
    ctx.check(not seen & {b for a, b in l}, "a local hides a global that is used" + what)
    ctx.cover("done")

def hints(ctx, lang="pico8"):
    """which string is given to which sub-language, with which arguments; an unknown one is left alone"""
    H_ = ["$language::evally", "$language::evally  a b ", "$language::zz", "$language::zz c", "$language::what", "$language::passive", "$language::nominify", "$lang::evally", "$language::evally,x"]
    h = ctx.choice("hint", H_)
    text = ctx.choice("text", ["glob", "glob  .memb", ""])
    at = ctx.choice("at", ["ev(@,glob,t.memb)", "ev @ glob=t.memb", "ev(@) ev('glob .memb') glob=t.memb", "ev(--[[$language::evally]]glob,@) t.memb=1"])
    rename, mini = ctx.choice("rename", [True, False]), ctx.choice("mini", [True, False])
    if not mini: rename = False
    lit = "--[[%s]]\"%s\"" % (h, text)
    alias = "--$def-alias: zz = evally a\n" if "zz" in h else ""
    src = alias + at.replace("@", lit)
    ok, out, errors = process(src, lang, rename=rename, minify=mini)
    ctx.check(ok and not errors, "a program is refused: %r" % src)
    what = ": %r for %r" % (out, src)
    known = h.split("::")[1].split()[0] in ("evally", "zz", "nominify") and "guage" in h and "," not in h
    args = {H_[1]: "a b", H_[2]: "a", H_[3]: "a c"}.get(h, "")
    if not mini:
        ctx.check(out == src, "the program changes" + what)
        return ctx.cover("nothing")
    ctx.check([(x.text, x.args) for x in MADE] == ([(text, args)] if known else []), "other sub-languages are made (%s)" % [(x.text, x.args) for x in MADE] + what)
    try: q = lua.Alike(lua.parse(src, lang, key="member"), lua.parse(out, lang, key="member"))
    except (lua.Bad, lua.Differ) as e: ctx.check(False, "what comes out is another program (%s)" % e + what)
    names = {a: b for a, b, _ in q.globals}
    names.update({"." + a: "." + b for a, b in q.members})
    got = [b for a, b in q.strings]
    first = text if not known or "nominify" in h else " ".join(names.get(t, t) for t in text.split())
    ctx.check(got == [first] + (["glob .memb"] if "ev('" in at else []), "the strings are %r" % got + what)
    if not rename: ctx.check(all([a == b for a, b in names.items()]), "names change" + what)
    ctx.cover("known" if known else "unknown")

def lint(ctx, n, lang="pico8"):
    """names that strings define and use count for the code, and the other way around; the sub-language's own errors are placed at the string"""
    main = ctx.choice("main", ["ev(@)", "glob=1 ev(@)", "ev(@) print(glob)", "ev(@) glob=2", "function ev() end ev(@) glob(own)", "own=@ ev(own)"])
    toks = [ctx.choice("t%d" % i, ["glob", "own", "circfill", "<-", ".memb", "!!", "3"]) for i in range(n)]
    if ctx.fork(ctx.bool("line")) : main = "\n  " + main
    text = " ".join(toks)
    src = "function ev(_) end " + main.replace("@", '--[[$language::evally]]"%s"' % text) if "function ev" not in main else main.replace("@", '--[[$language::evally]]"%s"' % text)
    pre = "\n" if main[0] == "\n" else ""
    if pre: src = "\n" + src.replace("\n", "")
    ok, _, errors = process(src, lang, lint={"undefined": True, "unused": True, "duplicate": False, "globals": []}, minify=False)
    got = sorted((e.idx, e.msg) for e in errors)
    at = src.index('"')
    assigned = len(toks) > 1 and toks[1] == "<-"
    if "!!" in toks:
        ctx.check(not ok and [m for i, m in got] == ["evally: bad 0"], "the sub-language's error is not reported: %r for %r" % (got, src))
        loc = errors[0].source.get_location(errors[0].idx)
        return ctx.cover("error")
    sdef = {toks[0]} if assigned and toks[0].isalpha() else set()
    suse = {t for t in (toks[2:] if assigned else toks) if t.isalpha()}
    mdef, muse = {"ev"}, {"ev"}
    m = main.strip()
    if "glob=" in m: mdef.add("glob")
    if "own=" in m: mdef.add("own"); muse.add("own")
    if "print(glob)" in m: muse |= {"glob", "print"}
    if "glob(own)" in m: muse |= {"glob", "own"}
    api = {"print", "circfill"}
    custom = mdef | sdef - api | sdef
    want = set()
    for t in toks:
        if t.isalpha() and t not in api and t not in custom: want.add((at, "evally: Identifier '%s' not found" % t))
    und = {x for x in muse if x not in custom and x not in api}
    unused = {x for x in mdef - {"ev"} if x not in muse | suse}
    texts = {m for i, m in got}
    for i, msg in got:
        if msg.startswith("evally:"): ctx.check((i, msg) in want, "a sub-language's error that should not be (or elsewhere): %r for %r" % ((i, msg), src))
        else: ctx.check(any(["'%s'" % x in msg for x in und | unused]), "a warning that should not be: %r for %r" % (msg, src))
    for i, msg in want: ctx.check(sum((j, t) == (i, msg) for j, t in got) == toks.count(msg.split("'")[1]), "a sub-language's error is missing: %r for %r" % (msg, src))
    for x in und: ctx.check(any([t.startswith("Identifier '%s' not found" % x) for t in texts]), "%s is used but not defined: %r for %r" % (x, got, src))
    for x in unused: ctx.check(any([t.startswith("Global '%s' is" % x) for t in texts]), "%s is not used: %r for %r" % (x, got, src))
    ctx.cover("clean" if not got else "warnings")

# --- scripts

class Script:
    """a script: notes every call, with what it sees"""
    def __init__(s, name, log, **parts):
        s.name, s.log = name, log
        for k, v in parts.items(): setattr(s, k, v)

GIVEN = ["a", "--b", "c", "-o", "--lint", "-x", "--out=3"]

SRC = "glob=1 print(glob,\"$$DATA$$\",tt.memb)"

class World:
    """runs the command line with scripts that are objects in memory"""
    def __init__(w, scripts): w.scripts, w.loaded = scripts, []
    def load(w, path, name=None):
        w.loaded.append(path)
        return w.scripts[path]
    def run(w, args, files, lang="pico8"):
        disk = cli.Disk(files)
        old = run_shrinko.exec_script_by_path
        run_shrinko.exec_script_by_path = w.load
        try:
            with disk: rc = cli.main(args, lang)
        finally: run_shrinko.exec_script_by_path = old
        return rc, disk

def hooks(ctx, fmt):
    """the hooks are called in order, see the cart, and what they change is what is written"""
    log = []
    nscripts = ctx.choice("scripts", [1, 2])
    has = {(k, i): ctx.fork(ctx.bool("%s%d" % (k, i))) for i in range(nscripts) for k in ("pre", "syn", "post")}
    op = ctx.choice("op", ["", "-m", "-U", "-l", "-c"]) if nscripts == 1 else ctx.choice("op", ["", "-m"])
    val = ctx.int("v", 0, 255)
    where = ctx.choice("where", [0, 0x1fff, 0x2000, 0x42ff])
    scripts = {}
    def make(i):
        d = {}
        def pre(cart, src, args, ctxt, **_):
            log.append(("pre", i)); ctx.check(args.script_args == GIVEN, "the script's arguments are %r" % (args.script_args,))
            ctx.check(src.text == cart.code and ctxt.lang == Language.pico8 and "circfill" in ctxt.builtins, "the context is another")
            cart.code = cart.code.replace("$$DATA$$", "x%d$$DATA$$" % i)
            cart.rom[where] = (cart.rom[where] + val) & 255
            ctxt.set_field("f%d" % i, [i]); ctxt.get_field("all", list).append(i)
        def syn(cart, src, root, on_error, args, ctxt, **_):
            log.append(("syn", i))
            ctx.check(isinstance(root, Node) and [t.value for t in root.get_tokens() if t.value == "glob"] == ["glob", "glob"], "the tree is not the code's")
        def post(cart, args, ctxt, **_):
            log.append(("post", i))
            if has["pre", i]: ctx.check(ctxt.get_field("f%d" % i) == [i] and i in ctxt.get_field("all"), "a field is lost")
            cart.code = cart.code + "\n--end%d" % i
        for k, n, f in (("pre", "preprocess_main", pre), ("syn", "preprocess_syntax_main", syn), ("post", "postprocess_main", post)):
            if has[k, i]: d[n] = f
        return Script("s%d" % i, log, **d)
    for i in range(nscripts): scripts["s%d.py" % i] = make(i)
    cart = Cart(code=SRC)
    cart.rom[where] = b = ctx.int("b", 0, 255)
    data = pico_cart.write_cart_to_rom(cart) if fmt == "rom" else pico_cart.write_cart_to_source(cart)
    w = World(scripts)
    rc, disk = w.run(["in." + fmt, "out.rom"] + [x for i in range(nscripts) for x in ("-s", "s%d.py" % i)] + ([op] if op else []) + ["--script-args"] + GIVEN, {"in." + fmt: data})
    ctx.check(rc == 0 if op != "-l" else rc == 2, "the exit code is %s" % rc)
    ctx.check(w.loaded == ["s%d.py" % i for i in range(nscripts)], "other scripts are run")
    want = [("pre", i) for i in range(nscripts) if has["pre", i]] + [("syn", i) for i in range(nscripts) if has["syn", i]] + ([("post", i) for i in reversed(range(nscripts)) if has["post", i]] if op != "-l" else [])
    ctx.check(log == want, "the hooks are called as %s, not %s" % (log, want))
    if op == "-l":
        ctx.check("out.rom" not in disk.files, "a failing run writes")
        return ctx.cover("lint")
    out = pico_cart.read_cart_from_rom(disk.files["out.rom"])
    total = b
    for i in range(nscripts):
        if has["pre", i]: total = (total + val) & 255
    ctx.check(out.rom[where] == total, "a change of the rom is lost")
    tags = "".join("x%d" % i for i in range(nscripts) if has["pre", i])
    ends = "".join("\n--end%d" % i for i in reversed(range(nscripts)) if has["post", i])
    body = SRC.replace("$$DATA$$", tags + "$$DATA$$")
    code = out.code
    if op in ("", "-c"): ctx.check(code == body + ends, "the code written is %r" % code)
    else:
        ctx.check(code.endswith(ends) and tags + "$$DATA$$" in code, "the code written is %r" % code)
        ctx.check(("glob" not in code) == (op == "-m"), "the code is not processed after the hook")
    ctx.cover("done")

def priority(ctx, what):
    """a later script is asked first; what it does not know is left to the earlier ones and shrinko8's own"""
    know = [{n for n in ("xx", "split") if ctx.fork(ctx.bool("k%d%s" % (i, n)))} for i in (0, 1)]
    name = ctx.choice("name", ["xx", "split", "zz"])
    asked = []
    class Lang(SubLanguageBase):
        minify = None
    def make(i):
        class Mine(Lang):
            def minify(s, **_): return "by%d" % i
        def sub(lang, **_):
            asked.append(i)
            if lang in know[i]: return Mine
        def inc(lang, placeholder=False, **_):
            asked.append(i)
            if lang in know[i]: return lambda **_: '"by%d"' % i if placeholder else 'print("by%d")' % i
        return Script("s%d" % i, [], **({"sublanguage_main": sub} if what == "sublang" else {"include_main": inc}))
    src = {"sublang": "print(--[[$language::%s members,]]\"ab,cd\")" % name, "include": "--$dynamic-include: %s\n" % name, "placeholder": "print(--[[$placeholder-expr::%s]]\"ab,cd\")" % name}[what]
    w = World({"s%d.py" % i: make(i) for i in (0, 1)})
    rc, disk = w.run(["in.lua", "out.lua", "-m", "--no-minify-rename", "-s", "s0.py", "-s", "s1.py"], {"in.lua": src})
    ctx.check(rc == 0, "the exit code is %s" % rc)
    out = disk.files["out.lua"]
    first = [i for i in (1, 0) if name in know[i]]
    want = '"by%d"' % first[0] if first else '"ab,cd"'
    if what == "include" and not first: ctx.check(out.strip() == "", "an unknown include gives %r" % out)
    else: ctx.check(want in out and len(out) <= len(want) + 7, "%r comes out, not what script %s gives" % (out, first[:1]))
    n = (1 if first and first[0] == 1 else 2)
    ctx.check(asked[:n] == [1, 0][:n] and len(asked) % n == 0, "the scripts are asked as %s" % asked)
    ctx.cover("found" if first else "unknown")

def errors(ctx, lang="pico8"):
    """errors that a script reports are shown where its node stands, and decide the exit code as lint does"""
    pick = [ctx.fork(ctx.bool("n%d" % i)) for i in range(3)]
    fail, mini = ctx.choice("fail", [True, False]), ctx.choice("mini", [True, False])
    lines = ["n1()", " n2(3)", "local x=n3 print(x)"]
    if ctx.fork(ctx.bool("blank")): lines.insert(1, "")
    src = "\n".join(lines) + "\nfunction n1() end function n2() end n3=1"
    def syn(root, on_error, **_):
        found = []
        def visit(n):
            if getattr(n, "name", None) in ("n1", "n2", "n3") and n.name not in found:
                found.append(n.name)
                if pick[int(n.name[1]) - 1]: on_error("seen " + n.name, n)
        root.traverse_nodes(pre=visit)
    w = World({"s.py": Script("s", [], preprocess_syntax_main=syn)})
    rc, disk = w.run(["in.lua", "out.lua", "-l", "-s", "s.py"] + (["-m"] if mini else []) + ([] if fail else ["--no-lint-fail"]), {"in.lua": src})
    any_ = sum(pick) > 0
    ctx.check(rc == (2 if any_ and fail else 0), "the exit code is %s" % rc)
    ctx.check(("out.lua" in disk.files) == (not any_ or not fail), "written or not")
    want = []
    for i in range(3):
        if pick[i]:
            l = [k for k, t in enumerate(lines) if "n%d" % (i + 1) in t][0]
            want.append("in.lua:%d:%d: seen n%d" % (l + 1, lines[l].index("n%d" % (i + 1)) + 1, i + 1))
    shown = [l[0] for l in disk.out]
    ctx.check(shown == (["Lint warnings:"] + want if any_ else []), "%s is shown, not %s" % (shown, want))
    ctx.cover("errors" if any_ else "none")

def fields(ctx):
    """fields that scripts keep in the context"""
    c = PicoContext()
    model = {}
    for i in range(3):
        op, k = ctx.choice("op%d" % i, ["set", "get", "make"]), ctx.choice("k%d" % i, ["a", "b"])
        if op == "set":
            v = [i]
            c.set_field(k, v); model[k] = v
        elif op == "make":
            v = c.get_field(k, dict)
            if k in model: ctx.check(v is model[k], "a field is replaced")
            else:
                ctx.check(v == {}, "a new field is not empty"); model[k] = v
        else:
            try: v, failed = c.get_field(k), False
            except Exception: v, failed = None, True
            ctx.check(failed == (k not in model), "a field exists or not")
            if not failed: ctx.check(v is model[k], "a field has another value")
    ctx.cover("done")

# --- the tree

STATS = ["x=<E>", "local a=<E>", "local function g(p,...) return <E> end", "function t.m:n(q) x=<E> end", "for i=1,<E> do break end", "for k,v in <E> do x=k end", "while <E> do x() end", "repeat local u until <E>", "if <E> then x() elseif y then z() else w() end", "goto l ::l:: x(<E>)", "x+=<E>", "x{1,m=<E>,[2]=3}", "do local b<const> =<E> end"]
EXPRS = ["1", "a.b", "f(g,'s')", "-x+(y)", "function(r) return r end", "...", "t[1]:m()", "\"s\""]

def visits(ctx, lang="pico8", nstats=2):
    """traverse_nodes visits every node once: before its children with pre, after them with post, in the order of the source; what pre returns true for is not entered"""
    src = " ".join(prog.expand(ctx, {"E": EXPRS}, ctx.choice("s%d" % i, STATS if lang == "picotron" else STATS[:-1]), "e%d" % i) for i in range(nstats))
    if src.count("::l::") > 1: return ctx.cover("no program")
    skip = ctx.choice("skip", [None, 0, 3, 7])
    extra = ctx.choice("extra", [False, True])
    c = PicoContext() if lang == "pico8" else PicotronContext()
    s = Source("main", src)
    tokens, errors = tokenize(s, c)
    ctx.check(not errors, "%r is refused" % src)
    root, errors = parse(s, tokens, c)
    ctx.check(not errors, "%r is refused" % src)
    events, toks, open_, seen = [], [], [], set()
    count = [0]
    def pre(n):
        ctx.check(id(n) not in seen, "a node is visited twice")
        seen.add(id(n))
        if n is not root: ctx.check(open_ and n.parent is open_[-1] and (any([n is x for x in n.parent.children]) or any([n is x for x in getattr(n.parent, "extra_children", ())])), "a node is visited elsewhere than in its parent")
        open_.append(n); count[0] += 1
        if skip is not None and count[0] - 1 == skip: events.append(n); return True
    def post(n):
        ctx.check(open_ and open_[-1] is n, "a node is left out of order")
        open_.pop()
    root.traverse_nodes(pre=pre, post=post, tokens=toks.append, extra=extra)
    ctx.check(not open_, "a node is not left")
    all_ = root.get_tokens()
    if skip is None or not events:
        if not extra: ctx.check([id(t) for t in toks if t.value is not None] == [id(t) for t in all_], "the tokens are visited in another order")
        ctx.check([t.value for t in all_] == [t.value for t in tokens if t.value is not None], "the tree has other tokens")
    elif not extra:
        inside = {id(t) for t in events[0].get_tokens()}
        ctx.check([id(t) for t in toks] == [id(t) for t in all_ if id(t) not in inside], "what is skipped is entered")
    places = [src.find(t.value, t.idx) == t.idx for t in all_]
    ctx.check(all(places), "a token's place is not where it stands")
    ctx.cover("done")

# --- the cart's rom

def memory(ctx, steps):
    """Memory's operations are those on a list of bytes"""
    n = 8
    init = [ctx.int("m%d" % i, 0, 255) for i in range(n)]
    mem, model, other = Memory(bytearray(n)), list(init), Memory(bytearray(n))
    for i in range(n): mem[i] = init[i]
    om = [i * 3 for i in range(n)]
    for i in range(n): other[i] = om[i]
    for k in range(steps):
        op = ctx.choice("op%d" % k, ["set8", "set16", "set32", "set4", "bits", "fill", "copy", "copyover", "copyfrom", "block", "copy()", "replace", "clear", "cmp"])
        a = ctx.choice("a%d" % k, [0, 1, 4])
        v = ctx.int("v%d" % k, 0, 0xffffffff if op == "set32" else 0xffff if op == "set16" else 15 if op in ("set4", "bits") else 255)
        size = ctx.choice("n%d" % k, [0, 1, 4]) if op in ("fill", "copy", "copyover", "copyfrom", "block", "cmp") else 0
        if op == "set8": mem.set8(a, v); model[a] = v
        elif op == "set16": mem.set16(a, v); model[a:a + 2] = [v & 255, v >> 8]
        elif op == "set32": mem.set32(a, v); model[a:a + 4] = [v & 255, (v >> 8) & 255, (v >> 16) & 255, v >> 24]
        elif op == "set4":
            h = ctx.choice("h%d" % k, [0, 1])
            mem.set4((a, h), v); model[a] = (model[a] & 15) | (v << 4) if h else (model[a] & 240) | v
            ctx.check(mem.get4((a, h)) == v and mem.get4((a, 1 - h)) == ((model[a] & 15) if h else model[a] >> 4), "a nibble reads otherwise")
        elif op == "bits":
            mem.set8_bits(a, 2, 7, v); model[a] = (model[a] & 0xe3) | ((v & 7) << 2)
            ctx.check(mem.get8_bits(a, 2, 7) == (v & 7), "bits read otherwise")
        elif op == "fill": mem.fill8(a, v, size); model[a:a + size] = [v] * size
        elif op == "copy": mem.copy8(a, 3, size, other); model[a:a + size] = om[3:3 + size]
        elif op == "copyover": mem.copy8(a, 3, size); model[a:a + size] = model[3:3 + size]
        elif op == "copyfrom": mem.copyfrom8(a, size, other); model[a:a + size] = om[a:a + size]
        elif op == "block":
            blk = mem.get_block(a, size)
            ctx.check(len(blk) == size and ctx.all([x == y for x, y in zip(blk, model[a:a + size])]), "a block reads otherwise")
            mem.set_block(2, blk); model[2:2 + size] = model[a:a + size]
        elif op == "copy()":
            c = mem.copy()
            c[a] = (c[a] + 1) & 255
        elif op == "replace": mem.replace(other); model = list(om)
        elif op == "clear": mem.clear(); model = [0] * n
        elif op == "cmp":
            got, want = mem.cmpeq8(a, 2, size, other), ctx.all([model[a + j] == om[2 + j] for j in range(size)])
            ctx.check(ctx.all([got, want]) or ctx.fork(got) == ctx.fork(want), "blocks compare otherwise")
            got, want = mem.cmpeqwith8(a, size, other), ctx.all([model[a + j] == om[a + j] for j in range(size)])
            ctx.check(ctx.fork(got) == ctx.fork(want), "blocks compare otherwise")
        ctx.check(mem.size() == n == len(mem), "the size changes")
    ctx.check(ctx.all([mem[i] == model[i] for i in range(n)]), "the memory has other contents")
    ctx.check(ctx.all([other[i] == om[i] for i in range(n)]), "the other memory changes")
    for i in (0, 3): ctx.check(mem.get16(i) == model[i] + model[i + 1] * 256 and mem.get32(i) == model[i] + model[i + 1] * 256 + model[i + 2] * 65536 + model[i + 3] * 16777216, "words read otherwise")
    ctx.cover("done")

def copies(ctx):
    """a copy of a cart is independent of it, as is the rom given to a new one"""
    cart = Cart(code="code", rom=None, path="a/b.p8")
    at, v = ctx.choice("at", [0, 0x2000, 0x42ff]), ctx.int("v", 0, 255)
    how = ctx.choice("how", ["copy", "rom"])
    cart.rom[at] = 7
    cart.title = "tt"
    new = cart.copy() if how == "copy" else Cart(code="other", rom=cart.rom)
    if how == "copy": ctx.check(new.code == "code" and new.title == "tt" and new.path == cart.path and new.name == cart.name and new.version_id == cart.version_id, "the copy is another cart")
    else: ctx.check(new.code == "other" and new.title == "", "the new cart has something of the old")
    new.rom[at] = v
    new.code = "new"
    new.title = "uu"
    ctx.check(cart.rom[at] == 7 and new.rom[at] == v and cart.code == "code" and cart.title == "tt", "a change of the copy changes the cart")
    other = new.rom.copy()
    other[at] = 1
    ctx.check(new.rom[at] == v, "a change of a memory's copy changes it")
    ctx.cover("done")

def harnesses(tier):
    T = tier == "thorough"
    hs = []
    def add(f, bounds, **kw): hs.append(H(f, params=kw, bounds=bounds))
    for n in (0, 1, 2) + ((3,) if T else ()): add(contents, "every %d bytes" % n, n=n, kind="bytes")
    add(contents, "every 2 characters", n=2, kind="text")
    for lang in ("pico8", "picotron"):
        add(names, "7 programs, any two of 10 tokens, separators, quotes", n=2, lang=lang)
        if lang == "pico8" or T: add(names, "7 programs, any three of the first 5 (thorough: 7) tokens", n=3, few=7 if T else 5, lang=lang)
        add(names, "7 programs, any two of 7 tokens, 3 sets of rules", n=2, few=7, rule=True, lang=lang)
        add(locals_, "3 programs, any %d of 8 tokens" % (4 if T else 3), n=4 if T else 3, lang=lang)
        add(hints, "9 hints, 3 strings, 4 programs, with and without renaming and minification", lang=lang)
        add(lint, "6 programs, any %d of 7 tokens" % (4 if T else 3), n=4 if T else 3, lang=lang)
        add(visits, "any two of 12 statements with any of 8 expressions, 3 nodes to skip", lang=lang, nstats=2 if T else 1)
    for f in ("rom", "p8"): add(hooks, "1 or 2 scripts with any of 3 hooks, 5 operations, any byte at 4 places", fmt=f)
    for w in ("sublang", "include", "placeholder"): add(priority, "2 scripts that know any of 2 names, 3 names", what=w)
    add(errors, "any of 3 nodes, with and without failing and minification")
    add(fields, "any 3 operations on 2 fields")
    for k in (1, 2): add(memory, "any %d of 14 operations, any values" % k, steps=k)
    add(copies, "any byte at 3 places")
    return hs

TECHNIQUE = ("symbolic execution of the real Memory, Cart and string-contents code on symbolic bytes (Z3 decides equality with a list-of-bytes model and an independent reader of string literals) and translation validation of programs with sub-language strings, "
    "with scripts that are objects in memory run through the real command line; choices of hooks, tokens, hints and options are solver variables, Z3 covers every one")
OUTSIDE = "scripts written in PICO-8 Lua (they run in the native lupaz8 library); loading a .py file itself (Python's import machinery); Parens-8 (a git submodule that is not in the tree); what a script does beyond the documented API"
ASSUMPTIONS = ["the scripts and sub-languages behave as those of the README"]
META = dict(
    title="Custom scripts and sub-languages are given, and get, what the README says",
    statement="Scripts given by -s are called in order: preprocess_main with the cart as read (its changes to code and rom are what is processed), preprocess_syntax_main with the parsed tree, whose errors are shown at the nodes' places and decide the exit code as lint's do, postprocess_main in reverse order with the processed cart (its changes are what is written); --script-args reach them, fields set in the context are kept. A later script's sub-languages, includes and placeholders go before an earlier one's and shrinko8's own. The string marked with --[[$language::x args]] (aliases resolved), and no other, is given to that sub-language. The globals, members and locals it says it uses are renamed as those of the code are - one new name per name, none shared, preserved and built-in ones kept, no local hiding a global - and the string becomes what its minify gives. For --lint, what it defines or uses counts for the code and the other way around, its errors are placed at the string. bytes_to_string_contents gives text that reads as the bytes given, for all bytes. traverse_nodes visits each node once, parents before (pre) and after (post) children. Memory's get/set/copy/fill/compare operations act as on a list of bytes (little endian); copies of carts and memories are independent.",
    over=["inputs", "configurations"], text="every 0-2 bytes (3 thorough); every choice of tokens, hints, programs, hooks and options of the grammars; every value of the bytes and words",
    why="The tests run one script and one sub-language cart; names that clash, unusual bytes, several scripts or hooks together are not sampled.",
    files=["run_shrinko.py", "pico_process.py", "pico_rename.py", "pico_lint.py", "pico_minify.py", "pico_tokenize.py", "pico_utils.py", "pico_defs.py"],
    mech=[("hooks", "run_shrinko.py: args.preproc_cb/postproc_cb/...; utils.py: func_union"), ("sub-languages", "pico_tokenize.py: add_sublang; pico_rename.py; pico_lint.py; pico_minify.py"), ("data", "pico_utils.py: bytes_to_string_contents"), ("rom", "pico_defs.py: Memory")])
