"""C29: what rules and hints say about renaming"""
from sym.ctx import H
from props import prog, lua, c20
import re
import pico_process
from pico_process import PicoContext, Source, process_code
from picotron_defs import PicotronContext
import importlib.util, os

def load_split():
    spec = importlib.util.spec_from_file_location("split_sublang", os.path.join(os.path.dirname(os.path.abspath(pico_process.__file__)), "scripts", "split.py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m.sublanguage_main

sublanguage_main = load_split()

OPT = dict(c20.OPT)

def run(src, lang, rules, safe=False, focus=()):
    kw = dict(sublang_getter=sublanguage_main)
    c = PicoContext(**kw) if lang == "pico8" else PicotronContext(**kw)
    s = Source("main", src)
    ok, errors = process_code(c, s, minify=prog.options(**OPT), rename={"safe-only": safe, "focus": list(focus), "rules": list(rules)})
    return ok, s.text, [e.msg for e in errors]

def alike(ctx, src, lang, rules, **kw):
    before = c20.read(src, lang)
    if isinstance(before, str): return ctx.cover("not a program")
    ok, out, errors = run(src, lang, rules, **kw)
    ctx.check(ok and not errors, "a program is refused: %r" % src)
    after = c20.read(out, lang)
    ctx.check(not isinstance(after, str), "renamed into something that is no program (%s): %r for %r" % (after, out, src))
    try: return lua.Alike(before, after), out
    except lua.Differ as e: ctx.check(False, "renaming changed what a name refers to (%s): %r for %r with %r" % (e, out, src, rules))

def wild(pat, name):
    if not pat: return not name
    if pat[0] == "*": return any(wild(pat[1:], name[i:]) for i in range(len(name) + 1))
    return bool(name) and name[0] == pat[0] and wild(pat[1:], name[1:])

NAMES = ["abc", "abd", "xbc", "ac", "abcabc", "_bc"]
PATS = ["abc", "ab*", "*c", "*", "a*c", "*b*", "abd*", "*bc*bc", "*abc", "_*", "a**"]

def tell(ctx, src, how, rules):
    if how == "option": return src, rules
    text = {"hint": "--$preserve: %s\n%s", "old": "--preserve: %s\n%s", "block": "--[[$preserve: %s]]%s"}
    if how == "end": return src + " --$preserve: " + ",".join(rules), ()
    if how == "lines": return "".join("--$preserve: %s\n" % r for r in rules) + src, ()
    return text[how] % (", ".join(rules), src), ()

HOW = ["option", "hint", "old", "block", "end", "lines"]

def globals_(ctx, text, names, pats, excl, how, lang="pico8"):
    src = prog.expand(ctx, {"N": NAMES[:names]}, text)
    rules = [ctx.choice("include", PATS[:pats])]
    if excl: rules.append("!" + ctx.choice("exclude", [p for p in PATS[:pats] if p != "*"]))
    src, opts = tell(ctx, src, ctx.choice("how", how), rules)
    r = alike(ctx, src, lang, opts)
    if r is None: return
    q, out = r
    got = {}
    for a, b, _ in q.globals:
        if a not in NAMES: continue
        kept = wild(rules[0], a) and not (excl and wild(rules[1][1:], a))
        if kept: ctx.check(a == b, "global %s matches a rule, but is renamed: %r for %r with %r" % (a, out, src, rules))
        elif len(a) > 2: ctx.check(a != b, "global %s matches no rule, but is not renamed: %r for %r with %r" % (a, out, src, rules))
        ctx.check(got.setdefault(a, b) == b, "global %s has two names: %r" % (a, out))
    for a, b in q.members:
        if len(a) > 2: ctx.check(a != b, "member %s is not renamed because of a rule for globals: %r for %r with %r" % (a, out, src, rules))
    ctx.check(len(set(got.values())) == len(got), "globals got the same name: %r" % out)
    ctx.cover("kept" if any(a == b for a, b in got.items()) else "renamed")

# the tables through which the members of each program are accessed, in order
MEMBERS = [("y.<N>=1 tab.<N>=2 f().<N>=3 tab.y.<N>=4", ["y", "tab", "", "tab", ""]), ("x={<N>=1} tab={<N>=2} k{<N>=3}", ["x", "tab", ""]), ("local tab,y={<N>=1},{<N>=2} tab:<N>() y:<N>()", ["tab", "y", "tab", "y"]),
           ("function tab.<N>() end function y:<N>() end (tab).<N>=1", ["tab", "y", ""])]

def rule_matches(rule, table, member):
    t, m = rule.split(".", 1)
    return wild(t, table) and wild(m, member)

PAIRS = [("*.abc", None), ("*.ab*", None), ("*.*", "*.abc"), ("*.*", "*.ab*"), ("*.*", "tab.*"), ("*.*", "tab.abc"), ("tab.*", None), ("tab.abc", None), ("tab.ab*", None), ("t*.*", None), ("t*.abc", None), ("*.*b*", "*.*d"),
         ("tab.*", "tab.abc"), ("*.abc", "tab.abc"), ("*a*.*bc", None), ("*.ab*", "tab.*c"), ("*.*", "t*.ab*"), ("*.*c", "*.xbc"), ("*.*", None), ("tab.a*", "*.*d")]

def members(ctx, i, names, how, lang="pico8"):
    text, tables = MEMBERS[i]
    src = prog.expand(ctx, {"N": NAMES[:names]}, text)
    inc, exc = ctx.choice("rule", PAIRS)
    rules = [inc] + (["!" + exc] if exc else [])
    src, opts = tell(ctx, src, ctx.choice("how", how), rules)
    r = alike(ctx, src, lang, opts)
    if r is None: return
    q, out = r
    ms = [m for m in q.members]
    assert len(ms) == len(tables), (ms, tables)
    got, kept_names = {}, set()
    for (a, b), t in zip(ms, tables):
        if a not in NAMES: continue
        kept = rule_matches(inc, t, a) and not (exc and rule_matches(exc, t, a))
        if kept:
            ctx.check(a == b, "member %s.%s matches a rule, but is renamed: %r for %r with %r" % (t, a, out, src, rules))
            kept_names.add(a)
        else:
            if len(a) > 2: ctx.check(a != b, "member %s.%s matches no rule, but is not renamed: %r for %r with %r" % (t, a, out, src, rules))
            ctx.check(got.setdefault(a, b) == b, "member %s has two names: %r" % (a, out))
    ctx.check(len(set(got.values())) == len(got) and not kept_names & set(got.values()), "members got the same name: %r for %r with %r" % (out, src, rules))
    ctx.cover("done")

def builtin(ctx, text, rules, lang="pico8"):
    """builtins that are told not to be preserved"""
    src = prog.expand(ctx, {"G": ["circfill", "rectfill", "add"]}, text)
    r = alike(ctx, src, lang, rules)
    if r is None: return
    q, out = r
    seen = {}
    for (a, b, _), keep in zip(q.globals, [m.group(1) is not None for m in re.finditer(r"(--\[\[\$preserve\]\])?([A-Za-z_]+)", src) if m.group(2) in ("circfill", "rectfill", "add", "x")]):
        if a in ("circfill", "rectfill", "add") and (keep or "!" + a not in rules): ctx.check(a == b, "builtin %s is to be preserved: %r for %r with %r" % (a, out, src, rules))
        else:
            ctx.check(len(a) < 3 or a != b, "%s need not be preserved, but is not renamed: %r for %r with %r" % (a, out, src, rules))
            ctx.check(seen.setdefault(a, b) == b, "%s has two names: %r" % (a, out))
            ctx.check(b not in c20.API, "%s got the name of a builtin: %r" % (a, out))
    ctx.cover("done")

# (program, what of the output: each group is a name that has to be as told)
RENAMES = [
    ("local --[[$rename::q]]<N>=1 k(<N>)", r"local q=1 k\((\w+)\)$", "q"), ("local <N>=1 k(--[[$rename::q]]<N>)", r"local (\w+)=1 k\((\w+)\)$", "q?"),
    ("function f(--[[$rename::q]]<N>,y) return <N>,<M> end", r"function \w+\((?:q),(\w+)\)return (\w+),(\w+) end$", None), ("--[[$rename::q]]<N>=1 k(<N>,<M>)", r"q=1 k\((\w+),(\w+)\)$", "g"),
    ("y.--[[$rename::q]]<N>=1 z.<N>=<M>", r"(\w+)\.q=1 (\w+)\.q=(\w+)$", "m"), ("goto <N> ::--[[$rename::q]]<N>::", r"goto (\w+)::(\w+)::$", None), ("function --[[$rename::q]]<N>() end <N>() <M>()", r"function q\(\)end q\(\)(\w+)\(\)$", "g"),
    ("local function --[[$rename::q]]<N>() <N>() end <M>()", r"local function q\(\)q\(\)end (\w+)\(\)$", "l"), ("for --[[$rename::q]]<N>=1,2 do <M>(<N>) end", r"for q=1,2 do (\w+)\((\w+)\)end$", None),
    ("y.--[[$rename::q]]<N>=1 --[[$rename::q]]<M>=2", r"(\w+)\.q=1 q=2$", "m"), ("local --[[$rename::q]]<N>=1 do local --[[$rename::w]]<M>=<N> k(<N>,<M>) end", r"local q=1 do local w=q k\((\w+),(\w+)\)end$", None),
    ("k(<N>,<M>) local --[[$rename::k]]<N>=1", r"k\((\w+),(\w+)\)local k=1$", None), ("k=<M> local --[[$rename::a]]<N>,o,p,u=1 k(o,p,u,<N>)", r"", None),
]

def renames(ctx, i, lang="pico8", focus=()):
    text, pat, kind = RENAMES[i]
    src = prog.expand(ctx, {"N": ["e", "o", "q", "abc", "w"], "M": ["e", "q", "a", "x"]}, text)
    r = alike(ctx, src, lang, (), focus=focus)
    if r is None: return
    q, out = r
    flat = re.sub(r"\s*([^\w ])\s*", r"\1", re.sub(r"--\[\[.*?\]\]", "", out)).strip()
    src2 = re.sub(r"\s*([^\w ])\s*", r"\1", re.sub(r"--\[\[.*?\]\]", "", src)).strip()
    for hint, name in re.findall(r"--\[\[\$rename::(\w+)\]\](\w+)", src): # each occurrence of a variable is paired with what it became
        at = src.index("--[[$rename::%s]]%s" % (hint, name))
        k = len(re.findall(r"\b[A-Za-z_]\w*", re.sub(r"--\[\[.*?\]\]", "", src[:at])))
        became = re.findall(r"\b[A-Za-z_]\w*", re.sub(r"--\[\[.*?\]\]", "", out))[k]
        ctx.check(became == hint, "%s is renamed to %s, not to %s as told: %r for %r" % (name, became, hint, out, src))
    c20.one(ctx, {(a, b) for a, b, _ in q.globals}, c20.API, (), "global", "%r for %r" % (out, src))
    c20.one(ctx, set(q.members), (), (), "member", "%r for %r" % (out, src))
    ctx.cover("done")

OCC = [
    ("do local _ENV={--[[$global]]<N>=1} <N>=2 end y.<M>=3", "global", [0]), ("y.--[[$preserve]]<N>=1 z.<N>=<M>", "keep", [0]), ("local e=--[[$global-keys]]{<N>=1,<M>=2} <N>=2 y.<M>=3", "global", [0, 1]),
    ("local --[[$global-keys]]e={<N>=1} e.<M>=2 <M>=<N> y.<M>=1", "global", [0, 1]), ("e=--[[$preserve-keys]]{<N>=1,<M>=2} e.<N>=1 <M>=2", "keep", [0, 1]), ("--[[$global-keys]]e={<N>=1} e.<M>=2 <N>=<M>", "global", [0, 1]),
    ("x.--[[$global]]<N>=1 y.<N>=<M> <N>=2", "global", [0]), ("{--[[$preserve]]<N>=1,<M>=<N>}", "keep", [0]), ("e={--[[$preserve]]<N>=1,<M>=<N>}", "keep", [0]), ("local --[[$preserve-keys]]e e.<N>=1 e.<M>=2 e={<N>=3} y.<N>=1", "keep", [0, 1, 2]),
    ("e:--[[$preserve]]<N>() e:<N>(<M>)", "keep", [0]), ("k(--[[$preserve-keys]]{<N>={<M>=1}})", "keep", [0]),
]
GOCC = [("for --[[$member-keys]]_ENV in f do <N>=<M> end y.<N>=1", "member"), ("--[[$member]]<N>=1 y.<N>=<M>", "member"), ("--[[$preserve]]<N>=1 <N>=<M>", "keep"), ("local --[[$preserve-keys]]_ENV=k <N>=<M>", "keepall")]

def occurrence(ctx, i, lang="pico8"):
    text, kind, at = OCC[i]
    src = prog.expand(ctx, {"N": ["abc", "xyz", "e"], "M": ["abc", "xyz", "o"]}, text)
    r = alike(ctx, src, lang, ())
    if r is None: return
    q, out = r
    what = "%r for %r" % (out, src)
    g = {}
    for a, b, _ in q.globals: g.setdefault(a, b)
    rest = []
    for j, (a, b) in enumerate(q.members):
        if j not in at: rest.append((a, b)); continue
        if kind == "keep": ctx.check(a == b, "member %s is to be preserved: %s" % (a, what))
        elif a in g: ctx.check(b == g[a], "member %s is to be renamed as the global is: %s" % (a, what))
        else: g[a] = b
    c20.one(ctx, set(g.items()), c20.API, (), "global", what)
    c20.one(ctx, set(rest), (), (), "member", what)
    if kind == "keep":
        for a, b in rest: ctx.check(len(a) < 3 or a != b, "member %s need not be preserved: %s" % (a, what))
    ctx.cover("done")

def goccurrence(ctx, i, lang="pico8"):
    text, kind = GOCC[i]
    src = prog.expand(ctx, {"N": ["abc", "xyz", "e"], "M": ["abc", "xyz", "o"]}, text)
    r = alike(ctx, src, lang, ())
    if r is None: return
    q, out = r
    what = "%r for %r" % (out, src)
    m = dict(q.members)
    for j, (a, b, env) in enumerate([x for x in q.globals if x[0] not in "fyk"]):
        if kind == "member" and (env or text.startswith("--[[$member]]") and j == 0): ctx.check(m.setdefault(a, b) == b, "global %s is to be renamed as the member is: %s" % (a, what))
        elif kind == "keepall" and env: ctx.check(a == b, "global %s is to be preserved: %s" % (a, what))
        elif kind == "keep" and j == 0: ctx.check(a == b, "global %s is to be preserved: %s" % (a, what))
        elif kind == "keep": ctx.check(len(a) < 3 or a != b, "global %s need not be preserved: %s" % (a, what))
    ctx.check(len(set(m.values())) == len(m), "members got the same name: " + what)
    ctx.cover("done")

# the split sub-language: (what follows 'split', reference: a nested list of kinds)
SPLITS = [
    ("(member=string)s,", (",", [("=", ["m", "s"], None)], (0, 1))), ("member;global;string", (";", ["m", "g", "s"], None)), ("member;globals;string", (";", ["m", "g", "s"], (1, 2))),
    ("member;(global=string)s;string", (";", ["m", ("=", ["g", "s"], None), "s"], (1, 2))), ("(global=string)s,(global=string)", (",", [("=", ["g", "s"], None), ("=", ["g", "s"], None)], (0, 1))),
    ("global,members,strings", (",", ["g", "m", "s"], (1, 3))), ("member,", (",", ["m"], None)), ("members|", ("|", ["m"], (0, 1))), ("strings,global", (",", ["s", "g"], (0, 1))), ("global\\wqmember", ("q", ["g", "m"], None)),
    ("global\\(member", ("(", ["g", "m"], None)), ("((member=string)s,)s;", (";", [(",", [("=", ["m", "s"], None)], (0, 1))], (0, 1))), ("preserve,globals,members", (",", ["s", "g", "m"], (1, 3))), ("string=global", ("=", ["s", "g"], None)),
]

def cut(text, spec):
    """-> (kind, piece) for every piece and separator of the text"""
    sep, kinds, plural = spec
    parts = text.split(sep)
    n = len(parts)
    if plural is None: ks = [kinds[i] if i < len(kinds) else "s" for i in range(n)]
    else:
        b, e = plural
        many = max(0, n - b - (len(kinds) - e))
        ks = (kinds[:b] + [kinds[b + i % (e - b)] for i in range(many)] + kinds[e:])[:n]
    out = []
    for i, (p, k) in enumerate(zip(parts, ks)):
        if i: out.append(("s", sep))
        out += cut(p, k) if isinstance(k, tuple) else [(k, p)]
    return out

def split(ctx, i, text, alias, lang="pico8"):
    args, spec = SPLITS[i]
    # README says what pieces beyond those told of are only where there is a plural
    st = prog.expand(ctx, {"P": ["abc", "xyz", "a b", ""], "D": sorted({spec[0]} | {k[0] for k in spec[1] if isinstance(k, tuple)}), "Q": ["abc", "xyz"]}, text)
    lit = '"' + st + '"'
    src = ("--$def-alias: my = split %s\nk(--[[$language::my]]%s,abc,y.xyz,xyz,y.abc)" if alias else "k(--[[$language::split %s]]%s,abc,y.xyz,xyz,y.abc)") % (args, lit)
    r = alike(ctx, src, lang, ())
    if r is None: return
    q, out = r
    what = "%r for %r" % (out, src)
    g, m = {a: b for a, b, _ in q.globals}, dict(q.members)
    got, at = q.strings[0][1], 0
    names = {"g": g, "m": m}
    want = "".join(names[k].get(p, p) if k != "s" else p for k, p in cut(st, spec))
    ctx.check(got == want, "a split string becomes %r, not %r: %s" % (got, want, what))
    c20.one(ctx, set(g.items()), c20.API, (), "global", what)
    c20.one(ctx, set(m.items()), (), (), "member", what)
    ctx.cover("renamed" if got != st else "as it was")

def split_rules(ctx, text, rules, lang="pico8"):
    """names in strings and rules: short names that are kept collide with none that is given"""
    st = prog.expand(ctx, {"P": ["e", "o", "abc", "t", ""]}, text)
    kinds = ctx.choice("kinds", ["globals,", "members,", "(global=member)s,"])
    src = 'k(--[[$language::split %s]]"%s",foo,foo,bar.foo,bar,bar.x,bar.x)' % (kinds, st)
    r = alike(ctx, src, lang, rules)
    if r is None: return
    q, out = r
    what = "%r for %r with %r" % (out, src, rules)
    spec = {"g": (",", ["g"], (0, 1)), "m": (",", ["m"], (0, 1)), "(": (",", [("=", ["g", "m"], None)], (0, 1))}[kinds[0]]
    got = q.strings[0][1]
    a, b = cut(st, spec), cut(got, spec)
    ctx.check(len(a) == len(b), "pieces of a string are lost: " + what)
    g, m = {(x, y) for x, y, _ in q.globals}, set(q.members)
    for (k, x), (_, y) in zip(a, b):
        if k == "s" or not x: ctx.check(x == y, "a piece that is no name changed: " + what)
        else: (g if k == "g" else m).add((x, y))
    for x, y in g: ctx.check(x != y if x not in rules and len(x) > 2 else x == y or x not in rules, "a rule for globals is not followed: " + what)
    for x, y in m: ctx.check(x == y or "*." + x not in rules, "a rule for members is not followed: " + what)
    c20.one(ctx, g, c20.API, (), "global", what)
    c20.one(ctx, m, (), (), "member", what)
    ctx.cover("done")

def harnesses(tier):
    hs, T = [], tier == "thorough"
    def add(f, bounds, **kw): hs.append(H(f, params=kw, bounds=bounds))
    for lang in ("pico8", "picotron"):
        p8 = lang == "pico8"
        how = HOW if p8 else [h for h in HOW if h != "old"]
        add(globals_, "one rule, two names", text="<N>=1 function <N>() end k(y.<N>)", names=6 if T else 5, pats=11, excl=False, how=how if T else how[:2], lang=lang)
        add(globals_, "a rule and an exception, a name", text="<N>=1 k(<N>)", names=6 if T else 3, pats=11, excl=True, how=how if T else [how[0]], lang=lang)
        add(globals_, "every way to give rules", text="<N>=1", names=5, pats=5, excl=True, how=how, lang=lang)
        for i in range(len(MEMBERS)): add(members, "rules for members through tables", i=i, names=4 if T else 3 if i == 1 else 2, how=["option"], lang=lang)
        add(members, "every way to give rules", i=1, names=2, how=how, lang=lang)
        if p8:
            for rules in (("!circfill",), ("!circfill", "!rectfill"), (), ("!*fill",)[:0]):
                for t in ("<G>=--[[$preserve]]<G> x(<G>)", "<G>(<G>) x=<G>"): add(builtin, "builtins", text=t, rules=rules)
            for i in range(len(RENAMES)):
                for focus in ([], ["chars"]): add(renames, "every choice of names", i=i, focus=focus)
        for rules in (("e", "o", "t", "k"), ("e", "k", "*.o"), ("*.e", "*.o", "*.t", "k"), ("k",), ("abc", "*.abc", "k")):
            add(split_rules, "every choice of pieces", text="<P>,<P>,<P>" if T else "<P>,<P>", rules=rules, lang=lang)
        for i in range(len(OCC)): add(occurrence, "every choice of names", i=i, lang=lang)
        for i in range(len(GOCC)): add(goccurrence, "every choice of names", i=i, lang=lang)
        for i in range(len(SPLITS)):
            for t in ("<P><D><P><D><P>", "<P>", "<P><D><P>") + (("<Q><D><Q><D><P><D><Q>",) if T or i < 6 else ()): add(split, "every choice of pieces and separators", i=i, text=t, alias=i % 2 == 1, lang=lang)
    return hs

TECHNIQUE = "translation validation: programs, rules and strings over a grammar (choices are solver variables) are renamed by the real code; an independent matcher, parser and resolver decide what must be kept, renamed alike or renamed as told"
OUTSIDE = "rules that contradict each other in ways README leaves open (an exact name against a wildcard of the other sign); custom sublanguages; programs beyond the grammar"
ASSUMPTIONS = ["'*' in a rule stands for any characters; '!' makes an exception to the rules before it"]
META = dict(
    title="Renaming obeys its rules and hints",
    statement="Names that match a --preserve rule or --$preserve hint (exact or with wildcards; globals, members, members of a table) and no exception ('!') keep their name, and others do not keep theirs because of it; the same goes for builtins that are released. Hints on a single occurrence, on all keys of a table or variable, or on a string are followed at exactly those occurrences; a --[[$rename::x]] hint gives that name to all uses of that variable; strings of the split sub-language are renamed piece by piece as their template says and keep everything else.",
    over=["inputs"], text="every choice of names, rules, separators and pieces in the grammars",
    why="The tests have one example per hint; what is preserved depends on which names match which wildcards, exceptions, tables and hints together.",
    files=["pico_rename.py", "scripts/split.py", "pico_tokenize.py", "pico_parse.py"],
    mech=[("rules", "pico_rename.py: IncludeExcludeMapping, TableMemberPairIncludeExcludeMapping, compute_effective_kind"), ("hints", "pico_tokenize.py: process_comment"), ("split", "scripts/split.py: SplitSubLang")])
