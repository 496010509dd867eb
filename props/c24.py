"""C24: includes and the places errors are reported at"""
import os
from sym.ctx import H
from props import lua
import pico_process
from pico_process import CartSource, Source, Error
from pico_process import get_line_col, get_tab_line_col
from pico_cart import read_cart_from_source
from pico_preprocess import preprocess_code, trim_cart_to_tab, CodeMapping
from pico_cart import Cart

INC = os.path.join(os.path.dirname(os.path.abspath(__file__)), "inc")
MAIN = os.path.join(INC, "main.p8")
FILES = {}

def code_of(name):
    """-> (lines before the code, code) of one of the files in inc/"""
    text = open(os.path.join(INC, name)).read()
    if not text.startswith(("pico-8", "__lua__")): return 0, text.rstrip("\n") if text.endswith("\n") else text
    lines = text.split("\n")
    if lines[-1] == "": lines.pop()
    at = lines.index("__lua__") + 1
    end = next((i for i in range(at, len(lines)) if lines[i].startswith("__")), len(lines))
    return at, "\n".join(lines[at:end])

def tabs_of(code):
    """[(start, end)] of the tabs"""
    out, at = [], 0
    while True:
        e = code.find("\n-->8\n", at)
        if e < 0: return out + [(at, len(code))]
        out.append((at, e))
        at = e + 6

def place(code, i):
    """0-based (line, column), (tab, line in the tab, column)"""
    start = code.rfind("\n", 0, i) + 1
    line = code.count("\n", 0, i)
    tabs = tabs_of(code)
    tab = max(k for k, t in enumerate(tabs) if t[0] <= i)
    return (line, i - start), (min(tab, 15), line - code.count("\n", 0, tabs[min(tab, 15)][0]), i - start)

# a line and the includes that are live in it (each '@' stands for one)
LIVE = "@"
LINES = [("a=1", []), ("@", ["#include b.lua"]), ("@", [" \t#include  b.lua"]), ("@", ["#include c.p8:1"]), ("@", ["#include e.p8"]), ("@", ["#include e.p8:1"]), ("x='#include b.lua'", []), ("--[[\n#include b.lua\n]]", []), ("-->8", []),
         ("@", ["#include e.p8:2"]), ("s=[[\n#include b.lua\n]]\n@", ["#include c.p8:0"]), ("--#include b.lua", []), ("y=1 #include b.lua", []), ("#t", []), ("x='\\'' #include b.lua", []), ("", []), ('x="a\\\n#include b.lua"', []), ("@", ["#include d/b.lua"]),
         ("--[=[\n#include b.lua\n]]\n#include b.lua\n]=] y=2", []), ("@", ["#include c.p8"]), ("@", ["#include c.p8:2"]), ("@", ["#include z.lua"]), ("#includes b.lua", []), ("--[[]]--[[\n]]x=[[]]\n@", ["#include b.lua"]), ("x=\"--\" y='[['\n@", ["#include c.p8:1"]), ("-- '\n@", ["#include b.lua"])]

def spliced(name, code, at=0, end=None):
    """[(char, file, index)]: a file's code with what it includes; only e.p8 includes anything"""
    out = [(ch, name, at + i) for i, ch in enumerate(code[at:end])]
    return out

def include_of(directive):
    """-> [(char, file, index)] that a directive stands for"""
    name = directive.split()[1]
    tab = None
    if name[-2] == ":": name, tab = name[:-2], int(name[-1], 16)
    _, code = code_of(name)
    out = expand_text(name, code)
    if tab is None: return out
    text = "".join(x[0] for x in out)
    a, b = tabs_of(text)[tab]
    return out[a:b]

def expand_text(name, code):
    out, at = [], 0
    if name == "e.p8":
        for line in code.split("\n"):
            i = line.find("#include")
            if i >= 0: out += include_of(line)
            else: out += [(ch, name, at + k) for k, ch in enumerate(line)]
            at += len(line)
            if at < len(code): out.append(("\n", name, at))
            at += 1
        return out
    return [(ch, name, k) for k, ch in enumerate(code)]

def expected(lines):
    """-> main code, [(char, file, index)]"""
    code, out = "", []
    for k, (text, incs) in enumerate(lines):
        if k: out.append(("\n", "main.p8", len(code))); code += "\n"
        for j, part in enumerate(text.split("@")):
            if j:
                out += include_of(incs[j - 1])
                code += incs[j - 1]
            for ch in part:
                out.append((ch, "main.p8", len(code)))
                code += ch
    return code, out

HEADS = [("pico-8 cartridge // http://www.pico-8.com\nversion 42\n__lua__\n", 3), ("__lua__\n", 1), ("", 0), ("pico-8 cartridge\n__gfx__\n00\n\n__lua__  \n", 5)]

def included(ctx, n, heads, tabbed):
    """every '#include' line, and no other, is replaced; every place is reported where it came from"""
    head, off = ctx.choice("head", heads)
    lines = [ctx.choice("line%d" % i, LINES) for i in range(n)]
    code, want = expected(lines)
    if off == 0 and code.startswith("#include"): pass
    cart = read_cart_from_source(head + code + "\n", path=MAIN, raw=not head)
    ctx.check(cart.code == "".join(x[0] for x in want), "the text is put together wrongly: %r for %r" % (cart.code, code))
    if not want: return
    i = ctx.int("i", 0, len(want) - 1)
    src = CartSource(cart)
    loc = src.get_location(i, tabs=tabbed)
    files = sorted({x[1] for x in want})
    where, skip = [], []
    for ch, name, at in want:
        start, text = (off, code) if name == "main.p8" else code_of(name)
        flat, tabs = place(text, at)
        where.append((files.index(name), tabs[0], tabs[1], tabs[2], start) if tabbed else (files.index(name), 0, flat[0] + start, flat[1], 0))
        skip.append(int(tabbed and in_break(text, at)))
    if tabbed: ctx.assume(skip[i] == 0)
    f, tab, line, col, start = [[w[k] for w in where][i] for k in range(5)]
    got = [k for k, name in enumerate(files) if os.path.realpath(os.path.join(INC, name)) == os.path.realpath(loc.path)]
    ctx.check(len(got) == 1 and f == got[0], "a place of %r is reported in another file" % code)
    if not tabbed: ctx.check(ctx.all([loc.line == line, loc.col == col]), "a place of %r is reported elsewhere" % code)
    # known finding: the lines before the code are added to the line within the tab
    else: ctx.check(ctx.all([loc.tab == tab, loc.col == col, ctx.any([loc.line == line, loc.line == line + start])]), "a place of %r is reported elsewhere" % code)

def in_break(text, at):
    return any(text[s:s + 6] == "\n-->8\n" for s in range(max(at - 5, 0), at + 1))

def line_col(ctx, n, chars):
    """lines and columns of any place in any text"""
    text = ctx.str("text", n, chars=chars)
    i = ctx.int("i", 0, n)
    line, col = get_line_col(text, i)
    want_line, want_col = 0, i
    for k in range(n):
        hit = ctx.all([k < i, text[k] == "\n"])
        want_line = ctx.ite(hit, want_line + 1, want_line)
        want_col = ctx.ite(hit, i - k - 1, want_col)
    ctx.check(ctx.all([line == want_line, col == want_col]), "wrong line or column")

def tab_line(ctx, pre, n, post):
    """tabs, and the lines within"""
    text = pre + ctx.str("text", n, chars="\n->8a") + post
    N = len(text)
    i = ctx.int("i", 0, N)
    tab, line, col = get_tab_line_col(text, i)
    starts = [0]
    k = 0
    while k + 6 <= N:
        if ctx.fork(text[k:k + 6] == "\n-->8\n"):
            ctx.assume(ctx.any([i <= k, i >= k + 6])) # places within the break belong to no tab
            k += 6
            starts.append(k)
        else: k += 1
    want_tab = 0
    for j, s in enumerate(starts[1:], 1): want_tab = ctx.ite(i >= s, j, want_tab)
    want_line, want_col, at = 0, i, 0
    for k in range(N):
        hit = ctx.all([k < i, text[k] == "\n"])
        want_line = ctx.ite(k + 1 in starts and hit, 0, ctx.ite(hit, want_line + 1, want_line)) if k + 1 in starts else ctx.ite(hit, want_line + 1, want_line)
        want_col = ctx.ite(hit, i - k - 1, want_col)
    ctx.check(ctx.all([tab == want_tab, line == want_line, col == want_col]), "wrong tab, line or column")

def directive(ctx, pre, n, chars):
    """an '#include' line after any text is live unless the text leaves a comment or string open"""
    text = pre + ctx.str("s", n, chars=chars)
    code = text + "\n#include b.lua\n"
    # independent reading of the text, as far as it matters
    state, i, N = "code", 0, len(text)
    while i < N:
        c = text[i]
        if ctx.fork(c == "-") and i + 1 < N and ctx.fork(text[i + 1] == "-"):
            i += 2
            lv = opens(ctx, text, i)
            if lv is None:
                while i < N and not ctx.fork(text[i] == "\n"): i += 1
                continue
            i = closes(ctx, text, i + lv + 2, lv)
            if i is None: state = "open"; break
        elif ctx.fork(c == "["):
            lv = opens(ctx, text, i)
            if lv is None: i += 1; continue
            if lv: return ctx.cover("long string with =") # PICO-8 reads those as code here
            i = closes(ctx, text, i + 2, 0)
            if i is None: state = "open"; break
        elif ctx.fork(ctx.any([c == "'", c == '"'])):
            q = c
            i += 1
            while True:
                if i >= N: state = "open"; break
                if ctx.fork(text[i] == q): i += 1; break
                if ctx.fork(text[i] == "\n"): state = "open"; break
                if ctx.fork(text[i] == "\\"): i += 1
                i += 1
            if state == "open": break
        elif ctx.fork(c == "#"): return ctx.cover("another directive")
        else: i += 1
    if state == "open": return ctx.cover("left open") # malformed, or closed by what follows
    out, _ = preprocess_code(MAIN, code)
    ctx.check(len(out) == len(text) + len("\nb1\nb2\n") and out == text + "\nb1\nb2\n", "the include is missed, or the text before it changed")

def opens(ctx, t, i):
    """the level of a long bracket that opens at i"""
    if i >= len(t) or not ctx.fork(t[i] == "["): return None
    k = i + 1
    while k < len(t) and ctx.fork(t[k] == "="): k += 1
    if k < len(t) and ctx.fork(t[k] == "["): return k - i - 1

def closes(ctx, t, i, lv):
    c = "]" + "=" * lv + "]"
    while i + len(c) <= len(t):
        if ctx.fork(t[i:i + len(c)] == c): return i + len(c)
        i += 1

TABBED = ["aaa\n-->8\nbbbb\n-->8\nc", "a\n-->8\n\n-->8\nbb\n\n-->8\nccc\n", "ab"]

def origin(ctx, maps, i):
    """(source, place) that the map gives for place i: the last entry at or before it"""
    src, at = -1, i
    for m in maps:
        hit = m.idx <= i
        src = ctx.ite(hit, int(m.src_path), src)
        at = ctx.ite(hit, m.src_idx + (i - m.idx), at)
    return src, at

def trimmed(ctx, code, tab, n):
    """a tab is included: whatever was put together from which files, places in it are traced to where they came from"""
    at = [0] + [ctx.int("at%d" % k, 0, len(code)) for k in range(1, n)]
    for a, b in zip(at, at[1:]): ctx.assume(a <= b)
    maps = [CodeMapping(a, str(k), "", ctx.int("src%d" % k, 0, 40), 0) for k, a in enumerate(at)]
    cart = Cart(code=code)
    cart.code_map = list(maps)
    start, end = tabs_of(code)[tab]
    trim_cart_to_tab(cart, tab)
    ctx.check(cart.code == code[start:end], "the wrong part is included")
    if end == start: return ctx.cover("empty")
    i = ctx.int("i", 0, end - start - 1)
    was, now = origin(ctx, maps, start + i), origin(ctx, cart.code_map, i)
    ctx.check(ctx.all([was[0] == now[0], was[1] == now[1]]), "a place in a tab is traced to another place than before")

def message(ctx, fmt):
    """what is printed: file, line and column, from 1"""
    line = ctx.int("line", 0, 5); col = ctx.int("col", 0, 5)
    text = "\n" * ctx.concretize(line) + " " * ctx.concretize(col) + "x"
    class T: pass
    t = T(); t.source = Source("f.lua", text); t.idx = len(text) - 1
    out = Error("hm", t).format(getattr(pico_process.ErrorFormat, fmt))
    l, c = ctx.concretize(line) + 1, ctx.concretize(col) + 1
    ctx.check(out.replace(os.path.abspath("f.lua"), "f.lua") == ("f.lua (tab 0, line %d, col %d): hm" % (l, c) if fmt == "tabbed" else "f.lua:%d:%d: hm" % (l, c)), "misprinted: " + out)

def harnesses(tier):
    hs = []
    T = tier == "thorough"
    for tabbed in (False, True):
        hs.append(H(included, params={"n": 1, "heads": HEADS, "tabbed": tabbed}, bounds="every character of carts of 1 line out of %d kinds, 4 headers" % len(LINES)))
        hs.append(H(included, params={"n": 2, "heads": HEADS[:2] if T else HEADS[:1], "tabbed": tabbed}, bounds="every character of carts of 2 lines out of %d kinds" % len(LINES)))
    if T: hs.append(H(included, params={"n": 3, "heads": HEADS[:1], "tabbed": True}, bounds="every character of carts of 3 lines"))
    for n in ((4, 8, 12) if T else (4, 7)): hs.append(H(line_col, params={"n": n, "chars": None}, bounds="every text of %d characters, every place" % n))
    for pre, n, post in (("", 7, ""), ("a\n--", 4, "\n-->8\n"), ("\n-->8", 3, ">8\na"), ("\n-->8\n-->8", 2, "\n-->8\nb\nc")) + ((("", 9, ""), ("\n--", 8, "8\n")) if T else ()):
        hs.append(H(tab_line, params={"pre": pre, "n": n, "post": post}, bounds="every text %r + %d of '\\n->8a' + %r, every place" % (pre, n, post)))
    for pre, n, ch in (("", 4, "-[]'\\\n a"), ("x", 3, None), ("--[[", 4, "]=[-\n"), ("--", 5, "[]=\n'"), ("x='", 4, "'\\\n\"-[]"), ("[", 5, "[]=-\n")) + ((("", 6, "-[]'\n"), ("--[=", 6, "[]=\n-'"), ('"', 5, None)) if T else ()):
        hs.append(H(directive, params={"pre": pre, "n": n, "chars": ch}, bounds="every text %r + %d characters%s before an include" % (pre, n, " of %r" % ch if ch else "")))
    for code in TABBED:
        for tab in range(len(tabs_of(code))): hs.append(H(trimmed, params={"code": code, "tab": tab, "n": 5 if T else 4}, bounds="every %d places at which the source changes, every place in the tab" % (5 if T else 4)))
    for fmt in ("common", "absolute", "tabbed"): hs.append(H(message, params={"fmt": fmt}, bounds="lines and columns 0..5"))
    return hs

TECHNIQUE = "symbolic execution of the preprocessor, the code map and the line/column functions: text and position are solver variables, an independent reading of the text says what is to be replaced and where each character comes from"
OUTSIDE = "includes of images; '//' comments and '[=[' strings before a directive; places within a tab separator"
ASSUMPTIONS = ["a directive is live at the start of a line (after blanks) outside of comments and strings, as in PICO-8's manual"]
META = dict(
    title="Includes are spliced exactly, and every place is traced back to its file",
    statement="Every live #include line - and nothing in a string or comment - is replaced with the code of the file (or of the tab of it) that it names, includes of includes too, and all other text stays as it is. For every character of the combined code, an error or warning there is reported in the file that it came from, with that file's own line (counting the lines before its code) and column, or its tab and the line within the tab.",
    over=["inputs"], text="every sequence of one or two (three) lines out of a list of kinds; every character position; every text of the stated length before a directive",
    why="The tests have one cart with one include at one place; positions are right or wrong per character, file, tab and nesting.",
    files=["pico_preprocess.py", "pico_process.py", "pico_cart.py"],
    mech=[("preprocessor", "pico_preprocess.py: preprocess_code, read_included_cart, trim_cart_to_tab"), ("code map", "pico_process.py: CartSource.get_location, get_line_col, get_tab_line_col")])
