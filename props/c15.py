"""C15: constant folding computes what the target Lua computes"""
from sym.ctx import H
import pico_process
from pico_defs import Language
import pico_constfold as cf
from pico_constfold import LuaFixnum, LuaInteger, LuaString, LuaBoolean, LuaNil
import luaspec as sp

def bits(ctx, name): return ctx.int(name, 0, 0xffffffff)

def result_ok(ctx, r, want, boolean, name):
    if r is None: return
    ctx.cover("folded")
    if boolean:
        ctx.check(r.type == cf.LuaType.boolean, "result of %s has the wrong type" % name)
        ctx.check(ctx.eq(r.value, want), "%s folds to a wrong boolean" % name)
    else:
        ctx.check(r.type == cf.LuaType.fixnum, "result of %s has the wrong type" % name)
        ctx.check(ctx.eq(r.value, want), "%s folds to a wrong number" % name)

def p8_bin(ctx, op):
    a, b = bits(ctx, "a"), bits(ctx, "b")
    f = cf.k_const_binary_ops.get(op)
    if f is None: return
    r = f(Language.pico8, LuaFixnum(a), LuaFixnum(b))
    spec = sp.P8_CMP.get(op) or sp.P8_BIN.get(op)
    result_ok(ctx, r, spec(a, b), op in sp.P8_CMP, "a %s b" % op)

def p8_un(ctx, op):
    a = bits(ctx, "a")
    f = cf.k_const_unary_ops.get(op)
    if f is None: return
    r = f(Language.pico8, LuaFixnum(a))
    if op == "not": return result_ok(ctx, r, False, True, "not a")
    result_ok(ctx, r, sp.P8_UN[op](a), False, op)

def p8_glob(ctx, name):
    ent = cf.k_const_globals.get(name)
    if ent is None: return
    spec, n = sp.P8_GLOB[name]
    if ent[1] != n: return
    args = [bits(ctx, "abc"[i]) for i in range(n)]
    r = ent[0](Language.pico8, *[LuaFixnum(a) for a in args])
    result_ok(ctx, r, spec(*args), False, name)

def i64(ctx, name): return ctx.int(name, -(1 << 63), (1 << 63) - 1)

DIVISORS = [-(1 << 63), -(1 << 32), -2, -1, 1, 2, 4, 256, 1 << 62]

def lua_bin(ctx, op, rng="full"):
    if rng == "full": a, b = i64(ctx, "a"), i64(ctx, "b")
    elif rng == "small": a, b = ctx.int("a", -2048, 2047), ctx.int("b", -64, 63)
    else: a, b = i64(ctx, "a"), ctx.choice("b", DIVISORS)
    f = cf.k_const_binary_ops.get(op)
    if f is None: return
    r = f(Language.picotron, LuaInteger(a), LuaInteger(b))
    if r is None: return
    ctx.cover("folded")
    if op in sp.LUA_CMP:
        ctx.check(r.type == cf.LuaType.boolean, "type of a %s b" % op)
        ctx.check(ctx.eq(r.value, sp.LUA_CMP[op](a, b)), "a %s b folds to a wrong boolean (picotron)" % op)
    else:
        ctx.check(r.type == cf.LuaType.integer, "type of a %s b" % op)
        ctx.check(ctx.eq(r.value, sp.LUA_BIN[op](a, b)), "a %s b folds to a wrong integer (picotron)" % op)

def lua_un(ctx, op):
    a = i64(ctx, "a")
    r = cf.k_const_unary_ops[op](Language.picotron, LuaInteger(a))
    if r is None: return
    ctx.cover("folded")
    ctx.check(r.type == cf.LuaType.integer, "type")
    ctx.check(ctx.eq(r.value, sp.l_neg(a) if op == "-" else sp.l_not(a)), "%s a folds to a wrong integer (picotron)" % op)

def lua_glob(ctx, name):
    ent = cf.k_const_globals.get(name)
    if ent is None: return
    n = {"abs": 1, "ceil": 1, "flr": 1, "max": 2, "min": 2, "mid": 3}[name]
    if ent[1] != n: return
    args = [i64(ctx, "abc"[i]) for i in range(n)]
    r = ent[0](Language.picotron, *[LuaInteger(a) for a in args])
    if r is None: return
    ctx.cover("folded")
    ctx.check(r.type == cf.LuaType.integer, "type")
    a = args[0]
    if name == "abs": want = sp.i64(-a if a < 0 else a)
    elif name in ("ceil", "flr"): want = a
    elif name == "max": want = a if a > args[1] else args[1]
    elif name == "min": want = a if a < args[1] else args[1]
    else:
        b, c = args[1:]
        want = b if (a <= b and b <= c) or (c <= b and b <= a) else a if (b <= a and a <= c) or (c <= a and a <= b) else c
    ctx.check(ctx.eq(r.value, want), "%s folds to a wrong integer (picotron)" % name)

def mk_value(ctx, name, kind, small=0):
    if kind == "nil": return LuaNil(), ("nil", None)
    if kind == "bool":
        v = ctx.fork(ctx.bool(name)); return LuaBoolean(v), ("bool", v)
    if kind == "num":
        v = bits(ctx, name) if not small else ctx.int(name, -small, small) * 65536 + ctx.int(name + "f", 0, 1) & 0xffffffff
        return LuaFixnum(v), ("num", v)
    n = ctx.choice(name + "len", [0, 1, 2])
    v = ctx.str(name, n)
    return LuaString(v), ("str", v)

def truthy(v): return not (v[0] == "nil" or (v[0] == "bool" and not v[1]))

def kinds(ctx, op):
    """logical, equality, ordering and concatenation operators over all pairs of value kinds"""
    ka = ctx.choice("ka", ["nil", "bool", "num", "str"]); kb = ctx.choice("kb", ["nil", "bool", "num", "str"])
    small = 0 if op != ".." else 12 if ka == kb else 120
    a, sa = mk_value(ctx, "a", ka, small); b, sb = mk_value(ctx, "b", kb, small)
    r = cf.k_const_binary_ops[op](Language.pico8, a, b)
    if r is None: return
    ctx.cover("folded")
    if op in ("and", "or"):
        pick = (b if truthy(sa) else a) if op == "and" else (a if truthy(sa) else b)
        ctx.check(r.type == pick.type and ctx.eq(r.value, pick.value), "%s picks the wrong operand" % op)
    elif op in ("==", "!=", "~="):
        same = ka == kb and ctx.eq(sa[1], sb[1])
        if op != "==": same = not same
        ctx.check(ctx.eq(r.value, same), "%s over values of mixed types" % op)
    elif op == "..":
        if ka in ("nil", "bool") or kb in ("nil", "bool"):
            ctx.check(False, ".. folds operands that raise at run time")
        ctx.check(r.type == cf.LuaType.string, "type of ..")
        want = [tostr(ctx, s) for s in (sa, sb)]
        ctx.check(ctx.eq(r.value, want[0] + want[1]), ".. concatenates wrongly")
    else:   # ordering
        ctx.check(ka == kb and ka in ("num", "str"), "%s folds operands that raise at run time" % op)
        if ka == "num": want = sp.P8_CMP[op](sa[1], sb[1])
        else: want = {"<": lambda x, y: x < y, "<=": lambda x, y: x <= y, ">": lambda x, y: y < x, ">=": lambda x, y: y <= x}[op](sa[1], sb[1])
        ctx.check(ctx.eq(r.value, want), "%s folds wrongly" % op)

def tostr(ctx, s):
    if s[0] == "str": return s[1]
    v = s[1]
    ctx.check((v & 0xffff) == 0, ".. folds a number whose text is not settled")
    return "%d" % (sp.signed(v) >> 16)

def not_len(ctx, kind):
    a, sa = mk_value(ctx, "a", kind)
    r = cf.k_const_unary_ops["not"](Language.pico8, a)
    if r is not None:
        ctx.cover("folded")
        ctx.check(ctx.eq(r.value, not truthy(sa)), "not folds wrongly")
    r = cf.k_const_unary_ops["#"](Language.pico8, a)
    if r is not None:
        ctx.check(kind == "str", "# folds a value without a length")
        ctx.check(ctx.eq(r.value, len(sa[1]) << 16), "# folds wrongly")

def harnesses(tier):
    hs = []
    for op in list(sp.P8_BIN) + list(sp.P8_CMP):
        hs.append(H(p8_bin, params={"op": op}, bounds="all pairs of 32-bit fixed-point operands"))
    for op in ("-", "~", "not"): hs.append(H(p8_un, params={"op": op}, bounds="all 32-bit operands"))
    for g in sp.P8_GLOB: hs.append(H(p8_glob, params={"name": g}, bounds="all 32-bit operands"))
    for op in list(sp.LUA_BIN) + list(sp.LUA_CMP):
        if op == "//": continue
        if op in "\\%":
            hs.append(H(lua_bin, params={"op": op, "rng": "divisors"}, bounds="all 64-bit dividends, divisors among %s" % DIVISORS))
            hs.append(H(lua_bin, params={"op": op, "rng": "small"}, bounds="dividends of 12 bits, divisors of 7 bits"))
        else:
            hs.append(H(lua_bin, params={"op": op}, bounds="all pairs of 64-bit integers"))
    for op in ("-", "~"): hs.append(H(lua_un, params={"op": op}, bounds="all 64-bit integers"))
    for g in ("abs", "ceil", "flr", "max", "min", "mid"): hs.append(H(lua_glob, params={"name": g}, bounds="all 64-bit integers"))
    for op in ("and", "or", "==", "!=", "<", "<=", ">", ">=", ".."):
        hs.append(H(kinds, params={"op": op}, bounds="nil, booleans, all 32-bit numbers (for '..': whole or not, at most 120 in magnitude), strings of 0..2 chars"))
    for k in ("nil", "bool", "num", "str"): hs.append(H(not_len, params={"kind": k}, bounds="strings of 0..2 chars"))
    return hs

TECHNIQUE = "symbolic execution of the folding functions over 32/64-bit bit-vectors; z3 decides equality with reference arithmetic"
OUTSIDE = "picotron float operands; strings longer than 2 chars; multiplication by values is compared as equal product terms"
ASSUMPTIONS = ["luaspec.py is the reference semantics (validated against the lupaz8 PICO-8 runtime by tools/validate_spec.py)"]
META = dict(
    title="Constant folding computes the value the console would",
    statement="Whenever the minifier replaces a constant expression (arithmetic, bitwise, shift, comparison, logical, concatenation, length or a foldable math builtin over literals) by its value, that value is exactly the one the target runtime computes: PICO-8's 32-bit 16.16 fixed point with wrap-around and its division/modulo rules, or Picotron's 64-bit integers. Expressions whose evaluation raises an error or whose value is not settled at build time are left alone.",
    over=["inputs"], text="every operator and foldable builtin, every pair of operand values of the type",
    why="The tests fold a few dozen hand-picked constants; the mistakes hide in particular operand pairs (sign, overflow, shift counts, division remainders) among 2^64 of them.",
    files=["pico_constfold.py"], mech=[("fixed-point and 64-bit operator tables", "pico_constfold.py: k_const_*_ops, k_const_globals"), ("wrapping", "pico_constfold.py: fixnum and 64-bit helpers")])
