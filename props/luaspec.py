"""Reference semantics of PICO-8 numbers (16.16 fixed point, as in z8lua) and of Lua 5.4 integers.

Written independently of /repo; compared with the lupaz8 runtime by tools/validate_spec.py.
All functions take and return bit patterns (0 .. 2**32-1); comparisons return booleans.
"""
M32 = 0xffffffff
MIN = 0x80000000

def signed(v):
    if v >= 0x80000000:     # a statement, not an expression: the symbolic run splits here
        return v - 0x100000000
    return v

def p8_add(a, b): return (a + b) & M32
def p8_sub(a, b): return (a - b) & M32
def p8_mul(a, b): return ((signed(a) * signed(b)) >> 16) & M32

def p8_div(a, b):
    sa, sb = signed(a), signed(b)
    if b == 0:
        return 0x80000001 if sa < 0 else 0x7fffffff
    neg = (sa < 0) != (sb < 0)
    x = -sa if sa < 0 else sa
    y = -sb if sb < 0 else sb
    q = (x << 16) // y
    if q > 0x7fffffff:
        if b == 0x10000: return a
        return 0x80000001 if neg else 0x7fffffff
    return (-q if neg else q) & M32

def p8_flr(a): return a & 0xffff0000
def p8_ceil(a): return (-((-signed(a)) >> 16) << 16) & M32
def p8_idiv(a, b): return p8_flr(p8_div(a, b))

def p8_mod(a, b):
    sb = signed(b)
    if b == 0: return 0
    y = -sb if sb < 0 else sb
    return (signed(a) % y) & M32

def p8_neg(a): return (-a) & M32
def p8_abs(a):
    s = signed(a)
    if s == -0x80000000: return 0x7fffffff
    return (-s if s < 0 else s) & M32

def _count(b):
    """the integer part of a shift count"""
    return signed(b) >> 16

def p8_shl(a, b):
    s = signed(b)
    if s < 0: return p8_lshr(a, p8_negcount(b))
    n = s >> 16
    if n >= 32: return 0
    return (a << n) & M32
def p8_negcount(b):
    # the negated count; the most negative one stays a large count
    s = -signed(b)
    return 0x7fffffff if s > 0x7fffffff else s
def p8_shr(a, b):
    s = signed(b)
    if s < 0: return p8_shl(a, p8_negcount(b))
    n = s >> 16
    return (signed(a) >> (n if n < 32 else 32)) & M32
def p8_lshr(a, b):
    s = signed(b)
    if s < 0: return p8_shl(a, p8_negcount(b))
    n = s >> 16
    if n >= 32: return 0
    return a >> n
def p8_rotl(a, b):
    n = (signed(b) >> 16) & 31
    return ((a << n) | (a >> (32 - n))) & M32
def p8_rotr(a, b):
    n = (signed(b) >> 16) & 31
    return ((a >> n) | (a << (32 - n))) & M32
def p8_and(a, b): return a & b
def p8_or(a, b): return a | b
def p8_xor(a, b): return a ^ b
def p8_not(a): return a ^ M32
def p8_eq(a, b): return a == b
def p8_ne(a, b): return a != b
def p8_lt(a, b): return signed(a) < signed(b)
def p8_le(a, b): return signed(a) <= signed(b)
def p8_gt(a, b): return signed(a) > signed(b)
def p8_ge(a, b): return signed(a) >= signed(b)
def p8_max(a, b): return a if signed(a) > signed(b) else b
def p8_min(a, b): return a if signed(a) < signed(b) else b
def p8_mid(a, b, c):
    x, y, z = signed(a), signed(b), signed(c)
    if (x <= y and y <= z) or (z <= y and y <= x): return b
    if (y <= x and x <= z) or (z <= x and x <= y): return a
    return c

P8_BIN = {"+": p8_add, "-": p8_sub, "*": p8_mul, "/": p8_div, "\\": p8_idiv, "%": p8_mod,
          "&": p8_and, "|": p8_or, "^^": p8_xor, "~": p8_xor, "<<": p8_shl, ">>": p8_shr, ">>>": p8_lshr,
          "<<>": p8_rotl, ">><": p8_rotr}
P8_CMP = {"==": p8_eq, "!=": p8_ne, "~=": p8_ne, "<": p8_lt, "<=": p8_le, ">": p8_gt, ">=": p8_ge}
P8_UN = {"-": p8_neg, "~": p8_not}
P8_GLOB = {"abs": (p8_abs, 1), "band": (p8_and, 2), "bnot": (p8_not, 1), "bor": (p8_or, 2), "bxor": (p8_xor, 2),
           "ceil": (p8_ceil, 1), "flr": (p8_flr, 1), "lshr": (p8_lshr, 2), "max": (p8_max, 2), "min": (p8_min, 2),
           "mid": (p8_mid, 3), "rotl": (p8_rotl, 2), "rotr": (p8_rotr, 2), "shl": (p8_shl, 2), "shr": (p8_shr, 2)}

# Lua 5.4 integers (signed values)
B64 = 1 << 64
def i64(v):
    v = v & (B64 - 1)
    if v >= (1 << 63): return v - B64
    return v
def u64(v): return v & (B64 - 1)
def l_add(a, b): return i64(a + b)
def l_sub(a, b): return i64(a - b)
def l_mul(a, b): return i64(a * b)
def l_idiv(a, b): return i64(a // b)
def l_mod(a, b): return a % b
def l_and(a, b): return i64(u64(a) & u64(b))
def l_or(a, b): return i64(u64(a) | u64(b))
def l_xor(a, b): return i64(u64(a) ^ u64(b))
def l_shl(a, b):
    if b <= -64 or b >= 64: return 0
    if b >= 0: return i64(u64(a) << b)
    return i64(u64(a) >> -b)
def l_shr(a, b):
    if b <= -64 or b >= 64: return 0
    if b >= 0: return i64(u64(a) >> b)
    return i64(u64(a) << -b)
def l_neg(a): return i64(-a)
def l_not(a): return i64(u64(a) ^ (B64 - 1))
LUA_BIN = {"+": l_add, "-": l_sub, "*": l_mul, "//": l_idiv, "\\": l_idiv, "%": l_mod, "&": l_and, "|": l_or, "~": l_xor, "^^": l_xor,
           "<<": l_shl, ">>": l_shr}
LUA_CMP = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "~=": lambda a, b: a != b, "<": lambda a, b: a < b,
           "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}
