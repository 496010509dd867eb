"""compares the reference arithmetic of props/luaspec.py with the lupaz8 PICO-8 runtime on sampled operands (run with /opt/venv/bin/python)"""
import sys, os, random, itertools
sys.path[:0] = [os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), d) for d in ("props", "")]
sys.dont_write_bytecode = True
from lupaz8 import luaz8
rt = luaz8.LuaRuntime(encoding="latin-1", source_encoding="latin-1")
import luaspec as sp
def lit(v): return "0x%x.%04x" % (v >> 16, v & 0xffff)
def fx(s):
    v = rt.eval(s)
    return v if isinstance(v, bool) else int(round(v * 65536)) & 0xffffffff
rnd = random.Random(int(os.environ.get("VERIF_SEED", "1")))
vals = [0, 1, 0x10000, 0xffff0000, 0x80000000, 0x7fffffff, 0x7fff0000, 0x80000001, 0x18000, 0xffff8000, 0x200000, 0x1f0000, 0x210000, 0xffe00000, 0xffff, 0x20000, 0x30000, 0xfffd0000, 0xffffffff, 0x40000000]
vals += [rnd.getrandbits(32) for _ in range(20)] + [rnd.getrandbits(5) << 16 for _ in range(6)]
bad = n = 0
for op, f in list(sp.P8_BIN.items()) + list(sp.P8_CMP.items()):
    for a, b in itertools.product(vals, vals):
        # what is never folded (c15.py checks only what is)
        if op in ("<<", ">>", ">>>", "<<>", ">><", "%") and (b == 0x80000000 or (op != "%" and b & 0xffff)): continue
        w = f(a, b)
        if w is None: continue
        n += 1
        g = fx("(%s)%s(%s)" % (lit(a), op, lit(b)))
        if g != w:
            bad += 1
            if bad < 10: print("differs", op, hex(a), hex(b), w, g)
print(n, "compared", bad, "differ")
sys.exit(bad != 0)
