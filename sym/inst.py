"""AST instrumentation of the modules under /repo (and of the harness modules)"""
import ast, sys, os, importlib.abc, importlib.util, types

H = "_zs_"
CMP = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.In: "in", ast.NotIn: "notin", ast.Is: "is", ast.IsNot: "isnot"}

PURE_METHODS = {"isdigit", "isalpha", "isalnum", "isspace", "startswith", "endswith", "isupper", "islower", "isidentifier"}
PURE_FUNCS = {"len", "ord", "isinstance"}

def simple(e):
    """evaluating e has no effects (it may fail: the helpers then fall back on short-circuit evaluation)"""
    if isinstance(e, (ast.Name, ast.Constant)): return True
    if isinstance(e, ast.UnaryOp): return simple(e.operand)
    if isinstance(e, ast.BinOp): return simple(e.left) and simple(e.right)
    if isinstance(e, ast.Attribute): return simple(e.value)
    if isinstance(e, (ast.Tuple, ast.List, ast.Set)): return all(simple(x) for x in e.elts)
    if isinstance(e, ast.Call) and not e.keywords and all(simple(a) for a in e.args):
        if isinstance(e.func, ast.Name) and e.func.id in PURE_FUNCS: return True
        if isinstance(e.func, ast.Attribute) and e.func.attr in PURE_METHODS: return simple(e.func.value)
    return False

def simple_cond(e):
    if isinstance(e, ast.Compare): return all(simple(x) for x in [e.left] + e.comparators)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not): return simple_cond(e.operand)
    if isinstance(e, ast.BoolOp): return all(simple_cond(x) for x in e.values)
    if isinstance(e, ast.Call): return simple(e)
    return False

def thunk(e):
    return ast.Lambda(ast.arguments([], [], None, [], [], None, []), e)

def helper(name, *args):
    return ast.Call(ast.Attribute(ast.Name(H, ast.Load()), name, ast.Load()), list(args), [])

SKIP_CALL = {"super", "locals", "globals", "vars", "dir", "eval", "NameError", "Exception", "ValueError"}

class Tr(ast.NodeTransformer):
    def __init__(s, modname, record):
        s.mod, s.record, s.stack, s.cls, s.scope = modname, record, [], [], []

    def visit_FunctionDef(s, n):
        s.stack.append(n.name)
        s.scope.append("f")
        n.decorator_list = [s.visit(d) for d in n.decorator_list]
        n.args.defaults = [s.visit(d) for d in n.args.defaults]
        n.args.kw_defaults = [s.visit(d) if d is not None else None for d in n.args.kw_defaults]
        body = [s.visit(x) for x in n.body]
        out = []
        for x in body: out.extend(x if isinstance(x, list) else [x])
        if s.record:
            i = 1 if out and isinstance(out[0], ast.Expr) and isinstance(out[0].value, ast.Constant) and isinstance(out[0].value.value, str) else 0
            name = s.mod + "." + ".".join(x for x in s.stack)
            out.insert(i, ast.Expr(helper("enter", ast.Constant(name))))
        n.body = out
        s.stack.pop()
        s.scope.pop()
        return n
    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(s, n):
        s.stack.append(n.name)
        s.cls.append(n.name)
        s.scope.append("c")
        n.bases = [ast.Attribute(ast.Name(H, ast.Load()), "bytearray_", ast.Load()) if isinstance(b, ast.Name) and b.id == "bytearray" else s.visit(b) for b in n.bases]
        n.keywords = [s.visit(k) for k in n.keywords]
        n.decorator_list = [s.visit(d) for d in n.decorator_list]
        out = []
        for x in n.body:
            x = s.visit(x)
            out.extend(x if isinstance(x, list) else [x])
        n.body = out
        s.stack.pop()
        s.cls.pop()
        s.scope.pop()
        return n

    def visit_AnnAssign(s, n):
        if n.value is not None: n.value = s.visit(n.value)
        if not isinstance(n.target, ast.Name): n.target = s.visit(n.target)
        return n

    def visit_Compare(s, n):
        n.left = s.visit(n.left)
        n.comparators = [s.visit(c) for c in n.comparators]
        if len(n.ops) == 1:
            if isinstance(n.ops[0], ast.In): return helper("contains", n.comparators[0], n.left)
            if isinstance(n.ops[0], ast.NotIn): return helper("not_contains", n.comparators[0], n.left)
            return n
        if all(isinstance(c, (ast.Name, ast.Constant)) for c in n.comparators):
            args = [n.left]
            for o, c in zip(n.ops, n.comparators):
                args += [ast.Constant(CMP[type(o)]), c]
            return helper("cmp_chain", *args)
        if any(isinstance(o, (ast.In, ast.NotIn)) for o in n.ops):
            args = [n.left]
            for o, c in zip(n.ops, n.comparators):
                args += [ast.Constant(CMP[type(o)]), c]
            return helper("cmp_chain", *args)
        return n

    def visit_BoolOp(s, n):
        ok = all(simple_cond(v) for v in n.values[1:]) and not (s.scope and s.scope[-1] == "c")
        n.values = [s.visit(v) for v in n.values]
        if ok:
            return helper("bool_and" if isinstance(n.op, ast.And) else "bool_or", n.values[0], *[thunk(v) for v in n.values[1:]])
        return n

    def visit_UnaryOp(s, n):
        n.operand = s.visit(n.operand)
        if isinstance(n.op, ast.Not): return helper("lnot", n.operand)
        return n

    def visit_IfExp(s, n):
        ok = simple(n.body) and simple(n.orelse)
        s.generic_visit(n)
        if ok and not s.in_class_body(): return helper("ifexp_t", n.test, thunk(n.body), thunk(n.orelse))
        return n

    def visit_BinOp(s, n):
        s.generic_visit(n)
        if isinstance(n.op, ast.Mod): return helper("mod", n.left, n.right)
        return n

    def visit_Subscript(s, n):
        s.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and not isinstance(n.slice, ast.Slice):
            return helper("getitem", n.value, n.slice)
        return n

    def _target(s, t):
        return isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice)

    def visit_Assign(s, n):
        if len(n.targets) == 1 and s._target(n.targets[0]):
            t = n.targets[0]
            # python evaluates the value first
            return ast.Expr(ast.Call(ast.Attribute(ast.Name(H, ast.Load()), "setitem_v", ast.Load()), [s.visit(n.value), s.visit(t.value), s.visit(t.slice)], []))
        s.generic_visit(n)
        return n

    def visit_AugAssign(s, n):
        if s._target(n.target):
            t = n.target
            opname = type(n.op).__name__
            lam = ast.Lambda(ast.arguments([], [], None, [], [], None, []), s.visit(n.value))
            if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)) for x in ast.walk(n.value)) or s.in_class_body():
                s.generic_visit(n)
                return n
            return ast.Expr(helper("augitem", s.visit(t.value), s.visit(t.slice), ast.Constant(opname), lam))
        s.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.target, ast.Name):
            return ast.Assign([ast.Name(n.target.id, ast.Store())], helper("mod", ast.Name(n.target.id, ast.Load()), n.value))
        return n

    def in_class_body(s): return bool(s.scope) and s.scope[-1] == "c"

    def visit_Delete(s, n):
        out = []
        for t in n.targets:
            if s._target(t):
                out.append(ast.Expr(helper("delitem", s.visit(t.value), s.visit(t.slice))))
            else:
                out.append(ast.Delete([s.visit(t)]))
        return out

    def visit_JoinedStr(s, n):
        return s._joined(n)

    def _joined(s, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant): parts.append(v)
            else:
                spec = s._joined(v.format_spec) if v.format_spec is not None else ast.Constant("")
                parts.append(ast.Tuple([s.visit(v.value), ast.Constant(v.conversion), spec], ast.Load()))
        return helper("fstr", *parts)

    def visit_Dict(s, n):
        s.generic_visit(n)
        if not n.keys or any(k is None for k in n.keys) or all(isinstance(k, ast.Constant) for k in n.keys): return n
        return helper("mkdict", ast.List([ast.Tuple([k, v], ast.Load()) for k, v in zip(n.keys, n.values)], ast.Load()))

    def visit_DictComp(s, n):
        s.generic_visit(n)
        return helper("mkdict", ast.ListComp(ast.Tuple([n.key, n.value], ast.Load()), n.generators))

    def visit_SetComp(s, n):
        s.generic_visit(n)
        return helper("mkset", ast.ListComp(n.elt, n.generators))

    def visit_Set(s, n):
        s.generic_visit(n)
        if all(isinstance(k, ast.Constant) for k in n.elts): return n
        return helper("mkset", ast.List(n.elts, ast.Load()))

    def visit_Call(s, n):
        if isinstance(n.func, ast.Name) and n.func.id in SKIP_CALL:
            n.args = [s.visit(a) for a in n.args]
            n.keywords = [s.visit(k) for k in n.keywords]
            return n
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call) and isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == "super":
            n.args = [s.visit(a) for a in n.args]
            n.keywords = [s.visit(k) for k in n.keywords]
            return n
        args = [s.visit(a) for a in n.args]
        kws = [s.visit(k) for k in n.keywords]
        if isinstance(n.func, ast.Attribute):
            return ast.Call(ast.Attribute(ast.Name(H, ast.Load()), "callm", ast.Load()), [s.visit(n.func.value), ast.Constant(s.mangle(n.func.attr))] + args, kws)
        return ast.Call(ast.Attribute(ast.Name(H, ast.Load()), "call", ast.Load()), [s.visit(n.func)] + args, kws)

    def mangle(s, a):
        if s.cls and a.startswith("__") and not a.endswith("__"): return "_%s%s" % (s.cls[-1].lstrip("_"), a)
        return a

    def visit_arguments(s, n):
        return n

def compile_source(src, filename, mode="exec", modname="", record=False):
    tree = ast.parse(src, filename, mode)
    tree = Tr(modname, record).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, mode, dont_inherit=True)

class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(s, roots, record_roots):
        s.roots = roots
        s.record_roots = record_roots
    def find_spec(s, name, path=None, target=None):
        if "." in name: return None
        for r in s.roots:
            f = os.path.join(r, name + ".py")
            if os.path.isfile(f):
                spec = importlib.util.spec_from_file_location(name, f, loader=s)
                return spec
        return None
    def create_module(s, spec): return None
    def exec_module(s, mod):
        from . import rt
        fn = mod.__spec__.origin
        with open(fn, encoding="utf-8") as f: src = f.read()
        mod.__dict__[H] = rt
        code = compile_source(src, fn, "exec", mod.__name__, os.path.dirname(fn) in s.record_roots)
        exec(code, mod.__dict__)

def install(roots, record_roots=()):
    f = Finder([os.path.abspath(r) for r in roots], [os.path.abspath(r) for r in record_roots])
    sys.meta_path.insert(0, f)
    return f
