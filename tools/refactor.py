#!/usr/bin/env python3
"""Behaviour-preserving rewrites of the whole package; every check has to stay quiet on each.
   refactor.py [-t T1,T2..] [PID ...]      (needs nothing but a scratch copy of ticdat/)"""
import ast, os, shutil, subprocess, sys, tempfile, copy
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa import registry


def has_yield(fn):
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


def doc(body):
    return 1 if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and \
        isinstance(body[0].value.value, str) else 0


class Noop(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        i = doc(n.body)
        n.body[i:i] = ast.parse("_unused_marker = 0").body
        return n


class Invert(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n


class RetTemp(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        return n

    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Constant, ast.Name)):
            return n
        return [ast.Assign([ast.Name("_returned", ast.Store())], n.value), ast.Return(ast.Name("_returned", ast.Load()))]


class AndSplit(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
            inner = n.body
            for v in reversed(n.test.values):
                inner = [ast.If(v, inner, [])]
            return inner[0]
        return n


class VerifyRaise(ast.NodeTransformer):
    def __init__(self, mod):
        self.ok = "TicDatError" in ast.dump(mod) and mod_imports(mod, "TicDatError") and not mod_defines(mod, "verify")

    def visit_Expr(self, n):
        v = n.value
        if self.ok and isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "verify" and len(v.args) == 2:
            return ast.If(ast.UnaryOp(ast.Not(), v.args[0]),
                          [ast.Raise(ast.Call(ast.Name("TicDatError", ast.Load()), [v.args[1]], []), None)], [])
        return n


def mod_imports(mod, name):
    return any(isinstance(s, ast.ImportFrom) and any(a.name == name for a in s.names) for s in mod.body)


def mod_defines(mod, name):
    return any(isinstance(s, ast.FunctionDef) and s.name == name for s in mod.body)


class IfExpStmt(ast.NodeTransformer):
    def visit_Assign(self, n):
        if isinstance(n.value, ast.IfExp):
            v = n.value
            return ast.If(v.test, [ast.Assign(copy.deepcopy(n.targets), v.body)], [ast.Assign(copy.deepcopy(n.targets), v.orelse)])
        return n

    def visit_Return(self, n):
        if isinstance(n.value, ast.IfExp):
            v = n.value
            return [ast.If(v.test, [ast.Return(v.body)], []), ast.Return(v.orelse)]
        return n


class EarlyReturn(ast.NodeTransformer):
    """if c: return a  /  return b   ->  if c: r = a else: r = b; return r"""
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if len(n.body) >= 2 and isinstance(n.body[-1], ast.Return) and isinstance(n.body[-2], ast.If) and \
                not n.body[-2].orelse and len(n.body[-2].body) == 1 and isinstance(n.body[-2].body[0], ast.Return) and \
                not has_yield(n):
            a, b = n.body[-2].body[0].value, n.body[-1].value
            nm = lambda c: ast.Name("_outcome", c)
            n.body[-2:] = [ast.If(n.body[-2].test, [ast.Assign([nm(ast.Store())], a or ast.Constant(None))],
                                  [ast.Assign([nm(ast.Store())], b or ast.Constant(None))]), ast.Return(nm(ast.Load()))]
        return n


class LoopComp(ast.NodeTransformer):
    """x = [e for a in b if c]  ->  explicit loop (single generator, list/dict/set)"""
    def fix(self, n, val, mk):
        if isinstance(val, (ast.ListComp, ast.DictComp, ast.SetComp)) and len(val.generators) == 1 and \
                not val.generators[0].is_async:
            g = val.generators[0]
            tgts = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            # fresh names so that enclosing variables are not clobbered
            class Ren(ast.NodeTransformer):
                def visit_Name(self, m):
                    if m.id in tgts:
                        m.id = "_lc_" + m.id
                    return m
            if any(isinstance(x, (ast.Lambda, ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp))
                   for x in ast.walk(val) if x is not val):
                return None
            val = copy.deepcopy(val)
            g = val.generators[0]
            g.target = Ren().visit(g.target)
            g.ifs = [Ren().visit(i) for i in g.ifs]
            acc = ast.Name("_collected", ast.Load())
            if isinstance(val, ast.ListComp):
                init = ast.List([], ast.Load())
                step = ast.Expr(ast.Call(ast.Attribute(acc, "append", ast.Load()), [Ren().visit(val.elt)], []))
            elif isinstance(val, ast.SetComp):
                init = ast.Call(ast.Name("set", ast.Load()), [], [])
                step = ast.Expr(ast.Call(ast.Attribute(acc, "add", ast.Load()), [Ren().visit(val.elt)], []))
            else:
                init = ast.Dict([], [])
                step = ast.Assign([ast.Subscript(acc, Ren().visit(val.key), ast.Store())], Ren().visit(val.value))
            body = [step]
            for i in reversed(g.ifs):
                body = [ast.If(i, body, [])]
            return [ast.Assign([ast.Name("_collected", ast.Store())], init),
                    ast.For(g.target, g.iter, body, []), mk(ast.Name("_collected", ast.Load()))]
        return None

    def visit_ClassDef(self, n):
        n.body = [self.visit(s) if isinstance(s, (ast.FunctionDef, ast.ClassDef)) else s for s in n.body]
        return n

    def visit_Module(self, n):
        n.body = [self.visit(s) if isinstance(s, (ast.FunctionDef, ast.ClassDef)) else s for s in n.body]
        return n

    def visit_Assign(self, n):
        return self.fix(n, n.value, lambda v: ast.Assign(n.targets, v)) or n

    def visit_Return(self, n):
        return self.fix(n, n.value, ast.Return) or n


class Extract(ast.NodeTransformer):
    """def m(self, a, b=1): body  ->  def m(self, a, b=1): return self._do_m(a, b)   + def _do_m(self, a, b): body"""
    def visit_ClassDef(self, n):
        out = []
        for s in n.body:
            out.append(s)
            if isinstance(s, ast.FunctionDef) and not s.decorator_list and not s.args.vararg and not s.args.kwarg and \
                    not s.args.kwonlyargs and not s.args.posonlyargs and s.args.args and s.args.args[0].arg == "self" and \
                    not s.name.startswith("__") and not has_yield(s) and len(s.body) > 2 and \
                    not any(isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(s)):
                new = ast.FunctionDef("_do" + ("" if s.name.startswith("_") else "_pub_") + s.name, ast.arguments([], [ast.arg(a.arg) for a in s.args.args], None, [], [], None, []),
                                      s.body[doc(s.body):], [], None)
                call = ast.Call(ast.Attribute(ast.Name("self", ast.Load()), new.name, ast.Load()),
                                [ast.Name(a.arg, ast.Load()) for a in s.args.args[1:]], [])
                s.body = s.body[:doc(s.body)] + [ast.Return(call)]
                out.append(new)
        n.body = out
        return n


class ArgTemp(ast.NodeTransformer):
    """f(g(x), y) as a statement -> t = g(x); f(t, y) (calls in first argument position only)"""
    def visit_Expr(self, n):
        v = n.value
        if isinstance(v, ast.Call) and v.args and isinstance(v.args[0], (ast.Call, ast.BinOp, ast.Tuple)) and \
                isinstance(v.func, (ast.Attribute,)) and isinstance(v.func.value, ast.Name):
            t = ast.Name("_first_arg", ast.Store())
            a = v.args[0]
            v.args[0] = ast.Name("_first_arg", ast.Load())
            return [ast.Assign([t], a), n]
        return n


class ForIter(ast.NodeTransformer):
    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, (ast.Call, ast.BinOp)):
            it = n.iter
            n.iter = ast.Name("_over", ast.Load())
            return [ast.Assign([ast.Name("_over", ast.Store())], it), n]
        return n

    def visit_ClassDef(self, n):
        n.body = [self.visit(s) if isinstance(s, (ast.FunctionDef, ast.ClassDef)) else s for s in n.body]
        return n

    def visit_Module(self, n):
        n.body = [self.visit(s) if isinstance(s, (ast.FunctionDef, ast.ClassDef)) else s for s in n.body]
        return n


class Unparse(ast.NodeTransformer):
    pass


class NotIn(ast.NodeTransformer):
    """len(x) == 0 style and comparison flips: a == b -> b == a (both plain)"""
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Eq, ast.NotEq)):
            n.left, n.comparators[0] = n.comparators[0], n.left
        elif len(n.ops) == 1 and isinstance(n.ops[0], ast.Gt):
            return ast.Compare(n.comparators[0], [ast.Lt()], [n.left])
        return n


class DeMorgan(ast.NodeTransformer):
    def visit_BoolOp(self, n):
        self.generic_visit(n)
        if not all(isinstance(v, (ast.Compare, ast.UnaryOp)) for v in n.values):
            return n
        op = ast.And() if isinstance(n.op, ast.Or) else ast.Or()
        return ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in n.values]))


class AssertVerify(ast.NodeTransformer):
    """if not c: raise X(m)  ->  if c: pass else: raise X(m)"""
    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse and isinstance(n.test, ast.UnaryOp) and isinstance(n.test.op, ast.Not):
            return ast.If(n.test.operand, [ast.Pass()], n.body)
        return n


class RenameLocals(ast.NodeTransformer):
    """rename the plain local variables (not parameters) of every top-level function / method without nested scopes"""
    def visit_FunctionDef(self, n):
        inner = [x for x in ast.walk(n) if x is not n and isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef))]
        if inner or any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in ast.walk(n)):
            return n
        params = {a.arg for a in ast.walk(n.args) if isinstance(a, ast.arg)}
        loc = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - params
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in loc:
                x.id = "v_" + x.id
        return n


class FStr(ast.NodeTransformer):
    """"..%s.."%x with a tuple/name on the right -> str.format-free join kept; here: a + b string concat folded"""


T = {"unparse": Unparse, "noop": Noop, "invert": Invert, "rettemp": RetTemp, "andsplit": AndSplit, "verify": VerifyRaise,
     "ifexp": IfExpStmt, "early": EarlyReturn, "loopcomp": LoopComp, "extract": Extract, "argtemp": ArgTemp,
     "foriter": ForIter, "flip": NotIn, "demorgan": DeMorgan, "elsepass": AssertVerify, "rename": RenameLocals}


def build(name, d):
    shutil.copytree("/repo/ticdat", d + "/ticdat", ignore=shutil.ignore_patterns("testing", "__pycache__"))
    n = 0
    for root, _, files in os.walk(d + "/ticdat"):
        for f in files:
            if not f.endswith(".py"):
                continue
            p = os.path.join(root, f)
            src = open(p, newline="").read().replace("\r\n", "\n")
            m = ast.parse(src)
            before = ast.unparse(m)
            cls = T[name]
            tr = cls(m) if cls is VerifyRaise else cls()
            m = ast.fix_missing_locations(tr.visit(m))
            after = ast.unparse(m)
            n += before != after
            open(p, "w").write(after + "\n")
    return n


def run(name, pids):
    d = tempfile.mkdtemp(prefix="rf", dir="/tmp")
    out = []
    try:
        n = build(name, d)
        for p in pids:
            ev = d + "/ev"
            r = subprocess.run([sys.executable, HERE + "/check.py", p], capture_output=True, text=True,
                               env=dict(os.environ, SA_REPO=d, SA_EVIDENCE=ev))
            if r.returncode:
                out.append((p, r.returncode, (r.stdout + r.stderr)[-1800:]))
    finally:
        if not os.environ.get("KEEP"):
            shutil.rmtree(d)
        else:
            print(d)
    return name, n, out


def main():
    a = sys.argv[1:]
    ts = list(T)
    if a and a[0] == "-t":
        ts = a[1].split(",")
        a = a[2:]
    pids = a or sorted(registry.RULES)
    bad = 0
    with ThreadPoolExecutor(3) as ex:
        for name, n, out in ex.map(lambda t: run(t, pids), ts):
            print(f"{name:10} {n:2} files changed; {'quiet' if not out else 'NOISY ' + ' '.join(f'{p}({c})' for p, c, _ in out)}", flush=True)
            for p, c, o in out:
                bad += 1
                if not os.environ.get("Q"):
                    print("     " + "\n     ".join(l[:230] for l in o.strip().splitlines()[:6]))
    print("noisy:", bad)


if __name__ == "__main__":
    main()
