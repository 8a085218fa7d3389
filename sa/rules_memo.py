"""C23: a remembered result is what would be computed now.

The tables of remembered results are found by their shape (a lookup that is filled where it misses), whatever they are
called and wherever they live.  For each of them three things are decided on the syntax tree:

* key    - everything that can differ between two fills during the life of the table is determined by the key;
* same   - what is filled under a key is looked up under that key;
* stale  - a table that outlives a call is emptied whenever something its results were computed from is changed (or at
           the start of every public call that goes on to use it);
* own    - a container that is being filled is not handed to the caller itself.
"""
import ast

from .ctx import *
from .report import *

FN = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
LOOPS = (ast.For, ast.AsyncFor, ast.While)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)
GROW = {"append", "add", "extend", "update", "insert", "setdefault"}
CACHERS = {"lru_cache", "cache", "cached_property"}


def text(n):
    return ast.unparse(n)


class Fn:
    def __init__(self, node, module, parent, cls, qual):
        self.node, self.module, self.parent, self.cls, self.qual = node, module, parent, cls, qual
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + \
                      [x.arg for x in (a.vararg, a.kwarg) if x]
        self.binds = {}              # name -> [(node, value or None, kind)]
        self.up = {}                 # node -> parent node, own scope and everything nested
        self.free = set()

    def body(self):
        return self.node.body if isinstance(self.node.body, list) else [self.node.body]


def targets(t):
    if isinstance(t, ast.Name):
        yield t.id
    elif isinstance(t, (ast.Tuple, ast.List)):
        for e in t.elts:
            yield from targets(e)
    elif isinstance(t, ast.Starred):
        yield from targets(t.value)


class Source:
    """Every function of the package with its bindings and the functions it is written in."""
    def __init__(self, ctx):
        self.ctx, self.fns, self.of = ctx, [], {}
        self.methods = {}            # class name -> {method name: Fn}
        self.by_name = {}            # (module, name) -> Fn
        for m in ctx.prog.modules.values():
            self.visit(m.tree, m, None, None, m.name)

    def visit(self, node, m, fn, cls, qual):
        for ch in ast.iter_child_nodes(node):
            if isinstance(ch, FN):
                nm = getattr(ch, "name", "<lambda>")
                f = Fn(ch, m, fn, cls if isinstance(node, ast.ClassDef) else None, f"{qual}.{nm}")
                self.fns.append(f)
                self.of[ch] = f
                self.bind(f)
                if isinstance(node, ast.ClassDef):
                    # a nested class belongs to the object its function works for
                    self.methods.setdefault((m.name, cls), {})[nm] = f
                elif fn is None:
                    self.by_name[m.name, nm] = f
                self.visit(ch, m, f, cls, f.qual)
            elif isinstance(ch, ast.ClassDef):
                self.visit(ch, m, fn, ch.name, f"{qual}.{ch.name}")
            else:
                self.visit(ch, m, fn, cls, qual)

    def bind(self, f):
        for p in f.params:
            f.binds.setdefault(p, []).append((f.node, None, "param"))

        def go(n):
            for ch in ast.iter_child_nodes(n):
                f.up[ch] = n
                if isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
                    f.binds.setdefault(ch.name, []).append((ch, None, "def"))
                    continue
                if isinstance(ch, ast.Lambda):
                    continue
                if isinstance(ch, ast.Assign):
                    for t in ch.targets:
                        one = isinstance(t, ast.Name)
                        for x in targets(t):
                            f.binds.setdefault(x, []).append((ch, ch.value, "assign" if one else "part"))
                elif isinstance(ch, (ast.AugAssign, ast.AnnAssign)) and isinstance(ch.target, ast.Name):
                    f.binds.setdefault(ch.target.id, []).append((ch, ch.value, "part"))
                elif isinstance(ch, ast.NamedExpr):
                    f.binds.setdefault(ch.target.id, []).append((ch, ch.value, "assign"))
                elif isinstance(ch, (ast.For, ast.AsyncFor)):
                    for x in targets(ch.target):
                        f.binds.setdefault(x, []).append((ch, None, "loop"))
                elif isinstance(ch, ast.comprehension):
                    for x in targets(ch.target):
                        f.binds.setdefault(x, []).append((ch, None, "comp"))
                elif isinstance(ch, (ast.With, ast.AsyncWith)):
                    for i in ch.items:
                        if i.optional_vars is not None:
                            for x in targets(i.optional_vars):
                                f.binds.setdefault(x, []).append((ch, i.context_expr, "part"))
                elif isinstance(ch, ast.ExceptHandler) and ch.name:
                    f.binds.setdefault(ch.name, []).append((ch, None, "exc"))
                go(ch)
        for b in f.body():
            f.up[b] = f.node
            if isinstance(b, (ast.FunctionDef, ast.ClassDef)):
                f.binds.setdefault(b.name, []).append((b, None, "def"))
            else:
                holder = ast.Module(body=[b], type_ignores=[])
                go(holder)
                f.up[b] = f.node

    def owner(self, f, name):
        """The function in whose scope `name` of `f` lives."""
        while f:
            if name in f.binds:
                return f
            f = f.parent
        return None

    def own(self, f):
        """The nodes of f's own scope."""
        stack = list(f.body())
        while stack:
            n = stack.pop()
            yield n
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
                continue
            stack.extend(ast.iter_child_nodes(n))


# ---------------------------------------------------------------- finding the tables

def is_store(n):
    return isinstance(n, (ast.Name, ast.Attribute))


def tests(t, pol=True):
    """The (table, key) whose absence the test establishes when it comes out as `pol`; key None for a lone slot."""
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        yield from tests(t.operand, not pol)
        return
    if isinstance(t, ast.BoolOp):
        if isinstance(t.op, ast.And) == pol:
            for v in t.values:
                yield from tests(v, pol)
        return
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        l, op, r = t.left, t.ops[0], t.comparators[0]
        if isinstance(op, ast.NotIn if pol else ast.In):
            yield r, l
        if isinstance(op, ast.Is if pol else ast.IsNot) and isinstance(r, ast.Constant) and r.value is None:
            if isinstance(l, ast.Call) and isinstance(l.func, ast.Attribute) and l.func.attr == "get" and l.args:
                yield l.func.value, l.args[0]
            elif isinstance(l, ast.Name):
                yield l, None
            elif isinstance(l, ast.Attribute):
                yield l, None
        if isinstance(op, ast.Eq if pol else ast.NotEq) and isinstance(r, ast.Constant) and r.value == 0 and \
                isinstance(l, ast.Call) and text(l.func) == "len" and l.args:
            yield l.args[0], None
    elif isinstance(t, ast.Call) and isinstance(t.func, ast.Attribute) and t.func.attr == "get" and t.args and not pol:
        yield t.func.value, t.args[0]
    elif isinstance(t, ast.Call) and text(t.func) == "hasattr" and len(t.args) == 2 and not pol and \
            isinstance(t.args[1], ast.Constant) and isinstance(t.args[1].value, str):
        yield ast.Attribute(value=t.args[0], attr=t.args[1].value, ctx=ast.Load()), None
    elif isinstance(t, (ast.Name, ast.Attribute)) and not pol:
        yield t, None


def leaves(stmts):
    return bool(stmts) and isinstance(stmts[-1], (ast.Return, ast.Continue, ast.Raise, ast.Break))


class Memo:
    def __init__(self, fn, table, key, region, node, fill):
        self.fn, self.table, self.key, self.region, self.node, self.fill = fn, table, key, region, node, fill


def resolved(src, f, n, depth=0):
    """The expression with names that only stand for another expression written out."""
    if isinstance(n, ast.Name) and depth < 4:
        o = src.owner(f, n.id)
        bs = o.binds[n.id] if o else []
        if len(bs) == 1 and bs[0][2] == "assign":
            return resolved(src, o, bs[0][1], depth + 1)
    return n


def walk_region(stmts):
    for s in stmts:
        yield from ast.walk(s)


def fills(src, f, stmts, table, key):
    """Where the region puts something into the table (under the key)."""
    out = []
    tt = text(table)
    aliases = set()

    def keyed(sub):
        return key is not None and text(resolved(src, f, sub.slice)) == text(resolved(src, f, key)) or \
            key is not None and text(sub.slice) == text(key)
    for n in walk_region(stmts):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if key is not None and isinstance(t, ast.Subscript):
                    b = t
                    while isinstance(b, ast.Subscript):
                        if text(b.value) == tt:
                            out.append((n, b, t is not b))
                            break
                        b = b.value
                elif key is None and text(t) == tt:
                    out.append((n, None, False))
                elif key is None and isinstance(t, ast.Subscript) and text(t.value) == tt and \
                        isinstance(t.slice, ast.Slice):
                    out.append((n, None, False))
                if isinstance(t, ast.Name) and isinstance(n.value, ast.Subscript) and text(n.value.value) == tt and \
                        key is not None:
                    aliases.add(t.id)
                    out.append((n, n.value, True))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in GROW:
            b, inner = n.func.value, False
            if key is None:
                if text(b) == tt:
                    out.append((n, None, False))
            else:
                if n.func.attr == "setdefault" and text(b) == tt and n.args:
                    out.append((n, ast.Subscript(value=table, slice=n.args[0], ctx=ast.Load()), False))
                while isinstance(b, ast.Subscript):
                    if text(b.value) == tt:
                        out.append((n, b, True))
                        break
                    b = b.value
        elif isinstance(n, ast.Call) and text(n.func) == "setattr" and key is None and len(n.args) == 3 and \
                isinstance(table, ast.Attribute) and text(n.args[0]) == text(table.value) and \
                isinstance(n.args[1], ast.Constant) and n.args[1].value == table.attr:
            out.append((n, None, False))
    return out


def find(src):
    memos = []
    for f in src.fns:
        for n in src.own(f):
            if isinstance(n, ast.If):
                for pol in (True, False):
                    for table, key in tests(n.test, pol):
                        if not is_store(table):
                            continue
                        region = list(n.body if pol else n.orelse)
                        other = n.orelse if pol else n.body
                        if not pol and leaves(other) or not region:
                            region = region + after(f, n)
                        if not region:
                            continue
                        fl = fills(src, f, region, table, key)
                        if fl:
                            memos.append(Memo(f, table, key, region, n, fl))
            elif isinstance(n, ast.IfExp):
                continue
            elif isinstance(n, ast.Try):
                for h in n.handlers:
                    names = text(h.type) if h.type is not None else ""
                    if "KeyError" not in names and "AttributeError" not in names and "LookupError" not in names:
                        continue
                    for x in walk_region(n.body):
                        if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load) and is_store(x.value):
                            region = list(h.body) + ([] if leaves(h.body) else after(f, n) if leaves(n.body) else [])
                            fl = fills(src, f, region, x.value, x.slice)
                            if fl:
                                memos.append(Memo(f, x.value, x.slice, region, n, fl))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "setdefault" and \
                    len(n.args) == 2 and is_store(n.func.value):
                memos.append(Memo(f, n.func.value, n.args[0], [ast.Expr(value=n.args[1])], n, [(n, None, False)]))
    return memos


def after(f, n):
    p = f.up.get(n)
    for fld in ("body", "orelse", "finalbody"):
        b = getattr(p, fld, None)
        if isinstance(b, list) and n in b:
            return b[b.index(n) + 1:]
    return []


# ---------------------------------------------------------------- what may differ between two fills

def enclosing(f, n):
    """The loops and comprehensions around the node inside f's own scope."""
    out = []
    while n in f.up:
        n = f.up[n]
        if isinstance(n, LOOPS):
            out.append(n)
    return out


class Life:
    """How long a table lives: the scope that makes it, and the loops it is made anew in."""
    def __init__(self, src, memo):
        self.src, self.memo = src, memo
        t = memo.table
        self.home, self.anew = None, []
        self.attr = isinstance(t, ast.Attribute)
        self.default = False
        if isinstance(t, ast.Name):
            o = src.owner(memo.fn, t.id)
            self.home = o
            if o:
                makes = [b for b in o.binds[t.id] if not (o is memo.fn and any(x is b[0] for x in walk_region(memo.region)))]
                if any(b[2] == "param" for b in makes):
                    self.default = t.id in defaulted(o)
                near = [b for b in makes if b[2] != "param" and o is memo.fn and dominates(o, b[0], memo.node)]
                makes = near[-1:] or makes
                self.makes = makes
                if makes:
                    loops = [set(map(id, enclosing(o, b[0]) + ([b[0]] if b[2] == "loop" else []))) for b in makes]
                    self.anew = set.intersection(*loops)
                else:
                    self.anew = set()

    def fixed(self, f, name):
        """Nothing else can be meant by the name while the table lives."""
        o = self.src.owner(f, name)
        if o is None:
            return True                                   # the module or the builtins
        if self.home is None or self.default:
            return name == "self" and self.attr
        h = self.home
        up = h
        while up:
            if o is up and o is not h:
                return True                               # bound in a scope around the one that makes the table
            up = up.parent
        if o is not h:
            return False
        for node, _, kind in o.binds[name]:
            if kind == "def":
                return False                              # what its body uses decides
            if kind in ("param", "comp"):
                continue
            if any(id(l) in self.anew and l is not node and not holds(l, node) for l in enclosing(self.memo.fn, self.memo.node)):
                continue                                  # bound where this table is not
            loops = [l for l in enclosing(o, node) + ([node] if kind == "loop" else []) if id(l) not in self.anew]
            if loops:
                return False
        return True


def dominates(f, a, b):
    """Statement a stands before b (or what b stands in) in the same block."""
    if a not in f.up:
        return False
    p = f.up[a]
    for fld in ("body", "orelse", "finalbody"):
        blk = getattr(p, fld, None)
        if isinstance(blk, list) and a in blk:
            return any(holds(x, b) for x in blk[blk.index(a) + 1:])
    return False


def defaulted(f):
    a = f.node.args
    ps = a.posonlyargs + a.args
    out = {p.arg for p, d in zip(ps[len(ps) - len(a.defaults):], a.defaults)
           if isinstance(d, (ast.Dict, ast.List, ast.Call))}
    return out | {p.arg for p, d in zip(a.kwonlyargs, a.kw_defaults) if d and isinstance(d, (ast.Dict, ast.List, ast.Call))}


WRAP = {"tuple", "frozenset", "list", "sorted"}


def parts(src, f, key, depth=0):
    """(expressions the key determines, expressions whose truth it determines)"""
    whole, truth = set(), set()

    def go(n, g, d):
        if isinstance(n, (ast.Tuple, ast.List)):
            for e in n.elts:
                go(e, g, d)
            return
        if isinstance(n, ast.Starred):
            go(n.value, g, d)
            return
        whole.add(text(n))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and len(n.args) == 1 and not n.keywords:
            if n.func.id == "bool":
                truth.add(text(n.args[0]))
            if n.func.id in WRAP - {"sorted"}:
                go(n.args[0], g, d)
        if isinstance(n, (ast.BoolOp,)):
            truth.add(text(n))
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
            go(n.left, g, d), go(n.right, g, d)
        if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)) and d < 4:
            c = callee(src, g, n)
            if c and not n.keywords:
                ps = c.params[1:] if c.params[:1] == ["self"] and isinstance(n.func, ast.Attribute) else c.params
                rets = [x.value for x in src.own(c) if isinstance(x, ast.Return)] if not isinstance(c.node, ast.Lambda) \
                    else [c.node.body]
                if len(rets) == 1 and rets[0] is not None and len(ps) == len(n.args):
                    w, t = parts(src, c, rets[0], d + 1)
                    for p, a in zip(ps, n.args):
                        if p in w:
                            go(a, g, d + 1)
                        if p in t:
                            truth.add(text(a))
        if isinstance(n, ast.Name) and d < 4:
            o = src.owner(g, n.id)
            bs = o.binds[n.id] if o else []
            if len(bs) == 1 and bs[0][2] == "assign":
                go(bs[0][1], o, d + 1)
    if key is not None:
        go(key, f, depth)
    return whole, truth


def callee(src, f, call):
    fn = call.func
    if isinstance(fn, ast.Name):
        o = src.owner(f, fn.id)
        if o:
            for node, val, kind in o.binds[fn.id]:
                if kind == "def" and node in src.of:
                    return src.of[node]
                if kind == "assign" and isinstance(val, ast.Lambda):
                    return src.of.get(val)
            return None
        return src.by_name.get((f.module.name, fn.id))
    if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id in ("self", "superself"):
        for (m, c), ms in src.methods.items():
            if m == f.module.name and fn.attr in ms and in_class(f, c):
                return ms[fn.attr]
    return None


def in_class(f, c):
    return f".{c}." in f.qual + "."


def open_names(src, memo, life):
    """[(name, where)] of what the fill depends on that the key leaves open."""
    whole, truth = parts(src, memo.fn, memo.key)
    inside = set()
    for n in walk_region(memo.region):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            inside.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            inside.add(n.name)
    tt = text(memo.table)
    out = []

    def settled(name, f, seen):
        if name in whole or life.fixed(f, name):
            return True
        if (name, f) in seen:
            return True
        o = src.owner(f, name)
        if o is None or not (o is memo.fn or f".{memo.fn.qual}.".startswith(f".{o.qual}.")):
            return True                                   # of a function used by the fill, whose whole body is looked at
        seen = seen | {(name, f)}
        for node, val, kind in o.binds[name]:
            if kind == "def":
                g = src.of.get(node)
                if g and any(check(b, g, seen, frozenset(g.params)) is not None for b in g.body()):
                    return False
                continue
            if kind in ("assign", "part") and val is not None:
                if check(val, o, seen, frozenset()):
                    return False
                c = o.up.get(node)
                while c is not None and not isinstance(c, FN) and not holds(c, memo.node):
                    if isinstance(c, (ast.If, ast.While)) and check(c.test, o, seen, frozenset(), True):
                        return False
                    c = o.up.get(c)
                continue
            return False
        return True

    def check(n, f, seen, local, test=False):
        """The first name in the expression that stays open."""
        s = text(n)
        if s in whole or test and s in truth:
            return None
        if isinstance(n, ast.Name):
            if n.id in local or not isinstance(n.ctx, ast.Load):
                return None
            return None if settled(n.id, f, seen) else n
        if isinstance(n, FN):
            g = src.of[n]
            for b in g.body():
                r = check(b, g, seen, local | set(g.params))
                if r is not None:
                    return r
            return None
        if isinstance(n, ast.ClassDef):
            return None
        if isinstance(n, COMPS):
            local = local | {x for c in n.generators for x in targets(c.target)}
        if isinstance(n, ast.ExceptHandler) and n.name:
            local = local | {n.name}
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return check(n.operand, f, seen, local, True)
        if isinstance(n, ast.BoolOp):
            for v in n.values:
                r = check(v, f, seen, local, test)
                if r is not None:
                    return r
            return None
        for name, ch in ast.iter_fields(n):
            for c in (ch if isinstance(ch, list) else [ch]):
                if isinstance(c, ast.AST):
                    r = check(c, f, seen, local, name == "test")
                    if r is not None:
                        return r
        return None

    for a, b in ensured(src, memo):
        for x, y in ((a, b), (b, a)):
            if check(y, memo.fn, frozenset(), frozenset()) is None:
                whole.add(text(x))
    for stmt in memo.region:
        r = check_region(stmt, memo, inside, tt, check)
        if r is not None:
            out.append(r)
    return out


def ensured(src, memo):
    """The equalities that are verified or asserted on the way to the table."""
    for n in src.own(memo.fn):
        t = None
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and text(n.value.func).split(".")[-1] == "verify" and \
                n.value.args:
            t = n.value.args[0]
        elif isinstance(n, ast.Assert):
            t = n.test
        elif isinstance(n, ast.If) and ends(n.body) and isinstance(n.test, ast.Compare) and len(n.test.ops) == 1 and \
                isinstance(n.test.ops[0], ast.NotEq) and dominates(memo.fn, n, memo.node):
            yield n.test.left, n.test.comparators[0]
        if t is None or not dominates(memo.fn, n, memo.node):
            continue
        for e in (t.values if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And) else [t]):
            if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], ast.Eq):
                yield e.left, e.comparators[0]


def holds(n, sub):
    return any(x is sub for x in ast.walk(n))


def check_region(stmt, memo, inside, tt, check):
    return check(stmt, memo.fn, frozenset(), frozenset(inside))


# ---------------------------------------------------------------- tables that outlive a call

class Reads:
    """What a piece of code reads and writes on the objects it works for, through the functions it calls."""
    def __init__(self, src):
        self.src = src
        self.props = {}
        self.family = {}
        for (m, c), ms in src.methods.items():
            self.family.setdefault(c, {}).update(ms)
        self.hint = {k: v.split(".")[1] for k, v in HINTS.items() if v}
        self.cache = {}

    def cls_of(self, f):
        q = f.qual.split(".")
        best = None
        for part in q[1:]:
            if part in self.family:
                best = best or part
        return best

    def kind(self, e, f):
        """The class of the object an expression stands for, where that is known."""
        if isinstance(e, ast.Name):
            if e.id == "self":
                g = f
                while g and not (g.cls and g.params[:1] == ["self"]):
                    g = g.parent
                return g.cls if g else None
            if e.id == "superself":
                return self.cls_of(f)
            if e.id in self.hint:
                return self.hint[e.id]
            o = self.src.owner(f, e.id)
            if o:
                bs = o.binds[e.id]
                if bs and all(b[2] == "assign" for b in bs):
                    ks = {self.kind(b[1], o) for b in bs}
                    return ks.pop() if len(ks) == 1 else None
        if isinstance(e, ast.Attribute):
            return self.hint.get(e.attr)
        return None

    def of(self, nodes, f, seen=None):
        """{(class, attribute)} read by the nodes and whatever they call."""
        seen = set() if seen is None else seen
        out = set()
        for n in nodes:
            for x in ast.walk(n):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
                    c = self.kind(x.value, self.scope(x, f))
                    if c and c in self.family:
                        m = self.family[c].get(x.attr)
                        if m is None:
                            out.add((c, x.attr))
                        elif m not in seen:
                            seen.add(m)
                            out |= self.of(m.body(), m, seen)
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name):
                    m = callee(self.src, self.scope(x, f), x)
                    if m and m not in seen:
                        seen.add(m)
                        out |= self.of(m.body(), m, seen)
        return out

    def scope(self, n, f):
        return f

    def writers(self, c, attr):
        """The methods that change the attribute once the object is built."""
        out = []
        for nm, m in self.family.get(c, {}).items():
            if nm in ("__init__", "__new__"):
                continue
            for x in ast.walk(m.node):
                if touches(x, attr, lambda e: self.kind(e, m) == c):
                    out.append((m, x))
        return out


def base_attr(e, attr, mine):
    """The attribute itself, or something reached from it by subscripts."""
    while True:
        if isinstance(e, ast.Attribute) and e.attr == attr and mine(e.value):
            return True
        if isinstance(e, ast.Subscript):
            e = e.value
        else:
            return False


CHANGE = GROW | {"clear", "pop", "popitem", "remove", "discard"}


def touches(x, attr, mine):
    if isinstance(x, (ast.Assign, ast.Delete)):
        return any(base_attr(t, attr, mine) for t in x.targets)
    if isinstance(x, (ast.AugAssign, ast.AnnAssign)):
        return base_attr(x.target, attr, mine)
    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in CHANGE:
        return base_attr(x.func.value, attr, mine)
    return False


def empties(x, attr, mine):
    if isinstance(x, ast.Assign):
        return any(isinstance(t, ast.Attribute) and t.attr == attr and mine(t.value) for t in x.targets)
    if isinstance(x, ast.Delete):
        return any(isinstance(t, ast.Attribute) and t.attr == attr and mine(t.value) for t in x.targets)
    return isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "clear" and \
        isinstance(x.func.value, ast.Attribute) and x.func.value.attr == attr and mine(x.func.value.value)


def always(stmts, hit):
    """Every way through the statements that gets to their end (or returns) meets a hit."""
    for s in stmts:
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            continue
        if isinstance(s, ast.If):
            if any(hit(x) for x in ast.walk(s.test)):
                return True
            a, b = always(s.body, hit), always(s.orelse, hit)
            if a and b:
                return True
            if returns(s.body) and not a or returns(s.orelse) and not b:
                return False
            if a and b or a and ends(s.orelse) or b and ends(s.body):
                return True
            continue
        if isinstance(s, (ast.With, ast.Try)):
            if always(s.body, hit):
                return True
            if returns([s]):
                return False
            if isinstance(s, ast.Try) and always(s.finalbody, hit):
                return True
            continue
        if isinstance(s, LOOPS):
            if returns([s]):
                return False
            continue
        if any(hit(x) for x in ast.walk(s)):
            return True
        if isinstance(s, ast.Return):
            return False
        if isinstance(s, ast.Raise):
            return True
    return False


def ends(stmts):
    return bool(stmts) and isinstance(stmts[-1], ast.Raise)


def returns(stmts):
    for s in stmts:
        for x in ast.walk(s):
            if isinstance(x, ast.Return):
                return True
    return False


class Empty:
    """Does a method empty the table, itself or through the methods it calls?"""
    def __init__(self, reads, c, attr):
        self.reads, self.c, self.attr, self.memo = reads, c, attr, {}

    def hit(self, m):
        def h(x):
            if empties(x, self.attr, lambda e: self.reads.kind(e, m) == self.c):
                return True
            if isinstance(x, ast.Call):
                t = self.target(x, m)
                return bool(t) and self.does(t)
            return False
        return h

    def target(self, x, m):
        if isinstance(x.func, ast.Attribute) and self.reads.kind(x.func.value, m) == self.c:
            return self.reads.family.get(self.c, {}).get(x.func.attr)
        if isinstance(x.func, ast.Name):
            return callee(self.reads.src, m, x)
        return None

    def with_write(self, m, write, stmts=None):
        """Whoever makes the write also empties the table before he is done."""
        hit = self.hit(m)
        stmts = m.body() if stmts is None else stmts
        for i, s in enumerate(stmts):
            if not holds(s, write):
                continue
            if any(always([b], hit) for b in stmts[:i]) or always(stmts[i + 1:], hit):
                return True
            for fld in ("body", "orelse", "finalbody"):
                b = getattr(s, fld, None)
                if isinstance(b, list) and any(holds(x, write) for x in b):
                    if self.with_write(m, write, b):
                        return True
            for h in getattr(s, "handlers", ()):
                if any(holds(x, write) for x in h.body):
                    return self.with_write(m, write, h.body)
            return False
        return False

    def does(self, m):
        if m not in self.memo:
            self.memo[m] = False
            self.memo[m] = always(m.body(), self.hit(m))
        return self.memo[m]


def users(reads, c, memo):
    """The public methods of the class from which the table is used."""
    uses = {}
    for nm, m in reads.family.get(c, {}).items():
        calls = set()
        for x in ast.walk(m.node):
            if isinstance(x, ast.Attribute) and reads.kind(x.value, m) == c:
                calls.add(x.attr)
        uses[nm] = calls
    want = {memo.table.attr}
    hot = set()
    for _ in range(len(uses) + 1):
        for nm, calls in uses.items():
            if nm not in hot and nm != "__init__" and calls & (want | hot):
                hot.add(nm)
    return sorted(n for n in hot if not n.startswith("_")), hot


def outside(reads, c, hot):
    """A private method that uses the table is also called from elsewhere."""
    for f in reads.src.fns:
        for x in reads.src.own(f):
            if isinstance(x, ast.Attribute) and x.attr in hot and x.attr.startswith("_") and not x.attr.endswith("__"):
                k = reads.kind(x.value, f)
                if k != c and not (k in reads.family and x.attr in reads.family[k]):
                    return True
                if k == c and not in_class(f, c):
                    return True
    return False


OUTSIDE = {"open", "listdir", "exists", "isfile", "isdir", "glob", "walk", "stat", "execute", "cursor", "getenv", "getcwd", "time", "now"}


def world(reads, nodes, f, seen=None):
    """A call in the nodes, or in what they call, that asks something outside the program."""
    seen = set() if seen is None else seen
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.Call):
                nm = x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id if isinstance(x.func, ast.Name) else ""
                if nm in OUTSIDE:
                    return x
                m = None
                if isinstance(x.func, ast.Attribute):
                    m = reads.family.get(reads.kind(x.func.value, f), {}).get(nm)
                m = m or callee(reads.src, f, x)
                if m and m not in seen:
                    seen.add(m)
                    r = world(reads, m.body(), m, seen)
                    if r is not None:
                        return r
    return None


def first_use(m, reads, c, hot, attr, emp):
    """The method empties the table before anything that may use it."""
    hit = emp.hit(m)
    mentions = hot | {attr}

    def use(x):
        return isinstance(x, ast.Attribute) and x.attr in mentions and reads.kind(x.value, m) == c
    for s in m.body():
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            continue
        if any(hit(x) for x in ast.walk(s)):
            inner = s
            if isinstance(s, (ast.If, ast.For, ast.While)):
                return always([s], hit)
            if isinstance(s, (ast.With, ast.Try)):
                for t in s.body:
                    if any(hit(x) for x in ast.walk(t)):
                        return True
                    if any(use(x) for x in ast.walk(t)):
                        return False
            return True
        if any(use(x) for x in ast.walk(s)):
            return False
    return True


def where(ctx, memo):
    return f"{memo.fn.qual} ({ctx.prog_loc(memo.node, memo.fn.module)})" if hasattr(ctx, "prog_loc") else \
        f"{memo.fn.qual} ({memo.fn.module.name}.py:{memo.node.lineno})"


def keyed(ctx, rep, src, memos, rule="key"):
    n = 0
    for m in memos:
        life = Life(src, m)
        if m.key is None and flag(m):
            continue
        if m.key is None and life.home is not None and isinstance(m.table, ast.Name) and not lone(src, m, life):
            continue
        if life.home is not None and any(b[2] == "param" for b in life.makes) and not life.default:
            continue                                     # the caller's table: judged where it is made
        bad = open_names(src, m, life)
        n += 1
        w = where(ctx, m)
        nm = text(m.table)
        b = bad[0] if bad else None
        rep.ob(rule, f"{m.fn.qual}: {nm}", not bad, key=f"{m.fn.qual}:{nm}:{text(b) if bad else ''}",
               what=f"{w}: what {nm} remembers depends on {text(b) if bad else ''} (line {getattr(b, 'lineno', '?')}), which its key"
                    f" ({text(m.key) if m.key is not None else 'none'}) does not determine: a later lookup can be given"
                    f" another one's result")
    return n


def flag(m):
    """Only a constant is stored: a mark that something happened, not a result."""
    vs = []
    for n, _, _ in m.fill:
        v = n.value if isinstance(n, ast.Assign) else n.args[-1] if n.args else None
        vs.append(v)
    return m.key is None and all(v is not None and not any(isinstance(x, (ast.Name, ast.Call, ast.Attribute))
                                                           for x in ast.walk(v)) for v in vs)


def unused_then(reads, c, m, wm, wn):
    """The write is made only in a state in which the table is not consulted, and which is never gone back to."""
    up, n = wm.up, wn
    while n in up:
        p = up[n]
        if isinstance(p, ast.If) and n in p.body and isinstance(p.test, ast.Attribute):
            t = p.test
            turned_on = [x for _, x in reads.writers(c, t.attr) if not (isinstance(x, ast.Assign) and
                         isinstance(x.value, ast.Constant) and not x.value.value)]
            for i in reads.src.own(m.fn):
                if isinstance(i, ast.If) and text(i.test) == text(t) and leaves(i.body) and not turned_on and \
                        dominates(m.fn, i, m.node):
                    return True
        n = p
    return False


def lone(src, m, life):
    """A lone local name is a remembered result when it is filled inside a loop it outlives, or from another function."""
    if life.home is not m.fn:
        return True
    loops = [l for l in enclosing(m.fn, m.node) if id(l) not in life.anew]
    if not loops:
        return False
    # accumulators are also read before they are filled: a result is only ever filled where it is missing
    fills = {id(x[0]) for x in m.fill}
    tt = m.table.id
    for n in src.own(m.fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in GROW and \
                text(n.func.value) == tt and not any(x is n for x in walk_region(m.region)):
            return False
        if isinstance(n, (ast.Assign, ast.AugAssign)):
            ts = n.targets if isinstance(n, ast.Assign) else [n.target]
            if any(text(t) == tt for t in ts) and enclosing(m.fn, n) and not any(x is n for x in walk_region(m.region)):
                return False
    return True


def same(ctx, rep, src, memos, rule="same"):
    for m in memos:
        if m.key is None or isinstance(m.key, ast.Constant) or not isinstance(m.node, (ast.If, ast.Try)):
            continue
        k = text(resolved(src, m.fn, m.key))
        tt = text(m.table)
        subs = [n for n in src.own(m.fn) if isinstance(n, ast.Subscript) and text(n.value) == tt]
        filled = [n for n in subs if any(n is x for x in walk_region(m.region)) and
                  (isinstance(n.ctx, ast.Store) or any(n is f[1] for f in m.fill))]
        if not any(text(resolved(src, m.fn, n.slice)) == k or text(n.slice) == text(m.key) for n in filled):
            if filled and not isinstance(m.node, ast.Try):
                n = filled[0]
                # filled under several keys at once is not a lookup of one
                if not enclosing_in(m, n):
                    rep.ob(rule, f"{m.fn.qual}: {tt}", False, key=f"{m.fn.qual}:{tt}:fill",
                           what=f"{where(ctx, m)}: {tt} is asked for {text(m.key)} but filled under {text(n.slice)}")
            continue
        bad = [n for n in subs if isinstance(n.ctx, ast.Load) and not any(n is f[1] for f in m.fill) and
               text(resolved(src, m.fn, n.slice)) != k and text(n.slice) != text(m.key) and follows(src, m, n)]
        rep.ob(rule, f"{m.fn.qual}: {tt}", not bad, key=f"{m.fn.qual}:{tt}:{text(bad[0]) if bad else ''}",
               what=f"{where(ctx, m)}: {tt} is filled for {text(m.key)} but line {bad[0].lineno if bad else ''} looks up "
                    f"{text(bad[0].slice) if bad else ''}")


def enclosing_in(m, n):
    x = n
    while x in m.fn.up and x is not m.node:
        x = m.fn.up[x]
        if isinstance(x, LOOPS):
            return True
    return False


def follows(src, m, n):
    """The lookup is made in the statements that come after the fill (its own block)."""
    rest = after(m.fn, m.node)
    return any(x is n for x in walk_region(rest)) or any(x is n for x in walk_region(m.region))


def lasting(ctx, rep, src, reads, memos):
    n = 0
    for m in memos:
        if not isinstance(m.table, ast.Attribute) or flag(m):
            continue
        c = reads.kind(m.table.value, m.fn)
        if not c or c not in reads.family:
            continue
        attr = m.table.attr
        rd = reads.of([m.node] if not isinstance(m.node, ast.Call) else m.region, m.fn)
        rd |= reads.of(m.region, m.fn)
        rd = {r for r in rd if r != (c, attr)}
        emp = Empty(reads, c, attr)
        pub, hot = users(reads, c, m)
        fresh = bool(pub) and not outside(reads, c, hot) and all(first_use(reads.family[c][p], reads, c, hot, attr, emp) for p in pub)
        out = world(reads, m.region, m.fn)
        if out is not None:
            n += 1
            rep.ob("stale", f"{c}.{attr}: {text(out)[:60]}", fresh, key=f"{c}.{attr}:outside",
                   what=f"{where(ctx, m)}: {attr} remembers the answer of {text(out)[:60]} (line {out.lineno}) beyond the call")
        for rc, ra in sorted(rd):
            for wm, wn in reads.writers(rc, ra):
                n += 1
                ok = fresh or rc == c and (emp.with_write(wm, wn) or unused_then(reads, c, m, wm, wn))
                rep.ob("stale", f"{c}.{attr}: {wm.qual} changes {ra}", ok, key=f"{c}.{attr}:{wm.qual}:{ra}",
                       what=f"{where(ctx, m)}: {attr} remembers results computed from {ra}, which {wm.qual} "
                            f"(line {wn.lineno}) changes without emptying {attr}"
                            + ("" if rc == c else f", and not every public method of {c} empties it before it is used"))
    return n


def cachers(ctx, rep, src, reads):
    n = 0
    for f in src.fns:
        if isinstance(f.node, ast.Lambda):
            continue
        for d in f.node.decorator_list:
            nm = text(d.func if isinstance(d, ast.Call) else d).split(".")[-1]
            if nm not in CACHERS:
                continue
            n += 1
            rd = reads.of(f.body(), f)
            bad = [(c, a, w) for c, a in sorted(rd) for w in reads.writers(c, a)]
            o = world(reads, f.body(), f)
            rep.ob("stale", f"{f.qual}: @{nm} outside", o is None, key=f"{f.qual}:@{nm}:outside",
                   what=f"{f.qual} (line {f.node.lineno}): @{nm} keeps the answer of {text(o)[:60] if o is not None else ''}")
            rep.ob("stale", f"{f.qual}: @{nm}", not bad, key=f"{f.qual}:@{nm}",
                   what=f"{f.qual} (line {f.node.lineno}): @{nm} keeps results computed from "
                        f"{bad[0][1] if bad else ''}, which {bad[0][2][0].qual if bad else ''} changes")
    return n


def owned(ctx, rep, src, reads, memos):
    n = 0
    for m in memos:
        if not isinstance(m.table, ast.Attribute) or m.fn.cls is None or m.fn.node.name.startswith("_"):
            continue
        grown = any(inner for _, _, inner in m.fill)
        if not grown:
            continue
        tt = text(m.table)
        for x in src.own(m.fn):
            if isinstance(x, ast.Return) and x.value is not None:
                n += 1
                v = resolved(src, m.fn, x.value)
                b = v
                while isinstance(b, ast.Subscript):
                    b = b.value
                bad = isinstance(v, (ast.Subscript, ast.Attribute)) and text(b) == tt
                rep.ob("own", f"{m.fn.qual}: {tt}", not bad, key=f"{m.fn.qual}:{tt}:returned",
                       what=f"{m.fn.qual} (line {x.lineno}) hands out {text(x.value)} itself: a caller that changes it "
                            f"changes later answers")
    return n


def within(ctx, rep, quals):
    """The remembered results of some functions, as part of the rules about what those functions return."""
    src = Source(ctx)
    ms = [m for m in find(src) if any((m.fn.qual + ".").startswith(q + ".") for q in quals)]
    rep.rule("memo", "a result remembered during the scan depends only on what its key determines")
    keyed(ctx, rep, src, ms, "memo")
    same(ctx, rep, src, ms, "memo")


def C23(ctx, rep):
    src = Source(ctx)
    reads = Reads(src)
    memos = find(src)
    rep.rule("key", "a remembered result depends only on what its key determines")
    rep.rule("same", "what is filled under a key is looked up under that key")
    rep.rule("stale", "a table is emptied when what its results were computed from changes")
    rep.rule("own", "a container that is still being filled is not handed out")
    k = keyed(ctx, rep, src, memos)
    same(ctx, rep, src, memos)
    s = lasting(ctx, rep, src, reads, memos)
    cachers(ctx, rep, src, reads)
    owned(ctx, rep, src, reads, memos)
    for m in memos:
        rep.fns.add(m.fn.qual)
    rep.info["tables of remembered results"] = sorted({f"{m.fn.qual}: {text(m.table)}" for m in memos})
    rep.info["fills judged"] = k
    rep.info["changes judged"] = s
    kept = [m for m in memos if isinstance(m.table, ast.Attribute)]
    if not kept:
        raise AnchorError("no table of remembered results that outlives a call was found")
