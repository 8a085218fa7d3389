"""Parse the package under analysis and index its modules, classes and functions.

Nothing here imports or runs the code under analysis: only `ast`.
"""
import ast
import os


class AnchorError(Exception):
    """Something a rule is anchored to has vanished: the check can give no answer."""


class FnInfo:
    __slots__ = ("qual", "name", "node", "module", "cls", "parent", "params", "is_gen", "free", "locals_",
                 "decorators", "is_lambda")

    def __init__(self, qual, name, node, module, cls, parent):
        self.qual, self.name, self.node, self.module, self.cls, self.parent = qual, name, node, module, cls, parent
        self.is_lambda = isinstance(node, ast.Lambda)
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.decorators = []
        if not self.is_lambda:
            for d in node.decorator_list:
                self.decorators.append(ast.unparse(d))
        self.is_gen = False
        self.locals_ = set()
        self.free = set()

    def __repr__(self):
        return f"<fn {self.qual}>"


class ClsInfo:
    __slots__ = ("qual", "name", "node", "module", "parent_fn", "methods", "bases", "class_attrs")

    def __init__(self, qual, name, node, module, parent_fn):
        self.qual, self.name, self.node, self.module, self.parent_fn = qual, name, node, module, parent_fn
        self.methods = {}
        self.bases = list(node.bases)
        self.class_attrs = {}

    def __repr__(self):
        return f"<cls {self.qual}>"


class Module:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.lines = src.splitlines()
        self.names = {}     # top-level name -> ('fn', q) | ('cls', q) | ('mod', m) | ('from', m, n) | ('val', [expr])


def _own_nodes(fn_node):
    """All nodes in this function's own scope (not in nested functions / classes / lambdas); the nested
    def/class/lambda nodes themselves are included."""
    body = [fn_node.body] if isinstance(fn_node, ast.Lambda) else fn_node.body
    out, stack = [], list(body)
    while stack:
        n = stack.pop()
        out.append(n)
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            stack.extend(n.decorator_list + n.args.defaults + [d for d in n.args.kw_defaults if d])
            continue
        if isinstance(n, ast.Lambda):
            stack.extend(n.args.defaults + [d for d in n.args.kw_defaults if d])
            continue
        if isinstance(n, ast.ClassDef):
            stack.extend(n.bases + n.decorator_list)
            continue
        stack.extend(ast.iter_child_nodes(n))
    return out


class Program:
    def __init__(self, root, package="ticdat", exclude=("testing",)):
        self.root, self.package = root, package
        self.modules, self.fns, self.classes = {}, {}, {}
        self.fn_of_node, self.cls_of_node = {}, {}
        pkgdir = os.path.join(root, package)
        if not os.path.isdir(pkgdir):
            raise AnchorError(f"no package directory {pkgdir}")
        for f in sorted(os.listdir(pkgdir)):
            if not f.endswith(".py") or f.startswith("_version"):
                continue
            path = os.path.join(pkgdir, f)
            with open(path, encoding="utf-8") as fh:
                src = fh.read()
            name = f[:-3]
            try:
                tree = ast.parse(src, filename=path)
            except SyntaxError as e:
                raise AnchorError(f"{path} does not parse: {e}")
            m = Module(name, path, tree, src)
            self.modules[name] = m
            self._index_module(m)
        for fn in list(self.fns.values()):
            self._scope(fn)

    # -- indexing
    def _index_module(self, m):
        self._index_body(m, m.tree.body, m.name, None, None, m.names)

    def _bind(self, names, key, val):
        if names is not None:
            names.setdefault(key, []).append(val) if False else None
            if key in names and names[key][0] == "val" and val[0] == "val":
                names[key][1].extend(val[1])
            elif key in names and val[0] == "val" and names[key][0] != "val":
                pass                      # e.g. `try: import x  except: x = None` keeps the import
            else:
                names[key] = val

    def _index_body(self, m, body, prefix, cls, parent, names):
        for n in body:
            self._index_stmt(m, n, prefix, cls, parent, names)

    def _index_stmt(self, m, n, prefix, cls, parent, names):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            q = f"{prefix}.{n.name}"
            while q in self.fns:
                q += "'"
            if names is not None and cls is None:
                names[n.name] = ("fn", q)
            self._index_fn(m, n, q, n.name, cls, parent)
            return
        if isinstance(n, ast.ClassDef):
            q = f"{prefix}.{n.name}"
            while q in self.classes:
                q += "'"
            if names is not None and cls is None:
                names[n.name] = ("cls", q)
            ci = ClsInfo(q, n.name, n, m.name, parent)
            self.classes[q] = ci
            self.cls_of_node[n] = ci
            for b in n.bases:
                self._index_expr(m, b, prefix, cls, parent)
            for s in n.body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    mq = f"{q}.{s.name}"
                    deco = [ast.unparse(d) for d in s.decorator_list]
                    if any(d.endswith(".setter") for d in deco):
                        mq += "=setter"
                        ci.methods[s.name + "=setter"] = mq
                    else:
                        ci.methods[s.name] = mq
                    self._index_fn(m, s, mq, s.name, ci, parent)
                else:
                    self._index_stmt(m, s, q, ci, parent, None)
                    if isinstance(s, ast.Assign):
                        for t in s.targets:
                            if isinstance(t, ast.Name):
                                ci.class_attrs[t.id] = s.value
            return
        if names is not None:
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        names[a.asname] = ("mod", a.name)
                    else:
                        names[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    names[a.asname or a.name] = ("from", n.module, a.name)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self._bind(names, t.id, ("val", [n.value]))
                    elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(n.value, (ast.Tuple, ast.List)) \
                            and len(t.elts) == len(n.value.elts):
                        for a, b in zip(t.elts, n.value.elts):
                            if isinstance(a, ast.Name):
                                self._bind(names, a.id, ("val", [b]))
        # recurse: compound statements and expressions
        for field, value in ast.iter_fields(n):
            vals = value if isinstance(value, list) else [value]
            for v in vals:
                if isinstance(v, ast.stmt):
                    self._index_stmt(m, v, prefix, cls if False else None, parent, names) \
                        if cls is None else self._index_stmt(m, v, prefix, None, parent, names)
                elif isinstance(v, ast.expr):
                    self._index_expr(m, v, prefix, cls, parent)
                elif isinstance(v, (ast.ExceptHandler, ast.withitem, ast.comprehension, ast.keyword,
                                    ast.match_case)):
                    self._index_stmt(m, v, prefix, None, parent, names)

    def _index_fn(self, m, n, q, name, cls, parent):
        fi = FnInfo(q, name, n, m.name, cls, parent)
        self.fns[q] = fi
        self.fn_of_node[n] = fi
        for d in getattr(n, "decorator_list", []) + n.args.defaults + [d for d in n.args.kw_defaults if d]:
            self._index_expr(m, d, q + ".<sig>", None, parent)
        if isinstance(n, ast.Lambda):
            self._index_expr(m, n.body, q, None, fi)
        else:
            self._index_body(m, n.body, q, None, fi, None)

    def _index_expr(self, m, e, prefix, cls, parent):
        stack = [e]
        while stack:
            x = stack.pop()
            if isinstance(x, ast.Lambda):
                q = f"{prefix}.<lambda@{x.lineno}:{x.col_offset}>"
                self._index_fn(m, x, q, "<lambda>", None, parent)
                continue
            stack.extend(ast.iter_child_nodes(x))

    def _scope(self, fn):
        own = _own_nodes(fn.node)
        a = fn.node.args
        loc = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        if a.vararg:
            loc.add(a.vararg.arg)
        if a.kwarg:
            loc.add(a.kwarg.arg)
        nonloc = set()
        for n in own:
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                loc.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                loc.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    loc.add((al.asname or al.name).split(".")[0])
            elif isinstance(n, ast.ExceptHandler) and n.name:
                loc.add(n.name)
            elif isinstance(n, (ast.Nonlocal, ast.Global)):
                nonloc.update(n.names)
            elif isinstance(n, (ast.Yield, ast.YieldFrom)):
                fn.is_gen = True
        fn.locals_ = loc - nonloc
        used = set()
        for n in ast.walk(fn.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                used.add(n.id)
        fn.free = used - fn.locals_

    # -- lookups
    def fn(self, qual):
        f = self.fns.get(qual)
        if f is None:
            raise AnchorError(f"function {qual} not found")
        return f

    def cls(self, qual):
        c = self.classes.get(qual)
        if c is None:
            raise AnchorError(f"class {qual} not found")
        return c

    def loc(self, node, module):
        return f"{self.package}/{module}.py:{getattr(node, 'lineno', 0)}"
