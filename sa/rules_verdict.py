"""C08, second half: the schema check itself rejects an object that does not match.

A small abstract evaluator of its own, because what matters here is a yes/no answer that has to survive a loop. One table
("ours") of the object is assumed not to match in one particular way (a scenario); everything that concerns other tables, rows and
keys is FREE (any value). A loop over a collection with our element in it is run as: others, ours, others. A return that
may be truthy on a path that was understood is a violation; FUZZY marks what concerns ours and was not understood."""
import ast
from .loader import AnchorError

FREE, FUZZY = "free", "fuzzy"
TRUE, FALSE, NONE = ("c", True), ("c", False), ("c", None)
LIMIT = 400


def C(v):
    return ("c", v)


def coll(elems=(), maybe=False):
    return ("coll", frozenset(elems), maybe)


def t(name):
    return ("t", name)


def ours(v):
    if v == FUZZY:
        return True
    if v == FREE or not isinstance(v, tuple):
        return False
    if v[0] == "t":
        return True
    if v[0] == "len":
        return ours(v[1])
    if v[0] == "coll":
        return any(ours(x) for x in v[1])
    if v[0] == "tup":
        return any(ours(x) for x in v[1])
    if v[0] == "meth":
        return ours(v[1])
    return v[0] == "bound"


def vague(*vs):
    return FUZZY if any(ours(v) for v in vs) else FREE


def neg(v):
    return C(not v[1]) if isinstance(v, tuple) and v[0] == "c" else v


def boolean(b):
    return FREE if b is None else C(bool(b))


class TooMuch(Exception):
    pass


class Raised(Exception):
    pass


class Verdict:
    def __init__(self, prog, cls, S):
        self.prog, self.cls, self.S = prog, cls, S
        self.depth, self.fns, self.steps = 0, set(), 0

    # -- what is known of ours
    def truth(self, v):
        """True / False / None (free) / FUZZY"""
        S = self.S
        if v == FREE:
            return None
        if v == FUZZY:
            return FUZZY
        k = v[0]
        if k == "c":
            return bool(v[1])
        if k == "coll":
            return True if v[1] else (None if v[2] else False)
        if k == "tup":
            return bool(v[1])
        if k == "len":
            return self.truth(v[1])
        if k in ("clo", "bound", "meth", "fnq", "mod"):
            return True
        n = v[1]
        if n == "pks":
            return S["haspk"]
        if n == "dfs":
            return True if S.get("row") == "lack" or S.get("fld") == "dfs" else None
        if n in ("row", "rk"):
            return True if S.get("row") == "extra" else None
        if n in ("npk", "keylen"):
            return True
        if n == "tab":
            return None if S["df"] else bool(S.get("row") or not S.get("keyok", True)) or None
        return True

    def elements(self, v):
        """(our elements, are there others) of what is iterated over"""
        S = self.S
        if v == FREE:
            return (), True
        if v == FUZZY:
            return None
        k = v[0]
        if k == "coll":
            return tuple(sorted(v[1], key=repr)), v[2]
        if k == "tup":
            return v[1], False
        if k == "t":
            n = v[1]
            if n == "tab":
                if S["df"]:
                    return (), True
                return ((t("key"),) if S["dict"] else (t("row"),)), True
            if n in ("pks", "dfs"):
                return ((t("fld"),) if S.get("fld") == n or (S.get("row") == "lack" and n == "dfs") else ()), True
            if n in ("row", "rk"):
                return ((t("rkey"),) if S.get("row") == "extra" else ()), True
            if n in ("pkd", "dfd"):
                return (t("T"),), True
            if n == "GEN":
                return ((t("T"),) if S["generic"] else ()), True
            if n == "GENR":
                return ((t("T"),) if S["generator"] else ()), True
            if n == "cols":
                return (), True
        return None

    def is_row_dict(self):
        return self.S.get("row") not in ("list", "scalar")

    def ish(self, what, v):
        S = self.S
        if v == t("tab"):
            return {"dictish": True if S["df"] else S["dict"], "containerish": S["cont"], "stringish": False,
                    "callable": S.get("callable", False), "lupish": None, "generatorish": None}.get(what, FUZZY)
        if v == t("row"):
            return {"dictish": self.is_row_dict(), "containerish": S.get("row") != "scalar", "stringish": None if S.get("row") == "scalar"
                    else False, "callable": False}.get(what, FUZZY)
        if v == t("key"):
            return {"callable": None, "stringish": None, "containerish": None, "dictish": False}.get(what, FUZZY)
        if v in (t("pks"), t("dfs"), t("rk")):
            return {"dictish": False, "containerish": True, "stringish": False}.get(what, FUZZY)
        return FUZZY if ours(v) else None

    def isinst(self, v, clsname):
        S = self.S
        last = clsname.split(".")[-1]
        if v == t("tab"):
            return {"DataFrame": S["df"], "Series": False, "dict": S["dict"], "list": None if S["cont"] and not S["dict"] and not S["df"] else False,
                    "tuple": None if S["cont"] and not S["dict"] and not S["df"] else False, "str": False}.get(last, FUZZY)
        if v == t("row"):
            return {"dict": self.is_row_dict(), "list": None if S.get("row") == "list" else False,
                    "tuple": None if S.get("row") == "list" else False, "DataFrame": False}.get(last, FUZZY)
        return FUZZY if ours(v) else None

    def member(self, x, c):
        S = self.S
        if c == t("GEN") and x == t("T"):
            return S["generic"]
        if c == t("GENR") and x == t("T"):
            return S["generator"]
        if x == t("T") and c in (t("pkd"),):
            return True if S["haspk"] else None
        if x == t("T") and c in (t("dfd"),):
            return None
        if x == t("fld") and c == t("cols"):
            return False
        if x == t("fld") and c == t("tab") and S["df"]:
            return False
        if x == t("fld") and c in (t("row"), t("rk")) and S.get("row") == "lack":
            return False
        if x == t("rkey") and c == t("dfs"):
            return False
        if x == t("rkey") and c in (t("row"), t("rk")) or x == t("row") and c == t("tab"):
            return True
        if isinstance(c, tuple) and c[0] in ("coll", "tup"):
            if x in c[1] and x not in (FREE, FUZZY):
                return True
            if isinstance(x, tuple) and x[0] == "c" and all(isinstance(e, tuple) and e[0] == "c" for e in c[1]) and \
                    (c[0] == "tup" or not c[2]):
                return False
            if x == t("T") and all(isinstance(e, tuple) for e in c[1]):
                return False if c[0] == "coll" or not any(e == FREE for e in c[1]) else None
            return FUZZY if ours(x) else None
        return FUZZY if ours(x) and not (isinstance(c, tuple) and c[0] == "t" and c[1] in ("pks", "dfs")) or ours(c) and not \
            (isinstance(x, tuple) and x[0] == "c") and x != FREE else None

    def compare(self, op, a, b):
        if FREE in (a, b):
            return FREE
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.member(a, b)
            r = FUZZY if r == FUZZY else boolean(r)
            return neg(r) if isinstance(op, ast.NotIn) else r
        if isinstance(op, (ast.Is, ast.IsNot)):
            if a[0] == "c" and b[0] == "c" and a not in (FREE, FUZZY) and b not in (FREE, FUZZY):
                r = C(a[1] is b[1])
            elif (b == NONE and ours(a) and a != FUZZY) or (a == NONE and ours(b) and b != FUZZY):
                r = FALSE
            else:
                r = vague(a, b)
            return neg(r) if isinstance(op, ast.IsNot) else r
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.equal(a, b)
            return neg(r) if isinstance(op, ast.NotEq) else r
        if isinstance(a, tuple) and isinstance(b, tuple):
            x, y = a, b
            o = type(op)
            if o in (ast.GtE, ast.Gt):
                x, y, o = b, a, {ast.GtE: ast.LtE, ast.Gt: ast.Lt}[o]
            r = self.subset(x, y)
            if r is not None:
                return FREE if r == FREE else boolean(r)
            for p, q, flip in ((a, b, False), (b, a, True)):
                if p[0] == "len" and q[0] == "c" and isinstance(q[1], int):
                    tr = self.truth(p[1])
                    if tr in (None, FUZZY):
                        return FREE if tr is None else FUZZY
                    o2 = type(op)
                    if flip:
                        o2 = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}[o2]
                    if (o2 is ast.Gt and q[1] == 0) or (o2 is ast.GtE and q[1] == 1):
                        return C(tr)
                    if (o2 is ast.Lt and q[1] == 1) or (o2 is ast.LtE and q[1] == 0):
                        return C(not tr)
                    return FREE
            if a[0] == "c" and b[0] == "c":
                return FREE
        return vague(a, b)

    def subset(self, x, y):
        """is x a subset of y, where one is our row's keys and the other its table's data fields"""
        rk, d = (t("rk"), t("row")), t("dfs")
        row = self.S.get("row")
        if row is None and ((x in rk and y == d) or (x == d and y in rk)):
            return "free"
        if row in ("extra", "lack"):
            if x in rk and y == d:
                return row == "lack"
            if x == d and y in rk:
                return row == "extra"
        return None

    def equal(self, a, b):
        S = self.S
        if FREE in (a, b) or FUZZY in (a, b):
            return vague(a, b)
        if a[0] == "c" and b[0] == "c":
            return C(a[1] == b[1])
        p = {a, b}
        if p == {t("keylen"), t("npk")}:
            return boolean(S.get("keyok", True))
        if p == {t("rk"), t("dfs")}:
            return FALSE if S.get("row") in ("extra", "lack") else FREE
        if a == b:
            return TRUE
        for x, y in ((a, b), (b, a)):
            if x[0] == "len" and y[0] == "c" and y[1] == 0:
                tr = self.truth(x[1])
                return FUZZY if tr == FUZZY else neg(boolean(tr))
            if x[0] in ("coll", "tup") and y[0] in ("coll", "tup") and not y[1] and not (y[0] == "coll" and y[2]):
                tr = self.truth(x)
                return FUZZY if tr == FUZZY else neg(boolean(tr))
            if x[0] == "len" and y[0] == "len":
                return FREE
            if x[0] == "len" and y[0] == "c":
                return FREE
        for x, y in ((a, b), (b, a)):
            if x[0] == "coll" and y in (t("dfs"), t("pks")):
                ms = [self.member(el, y) for el in x[1]]
                if False in ms:
                    return FALSE
                if x[2] and FUZZY not in ms:
                    return FREE
        if a[0] == "c" or b[0] == "c":
            return FUZZY if ours(a) or ours(b) else FREE
        return vague(a, b)

    # -- expressions
    def ev(self, e, env):
        self.steps += 1
        if self.steps > 200000:
            raise TooMuch()
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            vs = [self.ev(c, env) for c in ast.iter_child_nodes(e) if isinstance(c, ast.expr)]
            return vague(*vs)
        return m(e, env)

    def e_Constant(self, e, env):
        return C(e.value)

    def e_JoinedStr(self, e, env):
        return C("text")

    def e_Name(self, e, env):
        if e.id in env:
            return env[e.id]
        f = env.get("%fn")
        g = self.glob(f.module if f is not None else None, e.id)
        return g

    def glob(self, module, name):
        if name in ("DataFrame", "pd", "np", "numpy", "pandas"):
            return ("mod", name)
        if module in self.prog.modules:
            b = self.prog.modules[module].names.get(name)
            if b and b[0] == "fn":
                return ("fnq", b[1])
            if b and b[0] == "mod":
                return ("mod", next((n for n in (b[1].split(".")[-1], name) if n in self.prog.modules), b[1]))
            if b and b[0] == "from":
                m = (b[1] or "").split(".")[-1]
                if m in self.prog.modules:
                    return self.glob(m, b[2])
                return ("mod", b[2])
            if b and b[0] == "cls":
                return ("mod", name)
            if b and b[0] == "val":
                if len(b[1]) == 1 and isinstance(b[1][0], ast.Lambda):
                    return ("clo", b[1][0], {}, module)
                if len(b[1]) == 1 and isinstance(b[1][0], ast.Constant):
                    return C(b[1][0].value)
        if name in ("True", "False", "None"):
            return C({"True": True, "False": False, "None": None}[name])
        return ("mod", name)

    def e_Attribute(self, e, env):
        v = self.ev(e.value, env)
        a = e.attr
        if v == t("self"):
            known = {"all_tables": coll((t("T"),), True), "generic_tables": t("GEN"), "generator_tables": t("GENR"),
                     "primary_key_fields": t("pkd"), "data_fields": t("dfd")}
            if a in known:
                return known[a]
            q = f"{self.cls}.{a}"
            if q in self.prog.fns:
                return ("bound", q)
            return FUZZY
        if isinstance(v, tuple) and v[0] == "mod":
            if v[1] in self.prog.modules:
                return self.glob(v[1], a)
            return ("mod", v[1] + "." + a)
        if v == t("tab") and a == "columns":
            return t("cols")
        if isinstance(v, tuple) and v[0] in ("t", "coll", "tup", "c"):
            return ("meth", v, a)
        if v == FREE:
            return FREE
        return FUZZY

    def e_Subscript(self, e, env):
        v, i = self.ev(e.value, env), self.ev(e.slice, env)
        if v in (t("pkd"), t("dfd")):
            return (t("pks") if v == t("pkd") else t("dfs")) if i == t("T") else vague(i)
        if isinstance(v, tuple) and v[0] == "tup" and isinstance(i, tuple) and i[0] == "c" and isinstance(i[1], int) and \
                -len(v[1]) <= i[1] < len(v[1]):
            return v[1][i[1]]
        if v == t("tab") and i == t("key"):
            return t("row") if self.S["dict"] else FUZZY
        return vague(v, i)

    def e_BoolOp(self, e, env):
        is_and = isinstance(e.op, ast.And)
        acc = []
        for x in e.values:
            v = self.ev(x, env)
            tr = self.truth(v)
            if tr is (not is_and):          # and: False / or: True decides
                if not acc:
                    return v
                return v if tr is False or all(a == FREE for a in acc) else (TRUE if not is_and else FALSE)
            if tr is is_and:
                last = v
                continue
            acc.append(v)
            last = None
        if not acc:
            return last
        if FUZZY in [self.truth(a) for a in acc]:
            return FUZZY
        return FREE

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            tr = self.truth(v)
            return FUZZY if tr == FUZZY else neg(boolean(tr))
        return v if isinstance(v, str) else vague(v)

    def e_BinOp(self, e, env):
        a, b = self.ev(e.left, env), self.ev(e.right, env)
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):
        text = lambda v: isinstance(v, tuple) and v[0] == "c" and isinstance(v[1], str)
        if text(a) or (text(b) and isinstance(op, ast.Add)):
            return C("text")
        isb = lambda v: isinstance(v, tuple) and v[0] == "c" and isinstance(v[1], bool)
        if isinstance(op, (ast.BitAnd, ast.BitOr)) and (isb(a) or isb(b)):
            c, o = (a, b) if isb(a) else (b, a)
            if c[1] is isinstance(op, ast.BitOr):
                return c
            tr = self.truth(o)
            return FUZZY if tr == FUZZY else boolean(tr)
        if isinstance(op, (ast.BitAnd, ast.BitOr)) and a == FREE and b == FREE:
            return FREE
        if isinstance(op, (ast.Sub, ast.BitXor)):
            r = self.difference(a, b)
            if isinstance(op, ast.BitXor) and r is not None:
                s = self.difference(b, a)
                r = None if s is None else coll(r[1] | s[1], True)
            if r is not None:
                return r
        if isinstance(op, (ast.Add, ast.BitOr)):
            x, y = self.elements(a), self.elements(b)
            if x is not None and y is not None and not (a == FREE and b == FREE):
                return coll(x[0] + y[0], x[1] or y[1])
        return vague(a, b)

    def difference(self, a, b):
        rk = (t("rk"), t("row"))
        row = self.S.get("row")
        if row is None and ((a in rk and b == t("dfs")) or (b in rk and a == t("dfs"))):
            return coll((), True)
        if a in rk and b == t("dfs"):
            return coll((t("rkey"),) if row == "extra" else (), row == "extra")
        if a == t("dfs") and b in rk:
            return coll((t("fld"),) if row == "lack" else (), row == "lack")
        x = self.elements(a)
        if x is None:
            return None
        out = []
        for el in x[0]:
            r = self.member(el, b)
            if r == FUZZY:
                return None
            if r is False:
                out.append(el)
            elif r is None:
                return None
        return coll(out, x[1])

    def e_Compare(self, e, env):
        left = self.ev(e.left, env)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, env)
            out.append(self.compare(op, left, right))
            left = right
        if FALSE in out:
            return FALSE
        if all(o == TRUE for o in out):
            return TRUE
        return FUZZY if FUZZY in out else FREE

    def e_IfExp(self, e, env):
        tr = self.truth(self.ev(e.test, env))
        if tr is True:
            return self.ev(e.body, env)
        if tr is False:
            return self.ev(e.orelse, env)
        a, b = self.ev(e.body, env), self.ev(e.orelse, env)
        return self.join([a, b]) if tr is None else (a if a == b else FUZZY)

    def join(self, vs):
        vs = list(dict.fromkeys(vs))
        if len(vs) == 1:
            return vs[0]
        s = set(vs)
        if t("keylen") in s and all(v == t("keylen") or v in (C(0), C(1)) for v in s):
            return t("keylen")
        if FUZZY in s:
            return FUZZY
        if all(isinstance(v, tuple) and v[0] in ("coll", "tup") for v in s):
            els = [frozenset(v[1]) for v in vs]
            if all(x == els[0] for x in els):
                return coll(els[0], True)
        trs = {self.truth(v) for v in s}
        if trs == {True}:
            return TRUE if not any(ours(v) for v in s) else FUZZY
        if trs == {False}:
            return FALSE
        if any(ours(v) for v in s):
            return FUZZY
        return FREE

    def e_Tuple(self, e, env):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            els, maybe = (), False
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    r = self.elements(self.ev(x.value, env))
                    if r is None:
                        return FUZZY
                    els, maybe = els + tuple(r[0]), maybe or r[1]
                else:
                    els += (self.ev(x, env),)
            return coll(els, maybe)
        return ("tup", tuple(self.ev(x, env) for x in e.elts))
    e_List = e_Tuple

    def e_Set(self, e, env):
        return coll([self.ev(x, env) for x in e.elts], False)

    def e_Dict(self, e, env):
        if any(ours(v) or v[0] in ("coll", "tup") for v in [self.ev(v, env) for v in e.values] if isinstance(v, tuple) or v == FUZZY):
            return FUZZY
        return coll([self.ev(x, env) for x in e.keys if x is not None], any(x is None for x in e.keys))

    def e_Lambda(self, e, env):
        return ("clo", e, env, None)

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        env[e.target.id] = v
        return v

    def e_Starred(self, e, env):
        return self.ev(e.value, env)

    def e_ListComp(self, e, env):
        return self.comp(e, e.elt, env)
    e_SetComp = e_GeneratorExp = e_ListComp

    def e_DictComp(self, e, env):
        return self.comp(e, e.key, env)

    def comp(self, e, elt, env):
        out, maybe = [], [False]

        def go(i, env, alone):
            if i == len(e.generators):
                v = self.ev(elt, env)
                if alone is True:
                    out.append(v)
                elif v != FREE and alone == "maybe" and ours(v):
                    out.append(FUZZY)
                else:
                    maybe[0] = True
                return
            g = e.generators[i]
            src = self.ev(g.iter, env)
            r = self.elements(src)
            cases = []
            if r is None:
                cases.append((FUZZY, "maybe"))
            else:
                cases += [(x, alone) for x in r[0]]
                if r[1]:
                    cases.append((FREE, False))
            for val, sure in cases:
                en = dict(env)
                self.bind(g.target, val, en)
                ok, known = True, sure
                for c in g.ifs:
                    tr = self.truth(self.ev(c, en))
                    if tr is False:
                        ok = False
                        break
                    if tr == FUZZY:
                        known = "maybe"
                    elif tr is None and known is True:
                        known = False
                if ok:
                    go(i + 1, en, known)
        go(0, dict(env), True)
        return coll(out, maybe[0])

    def bind(self, target, v, env):
        if isinstance(target, ast.Name):
            env[target.id] = v
        elif isinstance(target, (ast.Tuple, ast.List)):
            if isinstance(v, tuple) and v[0] == "tup" and len(v[1]) == len(target.elts):
                for x, y in zip(target.elts, v[1]):
                    self.bind(x, y, env)
            else:
                for x in target.elts:
                    self.bind(x.value if isinstance(x, ast.Starred) else x, vague(v), env)
        elif isinstance(target, ast.Subscript) and isinstance(target.value, ast.Name):
            self.add(target.value.id, [self.ev(target.slice, env)], env)

    def add(self, name, vals, env):
        c = env.get(name)
        if isinstance(c, tuple) and c[0] in ("coll", "tup"):
            els = set(c[1]) | {v for v in vals if v != FREE}
            env[name] = coll(els, (c[0] == "coll" and c[2]) or FREE in vals)

    # -- calls
    def e_Call(self, e, env):
        f = e.func
        args = []
        for a in e.args:
            v = self.ev(a, env)
            r = self.elements(v) if isinstance(a, ast.Starred) else None
            args += [v] if not isinstance(a, ast.Starred) else [FUZZY] if r is None else list(r[0]) + ([FREE] if r[1] else [])
        kw = {k.arg: self.ev(k.value, env) for k in e.keywords}
        fv = self.ev(f, env)
        if isinstance(f, ast.Attribute) and isinstance(fv, tuple) and fv[0] == "meth":
            return self.method(f, fv[1], fv[2], args, kw, env)
        if isinstance(fv, tuple) and fv[0] == "fnq":
            last = fv[1].split(".")[-1]
            if last == "verify":
                tr = self.truth(args[0]) if args else None
                if tr is False:
                    raise Raised()
                if tr == FUZZY:
                    env["%fuzzy"] = True
                return NONE
            if last in ("dictish", "containerish", "stringish", "numericish", "lupish", "generatorish") and args:
                r = self.ish(last, args[0])
                return FUZZY if r == FUZZY else boolean(r)
            if last == "safe_apply":
                return ("meth", vague(*args), "%safe")
        if isinstance(fv, tuple) and fv[0] in ("fnq", "bound", "clo"):
            return self.invoke(fv, args, kw)
        name = fv[1].split(".")[-1] if isinstance(fv, tuple) and fv[0] == "mod" else None
        if fv == t("tab") and self.S.get("callable"):
            return coll((t("row"),), True)
        return self.builtin(name, args, kw, env, e)

    def builtin(self, name, args, kw, env, e):
        S = self.S
        a = args[0] if args else None
        if name == "hasattr" and len(args) == 2:
            return boolean(S["attr"]) if args == [t("obj"), t("T")] else vague(*[x for x in args if x != t("obj")])
        if name == "getattr" and len(args) >= 2:
            if args[:2] == [t("obj"), t("T")]:
                if S["attr"]:
                    return t("tab")
                if len(args) == 2:
                    raise Raised()
                return args[2]
            return vague(*[x for x in args if x != t("obj")])
        if name == "isinstance" and len(args) == 2:
            cls = e.args[1]
            names = [ast.unparse(x) for x in cls.elts] if isinstance(cls, ast.Tuple) else [ast.unparse(cls)]
            rs = [self.isinst(a, n) for n in names]
            return TRUE if True in rs else FUZZY if FUZZY in rs else FREE if None in rs else FALSE
        if name == "callable":
            r = self.ish("callable", a)
            return FUZZY if r == FUZZY else boolean(r)
        if name == "bool" and args:
            tr = self.truth(a)
            return FUZZY if tr == FUZZY else boolean(tr)
        if name == "len" and args:
            if a == t("key"):
                return t("keylen")
            if a == t("pks"):
                return t("npk")
            return ("len", a) if a not in (FREE, FUZZY) else a
        if name in ("all", "any") and args:
            r = self.elements(a)
            if r is None:
                return FUZZY
            trs = [self.truth(x) for x in r[0]]
            stop = name == "any"
            if stop in trs:
                return C(stop)
            if FUZZY in trs:
                return FUZZY
            return FREE if r[1] or None in trs else C(not stop)
        if name in ("set", "frozenset", "list", "tuple", "sorted", "iter", "reversed", "FrozenDict", "dict", "OrderedDict", "defaultdict", "deque"):
            if not args or name == "defaultdict":
                return coll()
            if a in (t("row"), t("rk")) and self.is_row_dict():
                return t("rk") if name in ("set", "frozenset", "list", "tuple", "sorted") else a
            if a in (t("pks"), t("dfs"), t("GEN"), t("GENR"), t("cols"), t("pkd"), t("dfd")) or a == FREE:
                return a
            r = self.elements(a)
            return FUZZY if r is None else coll(r[0], r[1])
        if name in ("next", "min", "max") and args:
            r = self.elements(a)
            return FUZZY if r is None else FREE if r[1] or len(r[0]) != 1 else r[0][0]
        if name == "enumerate" and args:
            r = self.elements(a)
            return FUZZY if r is None else coll([("tup", (FREE, x)) for x in r[0]], r[1])
        if name in ("map", "filter") and len(args) == 2:
            r = self.elements(args[1])
            if r is None:
                return FUZZY
            out, maybe = [], r[1]
            for x in r[0]:
                v = self.apply(a, [x])
                if name == "map":
                    out.append(v)
                    continue
                tr = self.truth(v) if a != NONE else self.truth(x)
                if tr is True:
                    out.append(x)
                elif tr == FUZZY:
                    out.append(FUZZY)
                elif tr is None:
                    maybe = True
            return coll(out, maybe)
        if name in ("str", "repr", "print", "format", "warn"):
            return FREE if name != "str" else C("text")
        return vague(*args, *kw.values())

    def apply(self, f, args):
        if isinstance(f, tuple) and f[0] in ("fnq", "bound", "clo"):
            return self.invoke(f, args, {})
        if isinstance(f, tuple) and f[0] == "mod" and f[1] == "bool":
            tr = self.truth(args[0])
            return FUZZY if tr == FUZZY else boolean(tr)
        return vague(*args)

    def method(self, f, v, a, args, kw, env):
        S = self.S
        if a == "%safe":
            return v
        if v in (t("pkd"), t("dfd")):
            if a == "get" and args:
                return (t("pks") if v == t("pkd") else t("dfs")) if args[0] == t("T") else vague(args[0])
            if a == "items":
                return coll([("tup", (t("T"), t("pks") if v == t("pkd") else t("dfs")))], True)
            if a == "values":
                return coll([t("pks") if v == t("pkd") else t("dfs")], True)
            if a == "keys":
                return v
        if v == t("tab") and a in ("keys", "values", "items") and S["dict"]:
            return coll([{"keys": t("key"), "values": t("row"), "items": ("tup", (t("key"), t("row")))}[a]], True)
        if v == t("tab") and a in ("keys",) and S["df"]:
            return t("cols")
        if v == t("row") and a in ("keys",):
            return t("rk") if self.is_row_dict() else FUZZY
        if v == t("tab") and a == "get" and S["dict"] and args and args[0] == t("key"):
            return t("row")
        if a in ("issubset", "issuperset") and args and isinstance(v, tuple):
            x, y = (v, args[0]) if a == "issubset" else (args[0], v)
            r = FREE if FREE in (x, y) else self.subset(x, y)
            if r is not None:
                return FREE if r == FREE else boolean(r)
            els = self.elements(x)
            if els is None:
                return FUZZY
            ms = [self.member(el, y) for el in els[0]]
            return FALSE if False in ms else FUZZY if FUZZY in ms else FREE
        if a in ("difference", "symmetric_difference") and args:
            if FREE in (v, args[0]) and v != t("T"):
                return FREE
            r = self.difference(v, args[0])
            if a != "difference" and r is not None:
                s = self.difference(args[0], v)
                r = None if s is None else coll(r[1] | s[1], True)
            return r if r is not None else vague(v, *args)
        if a in ("union", "copy") and isinstance(v, tuple):
            parts = [self.elements(x) for x in [v] + args]
            if None not in parts:
                return coll([x for p in parts for x in p[0]], any(p[1] for p in parts))
        if a in ("append", "add", "appendleft", "extend", "update", "insert", "setdefault") and isinstance(f.value, (ast.Name, ast.Subscript)):
            vals = args[-1:] if a != "setdefault" else args[:1]
            if a in ("extend", "update"):
                r = self.elements(args[0]) if args else ((), True)
                vals = [FUZZY] if r is None else list(r[0]) + ([FREE] if r[1] else [])
            base = f.value if isinstance(f.value, ast.Name) else f.value.value
            if isinstance(base, ast.Name):
                self.add(base.id, vals, env)
            return NONE
        if isinstance(v, tuple) and v[0] == "c" and isinstance(v[1], str):
            return C("text")
        return vague(v, *args)

    def invoke(self, fv, args, kw):
        if fv[0] == "clo":
            node, cenv = fv[1], fv[2]
            fn = cenv.get("%fn")
            outer = dict(cenv)
        else:
            fn = self.prog.fns[fv[1]]
            node, outer = fn.node, {}
            if fv[0] == "bound" and "staticmethod" not in fn.decorators:
                args = [t("self")] + list(args)
            if not any(ours(x) for x in list(args) + list(kw.values())):
                return FREE
        if self.depth > 8 or (fn is not None and fn.is_gen and fv[0] != "clo"):
            return vague(*args, *kw.values())
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = dict(outer)
        env["%fn"] = fn
        for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            env[n] = self.ev(d, {"%fn": fn})
        for n, d in zip([x.arg for x in a.kwonlyargs], a.kw_defaults):
            if d is not None:
                env[n] = self.ev(d, {"%fn": fn})
        for n, v in zip(names, args):
            env[n] = v
        for n, v in kw.items():
            if n:
                env[n] = v
        if a.vararg:
            env[a.vararg.arg] = coll(args[len(names):])
        if a.kwarg:
            env[a.kwarg.arg] = FUZZY
        self.depth += 1
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, env)
            outs = self.run(node, env, fn)
        finally:
            self.depth -= 1
        vals = [(v, fz) for k, v, fz, _ in outs if k == "ret"]
        if not vals:
            raise Raised()
        clear = [v for v, fz in vals if not fz]
        if any(v == t("keylen") for v, _ in vals) and self.join([v for v, _ in vals]) == t("keylen"):
            return t("keylen")
        if not clear:
            return FUZZY
        r = self.join(clear)
        if len(clear) < len(vals) and r != FREE:
            rest = {self.truth(v) for v, fz in vals if fz}
            if rest != {self.truth(r)}:
                return FUZZY
        return r

    # -- statements
    def run(self, node, env, fn):
        if fn is not None:
            self.fns.add(fn.qual)
        env = dict(env)
        env.setdefault("%fuzzy", False)
        env["%fuzzy"] = False
        outs = []
        for k, en, v in self.block(node.body, [env]):
            if k == "next":
                outs.append(("ret", NONE, en["%fuzzy"], None))
            elif k == "ret":
                outs.append(("ret", v[0], en["%fuzzy"], v[1]))
            else:
                outs.append((k, None, en["%fuzzy"], None))
        return outs

    def block(self, stmts, envs):
        """[(kind, env, value)] for kind in next, ret, brk, cont, raise"""
        done, live = [], envs
        for s in stmts:
            nxt = []
            for en in live:
                try:
                    rs = self.stmt(s, en)
                except Raised:
                    rs = [("raise", en, None)]
                for k, e2, v in rs:
                    (nxt.append(e2) if k == "next" else done.append((k, e2, v)))
            live = self.dedup(nxt)
            if not live:
                break
        return done + [("next", en, None) for en in live]

    def dedup(self, envs):
        seen, out = set(), []
        for en in envs:
            key = tuple(sorted((k, repr(v) if not (isinstance(v, tuple) and v and v[0] == "clo") else "clo%d" % id(v[1]))
                               for k, v in en.items() if k != "%fn"))
            if key not in seen:
                seen.add(key)
                out.append(en)
        if len(out) > LIMIT:
            raise TooMuch()
        return out

    def stmt(self, s, env):
        env = dict(env)
        if isinstance(s, ast.Return):
            v = self.ev(s.value, env) if s.value is not None else NONE
            return [("ret", env, (v, s.lineno))]
        if isinstance(s, ast.Raise):
            return [("raise", env, None)]
        if isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.ClassDef, ast.Delete)):
            return [("next", env, None)]
        if isinstance(s, ast.Break):
            return [("brk", env, None)]
        if isinstance(s, ast.Continue):
            return [("cont", env, None)]
        if isinstance(s, ast.Expr):
            self.ev(s.value, env)
            return [("next", env, None)]
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for tg in s.targets:
                self.bind(tg, v, env)
            return [("next", env, None)]
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.ev(s.value, env), env)
            return [("next", env, None)]
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                env[s.target.id] = self.binop(s.op, env.get(s.target.id, FREE), self.ev(s.value, env))
            return [("next", env, None)]
        if isinstance(s, ast.Assert):
            tr = self.truth(self.ev(s.test, env))
            return [("raise" if tr is False else "next", env, None)]
        if isinstance(s, ast.FunctionDef):
            env[s.name] = ("clo", s, env, None)
            return [("next", env, None)]
        if isinstance(s, ast.If):
            tr = self.truth(self.ev(s.test, env))
            if tr is True:
                return self.block(s.body, [env])
            if tr is False:
                return self.block(s.orelse, [env])
            yes, no = dict(env), dict(env)
            if tr == FUZZY:
                yes["%fuzzy"] = no["%fuzzy"] = True
            else:
                nm, flip = s.test, False
                while isinstance(nm, ast.UnaryOp) and isinstance(nm.op, ast.Not):
                    nm, flip = nm.operand, not flip
                if isinstance(nm, ast.Name) and env.get(nm.id) == FREE:
                    yes[nm.id], no[nm.id] = C(not flip), C(flip)
            return self.block(s.body, [yes]) + self.block(s.orelse, [no])
        if isinstance(s, ast.For):
            return self.loop(s, env)
        if isinstance(s, ast.While):
            env["%fuzzy"] = True
            out = [("next", env, None)]
            for k, e2, v in self.block(s.body, [env]):
                out.append(("next" if k in ("next", "brk", "cont") else k, e2, v))
            return out
        if isinstance(s, ast.With):
            for i in s.items:
                self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, FREE, env)
            return self.block(s.body, [env])
        if isinstance(s, ast.Try):
            out = []
            rs = self.block(s.body, [env])
            for k, e2, v in rs:
                if k == "next":
                    out += self.block(s.orelse, [e2])
                elif k != "raise":
                    out.append((k, e2, v))
            for h in s.handlers:
                e2 = dict(env)
                if h.name:
                    e2[h.name] = FREE
                if not any(k == "raise" for k, _, _ in rs):
                    e2["%fuzzy"] = True
                out += self.block(h.body, [e2])
            if not s.handlers:
                out += [r for r in rs if r[0] == "raise"]
            if s.finalbody:
                fin = []
                for k, e2, v in out:
                    for k2, e3, v2 in self.block(s.finalbody, [e2]):
                        fin.append((k, e3, v) if k2 == "next" else (k2, e3, v2))
                out = fin
            return out
        env["%fuzzy"] = True
        return [("next", env, None)]

    def loop(self, s, env):
        r = self.elements(self.ev(s.iter, env))
        out, broke = [], []

        def once(envs, val):
            nxt = []
            for en in envs:
                en = dict(en)
                self.bind(s.target, val, en)
                if val == FUZZY:
                    en["%fuzzy"] = True
                for k, e2, v in self.block(s.body, [en]):
                    if k in ("next", "cont"):
                        nxt.append(e2)
                    elif k == "brk":
                        broke.append(("next", e2, None))
                    else:
                        out.append((k, e2, v))
            return nxt

        def fix(envs, val):
            seen = self.dedup(envs)
            while True:
                more = self.dedup(seen + once(seen, val))
                if len(more) == len(seen):
                    return seen
                seen = more

        envs = [env]
        if r is None:
            envs = fix(envs, FUZZY)
        else:
            if r[1]:
                envs = fix(envs, FREE)
            ours_sure = r[0]
            for x in ours_sure:
                envs = once(envs, x)
                if r[1]:
                    envs = fix(envs, FREE)
        return out + broke + self.block(s.orelse, self.dedup(envs))


BASE = dict(attr=True, df=False, generic=False, generator=False, haspk=True, dict=True, cont=True)
ROWS = {"extra": "has a field that is not in the schema", "lack": "lacks one of the fields", "list": "is a list of values",
        "scalar": "is a single value"}


def _scenarios():
    tic = [("the object has no such table", dict(attr=False)),
           ("an ordinary table is a DataFrame", dict(df=True, dict=False)),
           ("a keyless table is a DataFrame", dict(df=True, dict=False, haspk=False)),
           ("a generic table is no DataFrame", dict(generic=True, haspk=False, dict=False)),
           ("a table with primary key is no dictionary", dict(dict=False, rowok=True)),
           ("a table with primary key is no container", dict(dict=False, cont=False)),
           ("a keyless table is no container", dict(dict=False, cont=False, haspk=False)),
           ("a key of the wrong length", dict(keyok=False))]
    for r, what in ROWS.items():
        tic.append((f"a row of a table with primary key {what}", dict(row=r)))
        tic.append((f"a row of a keyless table {what}", dict(row=r, haspk=False, dict=False)))
        tic.append((f"a row of a generator table {what}", dict(row=r, haspk=False, dict=False, cont=False, callable=True, generator=True)))
    pan = [("the object has no such table", dict(attr=False)),
           ("a table is no DataFrame", dict(dict=False)),
           ("a primary key field is missing", dict(df=True, dict=False, fld="pks")),
           ("a data field is missing", dict(df=True, dict=False, fld="dfs")),
           ("the data field of a keyless table is missing", dict(df=True, dict=False, fld="dfs", haspk=False))]
    return tic, pan


def verdicts(ctx, rep, tic_q, pan_q):
    rep.rule("verdict", "the schema check of an object, run abstractly with one table assumed not to match in one particular way and "
             "every other table arbitrary, comes out false or raises on every path")
    tic, pan = _scenarios()
    for q, scens in ((tic_q, tic), (pan_q, pan)):
        fn = ctx.prog.fn(q)
        cls = q.rsplit(".", 1)[0]
        if len(fn.params) < 2:
            raise AnchorError(f"{q} takes no object")
        for what, over in scens:
            S = dict(BASE, **over)
            v = Verdict(ctx.prog, cls, S)
            env = {"%fn": fn, fn.params[0]: t("self"), fn.params[1]: t("obj")}
            a = fn.node.args
            for n, d in zip(fn.params[len(fn.params) - len(a.defaults):], a.defaults):
                env[n] = v.ev(d, {"%fn": fn})
            try:
                outs = v.run(fn.node, env, fn)
            except TooMuch:
                raise AnchorError(f"{q}: too many paths for '{what}'")
            rep.fns |= v.fns
            bad = [ln for k, val, fz, ln in outs if k == "ret" and not fz and v.truth(val) in (True, None)]
            clear = [1 for k, val, fz, ln in outs if k == "raise" or (k == "ret" and not fz and v.truth(val) is False)]
            if not bad and not clear:
                raise AnchorError(f"{q}: no path understood for '{what}'")
            rep.ob("verdict", f"{ctx.loc(fn, fn.node)} {what}", not bad, key=f"{q}:{what}",
                   what=f"{q} may accept an object where {what} (return at line {', '.join(map(str, sorted(set(x for x in bad if x))))})")
