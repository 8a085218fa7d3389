"""A flow-sensitive, interprocedural (call-inlining) abstract interpreter over the Python syntax tree.

Abstract values are symbolic terms (terms.py).  A state carries
  env    variables -> terms
  facts  clauses known to hold on every path to this point (from tests, verify(), assert, raise-guards,
         for-all generalisation over completed loops, all()/any(), set filters)
  must   marks every path has passed;  may  marks some path has passed
  heap   contents of containers made by the analysed code
Helper functions of the package are interpreted at each call with the caller's arguments, so moving code into a
helper (or out of one) does not change what a rule sees.  Nothing is executed and no solver is used.
"""
import ast
import builtins

from .loader import Program, AnchorError, FnInfo, _own_nodes
from .terms import *
from . import terms as T

BUILTINS = set(dir(builtins))

MUTATORS = {"append", "extend", "insert", "remove", "pop", "popitem", "clear", "update", "add", "discard",
            "setdefault", "sort", "reverse", "difference_update", "intersection_update",
            "symmetric_difference_update", "__setitem__", "__delitem__", "__setattr__", "__delattr__", "__ior__",
            "appendleft", "popleft"}

COPYING = {"list", "tuple", "set", "frozenset", "sorted", "dict", "defaultdict", "OrderedDict", "reversed", "iter"}


class Cont:
    """Contents of a fresh container."""
    __slots__ = ("elems", "items", "conds", "exact", "order")

    def __init__(self, elems=frozenset(), items=frozenset(), conds=frozenset(), exact=None, order=None):
        self.elems, self.items, self.conds, self.exact = elems, items, conds, exact
        self.order = order               # the sequence it was made from, element by element (("perm", ..): rearranged)

    def key(self):
        return (self.elems, self.items, self.conds, self.exact, self.order)

    def __eq__(self, o):
        return isinstance(o, Cont) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def join(self, o):
        if self == o:
            return self
        return Cont(_cap(self.elems | o.elems), _capi(self.items | o.items), self.conds & o.conds, None,
                    self.order if self.order == o.order else None)


def _cap(s):
    if len(s) > 24:
        rs = set()
        for t in s:
            rs.update(roots(t))
        return frozenset([("mix", frozenset(rs))])
    return s


def _capi(s):
    if len(s) > 40:
        rs = set()
        for k, v in s:
            rs.update(roots(v))
        return frozenset([(UNKNOWN, ("mix", frozenset(rs)))])
    return s


class State:
    __slots__ = ("env", "facts", "must", "may", "heap", "dead")

    def __init__(self, env=None, facts=frozenset(), must=frozenset(), may=frozenset(), heap=None):
        self.env = env if env is not None else {}
        self.facts, self.must, self.may = facts, must, may
        self.heap = heap if heap is not None else {}
        self.dead = False

    def copy(self):
        s = State(dict(self.env), self.facts, self.must, self.may, dict(self.heap))
        s.dead = self.dead
        return s

    def assume(self, term, pol):
        if self.dead:
            return self
        cl = cnf(term, pol)
        if cl is None:
            self.dead = True
            return self
        for t, p in [l for c in cl if len(c) == 1 for l in c]:
            c = self.heap.get(t) if t[0] == "new" else None
            if c is not None and len(c.elems) == 1 and not (c.items or c.conds or c.exact) and c.order is not None:
                x = next(iter(c.elems))              # a copy of what a call gave is empty when that is
                if x[0] == "elem" and x[1] == c.order and x[1][0] == "method":
                    cl = list(cl) + [frozenset([(x[1], p)])]
        f = add_clauses(self.facts, cl)
        if f is None:
            self.dead = True
        else:
            self.facts = f
        return self

    def same(self, o):
        return (self.dead == o.dead and self.facts == o.facts and self.must == o.must and self.may == o.may
                and self.env == o.env and self.heap == o.heap)


def join(a, b, cond=None):
    """Join two states; `cond`: the branch condition term (a is its true side)."""
    if a is None or a.dead:
        return b if b is not None else a
    if b is None or b.dead:
        return a
    env = {}
    for k in set(a.env) | set(b.env):
        x, y = a.env.get(k), b.env.get(k)
        env[k] = x if x == y else union([x, y])
    facts = a.facts & b.facts
    lit = None
    if cond is not None:
        ca = cnf(cond, True)
        if ca is not None and len(ca) == 1 and len(ca[0]) == 1:
            lit = next(iter(ca[0]))
        extra = set()
        if lit is not None:
            for c in a.facts - b.facts:
                if lit not in c and len(c) < MAX_CLAUSE:
                    extra.add(c | {neg_lit(lit)})
            for c in b.facts - a.facts:
                if neg_lit(lit) not in c and len(c) < MAX_CLAUSE:
                    extra.add(c | {lit})
        else:
            # cond is a conjunction/disjunction: use its clausal negation as guards when small
            na = cnf(cond, False)
            if na is not None and len(na) == 1 and len(na[0]) <= 2:
                for c in a.facts - b.facts:
                    if len(c | na[0]) <= MAX_CLAUSE:
                        extra.add(c | na[0])
            if ca is not None and len(ca) == 1 and len(ca[0]) <= 2:
                for c in b.facts - a.facts:
                    if len(c | ca[0]) <= MAX_CLAUSE:
                        extra.add(c | ca[0])
        extra = {c for c in extra if not any(neg_lit(l) in c for l in c)
                 and not any(d <= c for d in facts)}
        facts = facts | extra
    else:
        # clauses of one side weaker than facts of the other
        extra = {c for c in a.facts - b.facts if len(c) > 1 and any(d <= c for d in b.facts)}
        extra |= {c for c in b.facts - a.facts if len(c) > 1 and any(d <= c for d in a.facts)}
        # a literal that tells the two sides apart guards what only one of them knows
        ua = {l for c in a.facts - b.facts if len(c) == 1 for l in c}
        ub = {l for c in b.facts - a.facts if len(c) == 1 for l in c}
        split = [l for l in ua if neg_lit(l) in ub]
        if split:
            l = min(split, key=lambda x: (T.size(x[0]), repr(x)))
            extra |= {frozenset([x, neg_lit(l)]) for x in ua if x != l}
            extra |= {frozenset([x, l]) for x in ub if x != neg_lit(l)}
        facts = facts | extra
    if a.heap is b.heap:
        heap = a.heap
    else:
        big, small = (a.heap, b.heap) if len(a.heap) >= len(b.heap) else (b.heap, a.heap)
        heap = dict(big)
        get = big.get
        for k, v in small.items():
            w = get(k)
            if w is v:
                continue
            heap[k] = v if w is None else w.join(v)
    s = State(env, facts, a.must & b.must, a.may | b.may, heap)
    return s


_BOOLS = (T.TRUE, T.FALSE)


class Collector:
    catches = False

    def __init__(self, frame):
        self.frame, self.st = frame, None

    def add(self, st, env=None):
        s = State(dict(env if env is not None else st.env), st.facts, st.must, st.may, st.heap)
        self.st = s if self.st is None else join(self.st, s)


class Frame:
    def __init__(self, fn, captured, call_node, self_term=None):
        self.fn, self.captured, self.call_node, self.self_term = fn, captured, call_node, self_term
        self.cur = None
        self.returns, self.yields = [], []
        self.loops, self.stops = [], []


class Event:
    __slots__ = ("kind", "node", "fn", "facts", "must", "may", "data", "stack", "st")

    def __init__(self, kind, node, fn, st, data, stack):
        self.kind, self.node, self.fn, self.data, self.stack = kind, node, fn, data, stack
        self.facts, self.must, self.may, self.st = st.facts, st.must, st.may, st

    def __getattr__(self, k):
        try:
            return self.data[k]
        except KeyError:
            raise AttributeError(k)


class Client:
    """Base class of rules: override `event`; return marks to add to the state."""
    opaque = frozenset()

    def event(self, ev, interp):
        return None


class Interp:
    MAX_DEPTH = 22
    MAX_CALLS = 400000

    def __init__(self, prog, clients=(), opaque=(), models=None, hints=None, config=None):
        self.prog, self.clients = prog, list(clients)
        self.opaque = set(opaque)
        self.models = models or {}
        self.frames, self.trystack = [], []
        self.acc_env = {}
        self.class_bases, self.class_attrs = {}, {}
        self.hints = hints or {}
        self.n_calls = 0
        self.n_events = 0
        self.fns_seen = set()
        self.global_cache = {}
        self.unique_methods = {}
        for c in prog.classes.values():
            for m, q in c.methods.items():
                self.unique_methods.setdefault(m, []).append(q)
        self.methods_by_class = {c.qual: c.methods for c in prog.classes.values()}
        self.inline_init = set()
        self.dom_vals = {}
        self.dom = None                # optional abstract value domain (rules_inf)
        self.refine = None             # optional hook: value chosen on a branch -> value, given that branch's facts
        self.unresolved = {}
        self.comp_over = {}            # comprehension -> what it ranges over (latest evaluation)
        self.inner = False             # follow what is added to containers inside fresh containers
        self.joined = {}               # joined text -> the orders of what was joined
        self.callsite_targets = {}     # node -> set of quals

    # ------------------------------------------------------------------ events
    def emit(self, kind, node, st, **data):
        if st.dead:
            return
        self.n_events += 1
        if not self.clients:
            if kind in ("setitem", "delitem", "mutate"):
                self._forget(data["base"], st)
            return
        stack = tuple(f.fn.qual for f in self.frames)
        ev = Event(kind, node, self.frames[-1].fn if self.frames else None, st, data, stack)
        if kind in ("setitem", "delitem", "mutate"):     # the event keeps the facts that held before the write
            self._forget(data["base"], st)
        for c in self.clients:
            marks = c.event(ev, self)
            if marks:
                st.must = st.must | frozenset(marks)
                st.may = st.may | frozenset(marks)
                for m in marks:
                    if m[0] == "fact":              # survives joins as a disjunction with the branch condition
                        f = T.add_clauses(st.facts, [frozenset([(m, True)])])
                        st.facts = st.facts if f is None else f

    # ------------------------------------------------------------------ entry points
    def run_entry(self, qual, self_term=None, st=None, args=None):
        fn = self.prog.fn(qual)
        st = st or State()
        env = {}
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if self_term is None and fn.cls is not None and names and "staticmethod" not in fn.decorators:
            self_term = ("self", fn.cls.qual)
        for i, n in enumerate(names):
            if i == 0 and self_term is not None and fn.cls is not None and "staticmethod" not in fn.decorators:
                env[n] = self_term
            else:
                env[n] = (args or {}).get(n, ("param", qual, n))
        for x in a.kwonlyargs:
            env[x.arg] = (args or {}).get(x.arg, ("param", qual, x.arg))
        if a.vararg:
            env[a.vararg.arg] = ("param", qual, a.vararg.arg)
        if a.kwarg:
            env[a.kwarg.arg] = ("param", qual, a.kwarg.arg)
        return self._run_frame(fn, (), env, st, None, self_term)

    def _run_frame(self, fn, captured, env, st, call_node, self_term):
        fr = Frame(fn, captured, call_node, self_term)
        self.fns_seen.add(fn.qual)
        s = State(env, st.facts, st.must, st.may, st.heap if not isinstance(st.heap, dict) else dict(st.heap))
        fr.cur = s
        self.frames.append(fr)
        acc = self.acc_env.setdefault(fn.qual, {})
        for k, v in env.items():
            self._acc(acc, k, v)
        try:
            if fn.is_lambda:
                v = self.eval(fn.node.body, s)
                if not s.dead:
                    self.emit("return", fn.node.body, s, value=v, frame=fr)
                    fr.returns.append((v, s))
                end = None
            else:
                end = self.block(fn.node.body, s)
                if end is not None and not end.dead:
                    if not fn.is_gen:
                        self.emit("return", fn.node, end, value=NONE, frame=fr)
                    fr.returns.append((NONE, end))
        finally:
            self.frames.pop()
        if fn.is_gen and not fr.returns and fr.stops:      # an endless generator: whoever uses it stops at some yield
            fr.returns.append((NONE, fr.stops[-1]))
        if not fr.returns:
            return None, None
        out = None
        for _, rs in fr.returns:
            out = rs if out is None else join(out, rs)
        if fn.is_gen:
            site = ("new", "list", self._site(fn.node))
            out.heap = dict(out.heap)
            out.heap[site] = Cont(_cap(frozenset(fr.yields)))
            return site, out
        vals = [(v, rs) for v, rs in fr.returns]
        if len(vals) == 1:
            return vals[0][0], out
        self._keep_marks(vals, out)
        ts = [v for v, _ in vals]
        if any(T._truth_const(v) is not None for v in ts) and len(vals) <= 8:
            merged = {}
            for v, rs in vals:
                d = rs.facts - out.facts
                merged[v] = merged[v] & d if v in merged else d
            if len(merged) == 1:
                return next(iter(merged)), out
            alt = tuple(sorted(((v, frozenset(c for c in d if len(c) <= 3)) for v, d in merged.items()),
                               key=repr))
            if sum(size(v) + sum(size(l[0]) for c in d for l in c) for v, d in alt) < 600:
                return ("choice", alt), out
        return union(ts), out

    def _keep_marks(self, vals, out):
        """what clients marked about one returned value holds wherever that value is what was returned"""
        by = {}
        for v, rs in vals:
            for x in alts(v):
                by.setdefault(x, []).append(rs)
        for x, group in by.items():
            if x[0] == "const" or len(group) == len(vals):
                continue
            g = None
            for rs in group:
                g = rs if g is None else join(g, rs)
            extra = [c for c in g.facts - out.facts if any(l[0][0] == "fact" and l[0][2] == x for l in c)]
            if extra:
                f = add_clauses(out.facts, extra)
                out.facts = out.facts if f is None else f

    def _site(self, node):
        mod = self.frames[-1].fn.module if self.frames else ""
        base = (mod, getattr(node, "lineno", 0), getattr(node, "col_offset", 0))
        ctx = ()
        if len(self.frames) > 1:
            ctx = tuple((f.fn.module, getattr(f.call_node, "lineno", 0)) for f in self.frames[-2:] if f.call_node)
        return base + ctx

    def _acc(self, acc, k, v):
        if v is None:
            return
        if k not in acc:
            acc[k] = v
        elif acc[k] != v:
            acc[k] = union([acc[k], v])

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st):
        for s in stmts:
            if st is None or st.dead:
                return None
            st = self.stmt(s, st)
        return st if st is not None and not st.dead else None

    def note_try(self, st):
        if self.trystack:
            c = self.trystack[-1]
            if c.frame is self.frames[-1]:
                c.add(st)
            else:
                c.add(st, env=c.frame.cur.env)

    def stmt(self, n, st):
        self.frames[-1].cur = st
        if self.trystack:
            self.note_try(st)
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            return st
        r = m(n, st)
        return r

    def s_Expr(self, n, st):
        v = self.eval(n.value, st)
        if isinstance(n.value, ast.Call) and not st.dead:
            self.emit("discard", n, st, value=v)
        return st

    def s_Pass(self, n, st):
        return st

    def s_Global(self, n, st):
        return st

    s_Nonlocal = s_Global

    def s_Import(self, n, st):
        for a in n.names:
            nm = a.asname or a.name.split(".")[0]
            self.bind(nm, self._module_term(a.name if a.asname else a.name.split(".")[0]), st)
        return st

    def s_ImportFrom(self, n, st):
        for a in n.names:
            self.bind(a.asname or a.name, self._from_term(n.module, a.name), st)
        return st

    def bind(self, name, term, st):
        st.env[name] = term
        fr = self.frames[-1]
        self._acc(self.acc_env.setdefault(fr.fn.qual, {}), name, term)

    def s_Assign(self, n, st):
        v = self.eval(n.value, st)
        if st.dead:
            return None
        for t in n.targets:
            self.assign(t, v, st, n)
        return st

    def s_AnnAssign(self, n, st):
        if n.value is not None:
            v = self.eval(n.value, st)
            self.assign(n.target, v, st, n)
        return st

    def s_AugAssign(self, n, st):
        v = self.eval(n.value, st)
        if isinstance(n.target, ast.Name):
            old = self.lookup(n.target.id, st, n.target)
            if self._maybe_container(old, st):
                self.emit("mutate", n, st, base=old, method="augassign", args=(v,), kwargs={})
                self._heap_add(old, st, self._elems(v, st))
                self.bind(n.target.id, old, st)
            else:
                self.bind(n.target.id, self._binop(type(n.op).__name__, old, v), st)
        elif isinstance(n.target, ast.Attribute):
            b = self.eval(n.target.value, st)
            self._kill(("attr", b, n.target.attr), st)
            self.emit("setattr", n, st, base=b, name=n.target.attr, value=v, aug=True)
        elif isinstance(n.target, ast.Subscript):
            b = self.eval(n.target.value, st)
            k = self.eval(n.target.slice, st)
            self.emit("setitem", n, st, base=b, key=k, value=v, aug=True)
            if v[0] == "const" and isinstance(v[1], (int, float)):
                v = limit(("op", "+" if isinstance(n.op, ast.Add) else type(n.op).__name__, (("item", b, k), v)))
            self._heap_set(b, k, v, st)
        return st

    def _maybe_container(self, t, st):
        for x in alts(t):
            if x[0] == "new":
                return True
        return False

    def s_Delete(self, n, st):
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                b, k = self.eval(t.value, st), self.eval(t.slice, st)
                self.emit("delitem", n, st, base=b, key=k)
            elif isinstance(t, ast.Attribute):
                b = self.eval(t.value, st)
                self.emit("delattr", n, st, base=b, name=t.attr)
        return st

    def s_Return(self, n, st):
        v = self.eval(n.value, st) if n.value is not None else NONE
        if st.dead:
            return None
        fr = self.frames[-1]
        if self.refine is not None:
            v = self.refine(v, st)
        self.emit("return", n, st, value=v, frame=fr)
        fr.returns.append((v, st.copy()))
        return None

    def s_Raise(self, n, st):
        v = self.eval(n.exc, st) if n.exc is not None else NONE
        if st.dead:
            return None
        self.emit("raise", n, st, value=v)
        self._propagate_raise(st)
        return None

    def _propagate_raise(self, st):
        if self.trystack:
            self.note_try(st)

    def s_Assert(self, n, st):
        c = self.eval(n.test, st)
        f = st.copy().assume(c, False)
        if not f.dead:
            self.emit("assert_fail", n, f, cond=c)
            self._propagate_raise(f)
        st.assume(c, True)
        return st

    def s_If(self, n, st):
        c = self.eval(n.test, st)
        if st.dead:
            return None
        self.emit("branch", n, st, cond=c)
        a, b = st.copy().assume(c, True), st
        b = b.assume(c, False)
        if self.dom is not None:
            self._narrow(n.test, a, True)
            self._narrow(n.test, b, False)
        ra = self.block(n.body, a) if not a.dead else None
        rb = self.block(n.orelse, b) if not b.dead else None
        if self.refine is not None and ra is not None and rb is not None:
            for k in set(ra.env) & set(rb.env):
                if ra.env[k] != rb.env[k]:
                    ra.env[k], rb.env[k] = self.refine(ra.env[k], ra), self.refine(rb.env[k], rb)
        if self.dom is not None and ra is not None and rb is not None:
            ra, rb = self.dom.pick(n, ra, rb)
        r = join(ra, rb, c)
        if ra is not None and rb is not None and not ra.dead and not rb.dead and size(c) <= 100:
            for k in set(ra.env) & set(rb.env):        # flag variables remember what decided them
                x, y = ra.env[k], rb.env[k]
                if x != y and (x in _BOOLS or y in _BOOLS) and size(x) + size(y) <= 60:
                    r.env[k] = ("ifexp", c, x, y)
        return r

    def s_For(self, n, st):
        itv = self.eval(n.iter, st)
        if st.dead:
            return None
        fr = self.frames[-1]
        el, conds = self._elem(itv, st)
        self.emit("iter", n, st, over=itv, elem=el, conds=conds)
        # small exact literal collections are unrolled, so that `for x in ("a", "b")` is precise
        unroll = self._exact(itv, st)
        if unroll is not None and 0 < len(unroll) <= 6 and any(
                x[0] in ("const", "tuple", "func", "bound", "new", "class") for x in unroll):
            return self._unrolled(n, st, unroll)
        els = [x for x in walk(el) if isinstance(x, tuple) and x and x[0] in ("elem", "idx")]
        entry = st
        head = st.copy()
        exit_state, exported = None, frozenset()
        breaks = []
        unit_conds = [next(iter(c)) for c in conds if len(c) == 1]
        all_unit = all(len(c) == 1 for c in conds)
        for it in range(4):
            fr.loops.append({"breaks": [], "continues": []})
            body = head.copy()
            if conds:
                f = add_clauses(body.facts, conds)
                if f is not None:
                    body.facts = f
            body_in_facts = body.facts
            self.assign(n.target, el, body, n, loop=True)
            self.emit("loop_enter", n, body, over=itv, elem=el)
            end = self.block(n.body, body)
            lp = fr.loops.pop()
            for c in lp["continues"]:
                end = join(end, c)
            breaks = lp["breaks"]
            exported = frozenset()
            if end is not None and not end.dead and not lp["breaks"]:
                if all_unit:
                    guards = frozenset(neg_lit(l) for l in unit_conds)
                    exp = set()
                    for c in end.facts - head.facts:
                        if any(contains(l[0], e) for l in c for e in els) if els else False:
                            nc = c | guards
                            if len(nc) <= MAX_CLAUSE and not any(neg_lit(l) in nc for l in nc):
                                exp.add(nc)
                    exported = frozenset(exp)
            nh = join(head, end) if end is not None else head
            nh = State(nh.env, nh.facts & head.facts, nh.must, nh.may, nh.heap)
            if nh.same(head):
                break
            head = nh
        out = head.copy()
        self.emit("loop_exit", n, out, over=itv, elem=el, exported=exported,
                  body_must=(end.must if end is not None and not end.dead else None), breaks=len(breaks),
                  body_may=(end.may if end is not None and not end.dead else None))
        if exported:
            f = add_clauses(out.facts, exported)
            if f is not None:
                out.facts = f
        if n.orelse:
            out = self.block(n.orelse, out)
        for b in breaks:
            out = join(out, b)
        return out

    def _unrolled(self, n, st, vals):
        fr = self.frames[-1]
        outs = []
        for v in vals:
            if st is None or st.dead:
                break
            fr.loops.append({"breaks": [], "continues": []})
            self.assign(n.target, v, st, n, loop=True)
            end = self.block(n.body, st)
            lp = fr.loops.pop()
            for c in lp["continues"]:
                end = join(end, c)
            outs.extend(lp["breaks"])
            st = end
        if st is not None and n.orelse:
            st = self.block(n.orelse, st)
        for b in outs:
            st = join(st, b)
        return st

    def s_While(self, n, st):
        fr = self.frames[-1]
        head = st.copy()
        breaks, last_c = [], None
        for it in range(4):
            body = head.copy()
            c = self.eval(n.test, body)
            self.emit("branch", n, body, cond=c)
            last_c = c
            b = body.copy().assume(c, True)
            fr.loops.append({"breaks": [], "continues": []})
            end = self.block(n.body, b) if not b.dead else None
            lp = fr.loops.pop()
            for k in lp["continues"]:
                end = join(end, k)
            breaks = lp["breaks"]
            nh = join(head, end) if end is not None else head
            nh = State(nh.env, nh.facts & head.facts, nh.must, nh.may, nh.heap)
            if nh.same(head):
                break
            head = nh
        out = head.copy()
        c = self.eval(n.test, out)
        out.assume(c, False)
        if n.orelse and not out.dead:
            out = self.block(n.orelse, out)
        for b in breaks:
            out = join(out, b)
        return out if out is not None and not out.dead else None

    def s_Break(self, n, st):
        lp = self.frames[-1].loops
        if lp:
            lp[-1]["breaks"].append(st.copy())
        return None

    def s_Continue(self, n, st):
        lp = self.frames[-1].loops
        if lp:
            lp[-1]["continues"].append(st.copy())
        return None

    def s_With(self, n, st):
        cms = []
        for it in n.items:
            v = self.eval(it.context_expr, st)
            if st.dead:
                return None
            self.emit("with_enter", it.context_expr, st, cm=v)
            ent = self._dunder(v, "__enter__", (), st, it.context_expr)
            ent = v if ent is None else ent
            if it.optional_vars is not None:
                self.assign(it.optional_vars, ent, st, n)
            cms.append(v)
        col = Collector(self.frames[-1])
        end = self.block(n.body, st)
        for v in reversed(cms):
            if end is not None and not end.dead:
                self._dunder(v, "__exit__", (UNKNOWN,) * 3, end, n)
                self.emit("with_exit", n, end, cm=v)
        return end

    def _dunder(self, v, name, args, st, node):
        for x in alts(v):
            c = self.type_of(x)
            if c:
                q = self.find_method(c, name)
                if q:
                    return self.call_fn(q, (), x, list(args), {}, st, node)
        return None

    def s_Try(self, n, st):
        fr = self.frames[-1]
        col = Collector(fr)
        col.catches = any(h.type is None or {ast.unparse(t) for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])} &
                          {"Exception", "BaseException"} for h in n.handlers)
        col.add(st)
        self.trystack.append(col)
        nret = len(fr.returns)
        self.emit("try_enter", n, st)
        try:
            end = self.block(n.body, st.copy())
        finally:
            self.trystack.pop()
        if end is not None and n.orelse:
            end = self.block(n.orelse, end)
        hends = []
        catch_all = False
        sure = False                    # abstract values: the one thing done in the body is known not to fail
        if self.dom is not None and all(isinstance(b, ast.Return) or isinstance(b, ast.Assign) and
                                        isinstance(b.targets[0], ast.Name) or _appends(b) for b in n.body):
            got = [self.dom_vals.get(id(b.value.args[0]), UNKNOWN) for b in n.body
                   if isinstance(b, ast.Expr) and not isinstance(b.value.args[0], ast.Name)]
            got += [v for v, _ in fr.returns[nret:]]
            env = end.env if end is not None else fr.returns[-1][1].env if len(fr.returns) > nret else None
            if env is not None:
                got += [env.get(x.id, UNKNOWN) for b in n.body if isinstance(b, (ast.Assign, ast.Expr))
                        for x in (b.targets[0] if isinstance(b, ast.Assign) else b.value.args[0],) if isinstance(x, ast.Name)]
                sure = bool(got) and all(v[0] == "abs" for g in got for v in alts(g))
        for h in n.handlers if not sure else ():
            hs = col.st.copy()
            ht = "*" if h.type is None else ast.unparse(h.type)
            if ht in ("*", "Exception", "BaseException"):
                catch_all = True
            if h.name:
                self.bind(h.name, ("exc", ht), hs)
            self.emit("handler", h, hs, type=ht)
            hend = self.block(h.body, hs)
            if hend is not None:
                hends.append(hend)
        if not catch_all and self.trystack and col.st is not None:
            oc = self.trystack[-1]
            oc.add(col.st, env=None if oc.frame is fr else oc.frame.cur.env)
        out = end
        for h in hends:
            out = join(out, h)
        if n.finalbody:
            # the exceptional (or early-return) pass through finally, for its events only
            ab = col.st.copy()
            for _, rs in fr.returns[nret:]:
                ab = join(ab, State(rs.env, rs.facts, rs.must, rs.may, rs.heap))
            self.emit("finally_abnormal", n, ab)
            self.block(n.finalbody, ab.copy())
            for i in range(nret, len(fr.returns)):
                v, rs = fr.returns[i]
                r2 = self.block(n.finalbody, rs.copy())
                if r2 is not None:
                    fr.returns[i] = (v, r2)
            if out is not None:
                out = self.block(n.finalbody, out)
        return out

    s_TryStar = s_Try

    def s_FunctionDef(self, n, st):
        fi = self.prog.fn_of_node[n]
        for d in n.args.defaults + [d for d in n.args.kw_defaults if d]:
            self.eval(d, st)
        t = self._func_term(fi, st)
        for d in reversed(n.decorator_list):
            dv = self.eval(d, st)
            if dv[0] == "func":
                t = self.call_value(dv, [t], {}, st, n)
        self.bind(n.name, t, st)
        return st

    def s_ClassDef(self, n, st):
        ci = self.prog.cls_of_node[n]
        self.class_bases[ci.qual] = [self.eval(b, st) for b in n.bases]
        self.bind(n.name, ("class", ci.qual), st)
        self.emit("classdef", n, st, cls=ci.qual)
        return st

    def _func_term(self, fi, st):
        cap = []
        fr = self.frames[-1] if self.frames else None
        if fr is not None:
            for v in sorted(fi.free):
                if v in fr.fn.locals_ and v in st.env:
                    cap.append((v, st.env[v]))
                elif v not in fr.fn.locals_:
                    c = dict(fr.captured).get(v)
                    if c is not None:
                        cap.append((v, c))
        cap = tuple((k, v) for k, v in cap if size(v) <= 150)
        return ("func", fi.qual, cap)

    # ------------------------------------------------------------------ assignment
    def assign(self, t, v, st, node, loop=False):
        if isinstance(t, ast.Name):
            self.bind(t.id, v, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, ("op", "rest", (v,)), st, node)
        elif isinstance(t, (ast.Tuple, ast.List)):
            parts = self._destructure(v, len(t.elts), st)
            self.emit("unpack", node, st, value=v, n=len(t.elts), loop=loop)
            for a, b in zip(t.elts, parts):
                self.assign(a, b, st, node)
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value, st)
            self._kill(("attr", b, t.attr), st)
            self.emit("setattr", node, st, base=b, name=t.attr, value=v, aug=False)
            self._learn(b, t.attr, v, st)
            self._set_class_attr(b, t.attr, v, st)
            for x in alts(b):
                c = self.type_of(x)
                q = self.find_method(c, t.attr + "=setter") if c else None
                if q:
                    self.call_fn(q, (), x, [v], {}, st, node)
        elif isinstance(t, ast.Subscript):
            b, k = self.eval(t.value, st), self.eval(t.slice, st)
            self.emit("setitem", node, st, base=b, key=k, value=v, aug=False)
            self._heap_set(b, k, v, st)
            for x in alts(b):
                c = self.type_of(x)
                q = self.find_method(c, "__setitem__") if c else None
                if q and x[0] == "inst":
                    self.call_fn(q, (), x, [k, v], {}, st, node)

    def _set_class_attr(self, base, name, v, st):
        for x in alts(base):
            if x[0] in ("self", "inst"):
                for y in alts(v):
                    if y[0] in ("inst", "class", "func", "bound") and not str(y[1]).startswith("utils."):
                        self.class_attrs.setdefault((x[1], name), set()).add(y)
                    elif y[0] == "param" and self.hints.get(y[2]) and name not in self.hints:
                        self.class_attrs.setdefault((x[1], name), set()).add(y)   # e.g. self.tdf = tic_dat_factory
            if x[0] in ("new", "inst"):
                key = (x, "." + name)
                st.heap = dict(st.heap)
                st.heap[key] = Cont(frozenset([v]))

    def _destructure(self, v, n, st):
        outs = [[] for _ in range(n)]
        for x in alts(v):
            if x[0] == "tuple" and len(x) - 1 == n:
                for i in range(n):
                    outs[i].append(x[1 + i])
                continue
            if x[0] == "new":
                c = st.heap.get(x)
                if c is not None and c.exact is not None and len(c.exact) == n:
                    for i in range(n):
                        outs[i].append(c.exact[i])
                    continue
                if c is not None and c.elems:
                    for i in range(n):
                        outs[i].extend(c.elems)
                    continue
            for i in range(n):
                outs[i].append(self._item(x, const(i), st))
        return [union(o) for o in outs]

    def _kill(self, term, st):
        """Forget what is known about a location that has just been written."""
        st.facts = frozenset(c for c in st.facts if not any(contains(l[0], term) for l in c))

    def _learn(self, base, name, v, st):
        """An attribute just set to a value of known truth."""
        tc = T._truth_const(v)
        if tc is None or len(alts(base)) != 1 or base[0] in ("unknown", "mix", "new"):
            return
        f = add_clauses(st.facts, [frozenset([(("attr", base, name), tc)])])
        if f is not None:
            st.facts = f

    def _forget(self, base, st):
        for x in alts(base):
            if x[0] in ("attr", "item", "getattr", "new", "param", "elem", "method"):
                self._kill(x, st)

    # ------------------------------------------------------------------ containers
    def _new(self, kind, node, st, cont):
        site = ("new", kind, self._site(node))
        st.heap = dict(st.heap)
        st.heap[site] = cont
        if self.dom is not None:
            self.dom.made(site, st)
        return site

    def _heap_add(self, base, st, elems, items=()):
        for x in alts(base):
            if x[0] == "new":
                c = st.heap.get(x, Cont())
                st.heap = dict(st.heap)
                st.heap[x] = Cont(_cap(c.elems | frozenset(elems)), _capi(c.items | frozenset(items)),
                                  frozenset() if elems else c.conds, None)

    def _heap_set(self, base, k, v, st):
        for x in alts(base):
            if x[0] == "new":
                c = st.heap.get(x, Cont())
                st.heap = dict(st.heap)
                if x[1] in ("list",):
                    st.heap[x] = Cont(_cap(c.elems | {v}), c.items, frozenset(), None)
                else:
                    items = c.items
                    if T.is_const(k):
                        items = frozenset((a, b) for a, b in items if a != k)
                    st.heap[x] = Cont(_cap(c.elems | {k}), _capi(items | {(k, v)}), frozenset(), None)
            elif x[0] == "item":     # write into an element of a fresh container
                b = x[1]
                if b[0] == "new":
                    c = st.heap.get(b, Cont())
                    st.heap = dict(st.heap)
                    st.heap[b] = Cont(c.elems, _capi(c.items | {(x[2], ("tuple", v))}), c.conds, None)

    def _exact(self, t, st):
        if t[0] == "tuple":
            return list(t[1:])
        if t[0] == "new":
            c = st.heap.get(t)
            if c is not None and c.exact is not None:
                return list(c.exact)
        return None

    def _elems(self, t, st):
        e, _ = self._elem(t, st)
        return set(alts(e)) if e != UNKNOWN else {("elem", t)}

    def _elem(self, t, st):
        """(term for an arbitrary element when iterating t, clauses known to hold for it)"""
        outs, conds = [], None
        for x in alts(t):
            e, c = self._elem1(x, st)
            outs.append(e)
            conds = frozenset(c) if conds is None else conds & frozenset(c)
        return union(outs), conds or frozenset()

    def _elem1(self, x, st):
        k = x[0]
        if self.dom is not None:
            e = self.dom.elem(x)
            if e is not None:
                return e, ()
        if k == "tuple":
            return (union(x[1:]) if len(x) > 1 else UNKNOWN), ()
        if k == "new":
            c = st.heap.get(x)
            if c is not None:
                if c.exact is not None:
                    return (union(c.exact) if c.exact else UNKNOWN), ()
                if c.elems:
                    return union(c.elems), c.conds
                return ("elem", x), ()
        if k == "view":          # ('view', 'items'|'values'|'keys', base)
            kind, b = x[1], x[2]
            if kind == "keys":
                return self._elem(b, st)
            ke, conds = self._elem(b, st)
            if kind == "items":
                if b[0] == "new":
                    c = st.heap.get(b)
                    if c is not None and c.items:
                        return union([("tuple", kk, vv) for kk, vv in c.items]), conds
                return ("tuple", ke, self._item(b, ke, st)), conds
            return self._item(b, ke, st), conds
        if k == "enumerate":
            e, c = self._elem(x[1], st)
            i = ("idx", x[1])
            return ("tuple", ("op", "+", (i, x[2])) if len(x) > 2 else i, e), c
        if k == "zip":
            return ("tuple",) + tuple(self._elem(y, st)[0] for y in x[1]), ()
        if k == "const" and isinstance(x[1], str):
            return ("elem", x), ()
        if k == "op" and x[1] == "+":
            parts = [self._elem(y, st)[0] for y in x[2]]
            return union(parts), ()
        return ("elem", x), ()

    def _item(self, b, k, st):
        outs = []
        for x in alts(b):
            outs.append(self._item1(x, k, st))
        return union(outs)

    def _item1(self, x, k, st):
        if x[0] == "tuple" and k[0] == "const" and isinstance(k[1], int) and -len(x) < k[1] < len(x) - 1:
            return x[1 + k[1]] if k[1] >= 0 else x[len(x) + k[1]]
        if x[0] == "tuple" and k[0] == "slice":
            lo, hi = k[1], k[2]
            if all(y == NONE or (y[0] == "const" and isinstance(y[1], int)) for y in (lo, hi)):
                return ("tuple",) + x[1:][slice(lo[1], hi[1])]
        if x[0] == "const" and isinstance(x[1], str) and k[0] == "const" and isinstance(k[1], int):
            try:
                return const(x[1][k[1]])
            except IndexError:
                return UNKNOWN
        if x[0] == "new":
            c = st.heap.get(x)
            if c is not None:
                if c.exact is not None and k[0] == "const" and isinstance(k[1], int) and \
                        -len(c.exact) <= k[1] < len(c.exact):
                    return c.exact[k[1]]
                if c.items:
                    hit = [v for kk, v in c.items if kk == k]
                    if hit and (T.is_const(k) or all(True for _ in hit)):
                        rest = [v for kk, v in c.items if not T.is_const(kk) and kk != k] if not T.is_const(k) \
                            else [v for kk, v in c.items if not T.is_const(kk)]
                        if x[1] == "defaultdict" or x[1] == "dict" and any(v[0] == "tuple" for v in hit):
                            rest.append(("item", x, k))     # the contents of an inner container stand for it
                        return union(hit + rest)
                    vals = []
                    for kk, v in c.items:
                        if T.is_const(kk) and T.is_const(k):
                            continue
                        if kk[0] in ("elem", "item", "param") and kk != k:
                            v = subst(v, kk, k)
                        vals.append(v)
                    if vals:
                        return union(vals)
                    return ("item", x, k)
                if c.exact is not None:
                    return union(c.exact) if c.exact else UNKNOWN
                if c.elems and k[0] != "slice" and x[1] in ("list", "tuple"):
                    return union(c.elems)
                if k[0] == "slice":
                    return x
        return limit(("item", x, k))

    # ------------------------------------------------------------------ names
    def lookup(self, name, st, node=None):
        if name in st.env:
            return st.env[name]
        if not self.frames:
            return UNKNOWN
        fr = self.frames[-1]
        fn = fr.fn
        if name in fn.locals_:
            return ("unbound", name)
        p = fn.parent
        first = True
        while p is not None:
            if name in p.locals_:
                for f in reversed(self.frames[:-1]):
                    if f.fn.qual == p.qual and f.cur is not None:
                        if name in f.cur.env:
                            # prefer the captured value when both exist and differ only by recursion
                            return f.cur.env[name]
                cap = dict(fr.captured)
                if name in cap:
                    return cap[name]
                a = self.acc_env.get(p.qual, {})
                if name in a:
                    return a[name]
                return ("free", p.qual, name)
            p = p.parent
        cap = dict(fr.captured)
        if name in cap:
            return cap[name]
        return self.global_(fn.module, name)

    def global_(self, module, name):
        key = (module, name)
        if key in self.global_cache:
            return self.global_cache[key]
        m = self.prog.modules.get(module)
        r = None
        if m is not None and name in m.names:
            self.global_cache[key] = ("global", module, name)
            b = m.names[name]
            if b[0] == "fn":
                r = ("func", b[1], ())
            elif b[0] == "cls":
                r = ("class", b[1])
                self._class_def_bases(b[1], module)
            elif b[0] == "mod":
                r = self._module_term(b[1])
            elif b[0] == "from":
                r = self._from_term(b[1], b[2])
            elif b[0] == "val":
                vals = []
                for e in b[1]:
                    if isinstance(e, ast.Constant):
                        vals.append(const(e.value) if not isinstance(e.value, (bytes,)) else UNKNOWN)
                    elif isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
                            m.names.get(e.func.id, ("",))[0] == "fn":
                        vals.append(self._eval_module_expr(e, module))
                    elif isinstance(e, (ast.Name, ast.Attribute, ast.Tuple, ast.Lambda)):
                        vals.append(self._eval_module_expr(e, module))
                    else:
                        vals.append(("global", module, name))
                vals = [v for v in vals if v != NONE] or vals
                r = union(vals)
        if r is None:
            if name in BUILTINS:
                r = ("builtin", name)
            else:
                r = ("extern", name)
        self.global_cache[key] = r
        return r

    def _eval_module_expr(self, e, module):
        fn = _ModFn(module)
        fr = Frame(fn, (), None)
        st = State()
        fr.cur = st
        saved, self.frames = self.frames, [fr]
        ts, self.trystack = self.trystack, []
        cl, self.clients = self.clients, []
        try:
            return self.eval(e, st)
        finally:
            self.frames, self.trystack, self.clients = saved, ts, cl

    def _class_def_bases(self, qual, module):
        if qual in self.class_bases:
            return
        self.class_bases[qual] = []
        ci = self.prog.classes[qual]
        self.class_bases[qual] = [self._eval_module_expr(b, module) for b in ci.bases]

    def _module_term(self, dotted):
        pk = self.prog.package
        if dotted == pk:
            return ("module", pk)
        if dotted.startswith(pk + ".") and dotted[len(pk) + 1:] in self.prog.modules:
            return ("module", dotted)
        return ("extern", dotted)

    def _from_term(self, module, name):
        pk = self.prog.package
        if module and (module == pk or module.startswith(pk + ".")):
            mod = module[len(pk) + 1:] if module != pk else "__init__"
            if module == pk and name in self.prog.modules:
                return ("module", f"{pk}.{name}")
            if mod in self.prog.modules:
                return self.global_(mod, name)
        return ("extern", f"{module}.{name}")

    # ------------------------------------------------------------------ types
    def type_of(self, t):
        if t[0] in ("self", "inst"):
            return t[1]
        if t[0] in ("attr", "param", "free"):
            nm = t[2]
            h = self.hints.get(nm)
            if h:
                return h
        return None

    def mro(self, qual, seen=None):
        seen = seen if seen is not None else []
        if qual in seen or qual not in self.prog.classes:
            return seen
        seen.append(qual)
        ci = self.prog.classes[qual]
        if qual not in self.class_bases and ci.parent_fn is None:
            self._class_def_bases(qual, ci.module)
        bases = self.class_bases.get(qual)
        if bases is None:        # a nested class whose definition has not been interpreted
            bases = [self._static_base(b, ci) for b in ci.bases if isinstance(b, (ast.Name, ast.Attribute))]
        for b in bases:
            for x in alts(b):
                if x[0] == "class":
                    self.mro(x[1], seen)
        return seen

    def _static_base(self, b, ci):
        p = ci.parent_fn
        while p is not None and isinstance(b, ast.Name):
            q = f"{p.qual}.{b.id}"
            if q in self.prog.classes:
                return ("class", q)
            p = p.parent
        return self._eval_module_expr(b, ci.module)

    def find_method(self, qual, name):
        for c in self.mro(qual):
            q = self.prog.classes[c].methods.get(name)
            if q:
                return q
        return None

    # ------------------------------------------------------------------ expressions
    def eval(self, e, st):
        if st.dead:
            return UNKNOWN
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    self.eval(c, st)
            return ("unknown", f"{type(e).__name__}@{e.lineno}:{e.col_offset}")
        r = m(e, st)
        if self.dom is not None and not st.dead:
            r = self.dom.value(r, st, self)
            if isinstance(e, ast.Call):
                self.dom_vals[id(e)] = r
        if r[0] in ("and", "or", "not") and size(r) < 1500:     # conditions are split up into facts at once
            return r
        return limit(r)

    def e_Constant(self, e, st):
        v = e.value
        if v is Ellipsis or isinstance(v, (bytes, complex)):
            return ("const", repr(v))
        return const(v)

    def e_Name(self, e, st):
        return self.lookup(e.id, st, e)

    def e_NamedExpr(self, e, st):
        v = self.eval(e.value, st)
        self.assign(e.target, v, st, e)
        return v

    def e_Attribute(self, e, st):
        b = self.eval(e.value, st)
        if st.dead:
            return UNKNOWN
        return self.attr(b, e.attr, st, e)

    def attr(self, b, name, st, node):
        outs = []
        for x in alts(b):
            outs.append(self._attr1(x, name, st, node))
        return union(outs)

    def _attr1(self, x, name, st, node):
        k = x[0]
        if k == "module":
            mod = x[1][len(self.prog.package) + 1:] if x[1] != self.prog.package else "__init__"
            if x[1] == self.prog.package and name in self.prog.modules:
                return ("module", f"{self.prog.package}.{name}")
            m = self.prog.modules.get(mod)
            if m is not None and name in m.names:
                return self.global_(mod, name)
            return ("extern", f"{x[1]}.{name}")
        if k == "extern":
            return ("extern", f"{x[1]}.{name}")
        if k == "class":
            q = self.find_method(x[1], name)
            if q:
                return ("func", q, ())
            ci = self.prog.classes[x[1]]
            if name in ci.class_attrs:
                return self._eval_module_expr(ci.class_attrs[name], ci.module)
            return ("attr", x, name)
        if k == "super":
            mro = self.mro(x[1])
            for c in mro[1:]:
                q = self.prog.classes[c].methods.get(name)
                if q:
                    return ("bound", x[2], q)
            return ("superattr", x[2], name)
        if k in ("new", "inst"):
            c = st.heap.get((x, "." + name))
            if c is not None:
                return union(c.elems)
        cq = self.type_of(x)
        if cq:
            q = self.find_method(cq, name)
            if q:
                fn = self.prog.fns[q]
                if any(d == "property" or d.endswith("property") for d in fn.decorators):
                    if q in self.opaque:
                        return ("attr", x, name)
                    return self.call_fn(q, (), x, [], {}, st, node)
                if "staticmethod" in fn.decorators:
                    return ("func", q, ())
                return ("bound", x, q)
            for c in self.mro(cq):
                ca = self.class_attrs.get((c, name))
                if ca:
                    if len(ca) == 1:
                        y = next(iter(ca))
                        if y[0] in ("class", "func"):
                            return y
                        if y[0] == "inst":
                            return ("inst", y[1], ("of", x))
                    return union(ca)
        if k == "instattr":
            pass
        return ("attr", x, name)

    def e_Subscript(self, e, st):
        b = self.eval(e.value, st)
        k = self.eval(e.slice, st)
        if st.dead:
            return UNKNOWN
        for x in alts(b):
            c = self.type_of(x)
            if c:
                q = self.find_method(c, "__getitem__")
                if q and q not in self.opaque:
                    return self.call_fn(q, (), x, [k], {}, st, e)
        self.emit("getitem", e, st, base=b, key=k)
        if self.dom is not None:
            r = self.dom.item(b, k, st)
            if r is not None:
                return r
        if k[0] == "slice" and b[0] == "new" and b[1] in ("list", "tuple"):
            c = st.heap.get(b)
            if c is not None and c.exact is None and c.order is not None:      # a part of it, in a container of its own
                return self._copied(self._new(b[1], e, st, Cont(c.elems, c.items, c.conds,
                                                                order=limit(("item", c.order, k)))), [b], e, st)
        return self._item(b, k, st)

    def e_Slice(self, e, st):
        f = lambda x: self.eval(x, st) if x is not None else NONE
        return ("slice", f(e.lower), f(e.upper), f(e.step))

    def e_Tuple(self, e, st):
        return self._seq(e, st, tup=True)

    def _seq(self, e, st, tup):
        vals, exact = [], True
        extra = set()
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st)
                ex = self._exact(v, st)
                if ex is not None:
                    vals.extend(ex)
                else:
                    exact = False
                    extra |= self._elems(v, st)
            else:
                vals.append(self.eval(x, st))
        if tup and exact:
            return ("tuple",) + tuple(vals)
        kind = "tuple" if tup else ("set" if isinstance(e, ast.Set) else "list")
        return self._new(kind, e, st, Cont(_cap(frozenset(vals) | extra), exact=tuple(vals) if exact else None))

    def e_List(self, e, st):
        return self._seq(e, st, tup=False)

    e_Set = e_List

    def e_Dict(self, e, st):
        items, keys = set(), set()
        for k, v in zip(e.keys, e.values):
            vv = self.eval(v, st)
            if k is None:
                it, ks = self._dict_items(vv, st)
                items |= it
                keys |= ks
            else:
                kk = self.eval(k, st)
                items.add((kk, vv))
                keys.add(kk)
        return self._new("dict", e, st, Cont(_cap(frozenset(keys)), _capi(frozenset(items))))

    def _dict_items(self, t, st):
        items, keys = set(), set()
        for x in alts(t):
            if x[0] == "new":
                c = st.heap.get(x, Cont())
                items |= c.items
                keys |= c.elems
                if not c.items and c.exact:       # list of pairs
                    for p in c.exact:
                        if p[0] == "tuple" and len(p) == 3:
                            items.add((p[1], p[2]))
                            keys.add(p[1])
                elif not c.items:
                    for p in c.elems:
                        if p[0] == "tuple" and len(p) == 3:
                            items.add((p[1], p[2]))
                            keys.add(p[1])
            elif x[0] == "zip" and len(x[1]) == 2:
                a, b = self._elem(x[1][0], st)[0], self._elem(x[1][1], st)[0]
                items.add((a, b))
                keys.add(a)
            elif x[0] == "view":
                it, ks = self._dict_items(x[2], st)
                items |= it
                keys |= ks
            else:
                e = self._elem(x, st)[0]
                items.add((e, self._item(x, e, st)))
                keys.add(e)
        return items, keys

    def e_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                parts.append(self.eval(v.value, st))
            else:
                parts.append(self.eval(v, st))
        if all(p[0] == "const" for p in parts):
            return const("".join(str(p[1]) for p in parts))
        return ("fstr", tuple(parts))

    def e_BoolOp(self, e, st):
        is_and = isinstance(e.op, ast.And)
        vals = []
        cur = st.copy()
        out = None
        for i, x in enumerate(e.values):
            self.frames[-1].cur = cur
            v = self.eval(x, cur)
            if cur.dead:
                break
            vals.append(v)
            if i < len(e.values) - 1:
                stop = cur.copy().assume(v, not is_and)
                if not stop.dead:
                    out = join(out, stop)
                cur = cur.assume(v, is_and)
                if cur.dead:
                    break
        if not cur.dead:
            out = join(out, cur)
        if out is None:
            st.dead = True
            return UNKNOWN
        facts0 = st.facts
        st.env, st.must, st.may, st.heap = out.env, out.must, out.may, out.heap
        st.facts = facts0 & out.facts if False else facts0
        self.frames[-1].cur = st
        flat = []
        for v in vals:
            tc = T._truth_const(v)
            if tc is not None and tc == is_and and v is not vals[-1]:
                continue
            flat.append(v)
            if tc is not None and tc != is_and:
                break
        if len(flat) == 1:
            return flat[0]
        return ("and" if is_and else "or", tuple(flat))

    def e_UnaryOp(self, e, st):
        v = self.eval(e.operand, st)
        if isinstance(e.op, ast.Not):
            tc = T._truth_const(v)
            if tc is not None:
                return const(not tc)
            return v[1] if v[0] == "not" and v[1][0] in ("not", "cmp", "bool", "all", "any") else ("not", v)
        if isinstance(e.op, ast.USub):
            if v[0] == "const" and isinstance(v[1], (int, float)):
                return const(-v[1])
            return ("op", "neg", (v,))
        return ("op", type(e.op).__name__, (v,))

    def e_BinOp(self, e, st):
        a, b = self.eval(e.left, st), self.eval(e.right, st)
        op = type(e.op).__name__
        if op == "Mod" and a[0] == "const" and isinstance(a[1], str):
            args = b[1:] if b[0] == "tuple" else (b,)
            parts = self._fmt_parts(a[1], args)
            if parts is not None:
                if all(p[0] == "const" for p in parts):
                    return const("".join(str(p[1]) for p in parts))
                return ("fstr", parts)
        for x in alts(a):
            if x[0] == "new" and op in ("Add", "BitOr", "Sub", "BitAnd"):
                el = self._elems(a, st) | (self._elems(b, st) if op in ("Add", "BitOr") else set())
                ea, eb = self._exact(a, st), self._exact(b, st)
                ex = tuple(ea + eb) if op == "Add" and ea is not None and eb is not None else None
                cd = frozenset()
                if op in ("Sub", "BitAnd"):
                    cd = frozenset(self._elem(a, st)[1]) | self._set_conds(
                        union(el), [b], "difference" if op == "Sub" else "intersection", st)
                return self._new(x[1], e, st, Cont(_cap(frozenset(el)), conds=cd, exact=ex,
                                 order=limit(("op", "+", (a, b))) if op == "Add" and ex is None else None))
        return self._binop(op, a, b)

    def _set_conds(self, e, args, name, st):
        """what is known of an element `e` of a set after .difference / .intersection / .symmetric_difference"""
        conds = set()
        for a in args:
            conds.add(frozenset([(("cmp", "in", e, _keys_of(a)), name == "intersection")]))
            ex = self._exact(a, st)
            if ex is not None and name == "difference":
                for x in ex:
                    c = cnf(self.compare("Eq", e, x, st), False)
                    conds |= set(c or ())
        return conds

    def _fmt_parts(self, s, args):
        out, i, cur = [], 0, ""
        j = 0
        while j < len(s):
            c = s[j]
            if c == "%" and j + 1 < len(s):
                d = s[j + 1]
                if d == "%":
                    cur += "%"
                    j += 2
                    continue
                if d in "sdrf":
                    if i >= len(args):
                        return None
                    if cur:
                        out.append(const(cur))
                    cur = ""
                    out.append(args[i])
                    i += 1
                    j += 2
                    continue
                return None
            cur += c
            j += 1
        if cur:
            out.append(const(cur))
        return tuple(out)

    def _binop(self, op, a, b):
        if op == "Add":
            if a[0] == "tuple" and b[0] == "tuple":
                return a + b[1:]
            sa = a[0] in ("const", "fstr") and (a[0] == "fstr" or isinstance(a[1], str))
            sb = b[0] in ("const", "fstr") and (b[0] == "fstr" or isinstance(b[1], str))
            if sa or sb:
                pa = a[1] if a[0] == "fstr" else (a,)
                pb = b[1] if b[0] == "fstr" else (b,)
                parts = list(pa) + list(pb)
                out = []
                for p in parts:
                    if out and p[0] == "const" and out[-1][0] == "const" and isinstance(p[1], str) \
                            and isinstance(out[-1][1], str):
                        out[-1] = const(out[-1][1] + p[1])
                    else:
                        out.append(p)
                if len(out) == 1 and out[0][0] == "const":
                    return out[0]
                return ("fstr", tuple(out))
            if a[0] == "const" and b[0] == "const":
                try:
                    return const(a[1] + b[1])
                except Exception:
                    return UNKNOWN
            return ("op", "+", (a, b))
        sym = {"Sub": "-", "Mult": "*", "Div": "/", "FloorDiv": "//", "Mod": "%", "BitOr": "|", "BitAnd": "&",
               "Pow": "**"}.get(op, op)
        return ("op", sym, (a, b))

    def e_Compare(self, e, st):
        left = self.eval(e.left, st)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, st)
            out.append(self.compare(type(op).__name__, left, right, st))
            left = right
        return out[0] if len(out) == 1 else ("and", tuple(out))

    def compare(self, op, a, b, st):
        if self.dom is not None:
            r = self.dom.compare(op, a, b)
            if r is not None:
                return const(r)
        if op in ("NotEq", "IsNot", "NotIn"):
            c = self.compare({"NotEq": "Eq", "IsNot": "Is", "NotIn": "In"}[op], a, b, st)
            tc = T._truth_const(c)
            return const(not tc) if tc is not None else ("not", c)
        if op == "Gt":
            return self.compare("Lt", b, a, st)
        if op == "GtE":
            return self.compare("LtE", b, a, st)
        if op in ("Eq", "Is"):
            ca, cb = a[0] in ("const", "tuple") and _ground(a), b[0] in ("const", "tuple") and _ground(b)
            if ca and cb:
                return const(_pyval(a) == _pyval(b) if op == "Eq" else a == b)
            if op == "Is" and (NONE in (a, b)):
                o = a if b == NONE else b
                if o[0] in ("func", "class", "new", "inst", "tuple", "bound", "fstr", "self"):
                    return FALSE
            if op == "Is" and b in (TRUE, FALSE):
                return ("cmp", "is", a, b)
            if a == b and a[0] not in ("unknown",):
                return TRUE
            x, y = sorted((a, b), key=repr)
            for z, w in ((x, y), (y, x)):
                if z == const(0) and _is_len(w):
                    return ("not", w[2][0])
            return ("cmp", "==", x, y)
        if op == "In":
            ex = self._exact(b, st)
            if ex is not None and a[0] == "const" and all(_ground(x) for x in ex):
                return const(any(_pyval(x) == a[1] for x in ex))
            if b[0] == "const" and isinstance(b[1], str) and a[0] == "const" and isinstance(a[1], str):
                return const(a[1] in b[1])
            if ex is not None and len(ex) <= 6:
                parts = tuple(self.compare("Eq", a, x, st) for x in ex)
                return parts[0] if len(parts) == 1 else (("or", parts) if parts else FALSE)
            b = _keys_of(b)
            return ("cmp", "in", a, b)
        if op in ("Lt", "LtE"):
            if a[0] == "const" and b[0] == "const":
                try:
                    return const(a[1] < b[1] if op == "Lt" else a[1] <= b[1])
                except Exception:
                    return UNKNOWN
            if _is_len(b) and ((op == "Lt" and a == const(0)) or (op == "LtE" and a == const(1))):
                return ("bool", b[2][0])
            if _is_len(a) and ((op == "Lt" and b == const(1)) or (op == "LtE" and b == const(0))):
                return ("not", a[2][0])
            return ("cmp", "<" if op == "Lt" else "<=", a, b)
        return ("cmp", op, a, b)

    def _narrow(self, test, st, pol):
        """drop the alternatives of a variable under which the condition would come out the other way"""
        if st.dead:
            return
        for name in sorted({x.id for x in ast.walk(test) if isinstance(x, ast.Name)} & set(st.env)):
            vs = alts(st.env[name])
            if len(vs) < 2 or not any(v[0] == "abs" for v in vs):
                continue
            keep, cl, self.clients = [], self.clients, []
            for v in vs:
                s = st.copy()
                s.env[name] = v
                self.frames[-1].cur = s
                c = self.eval(test, s)
                if not s.dead and T._truth_const(c) in (None, pol):
                    keep.append(v)
            self.clients = cl
            self.frames[-1].cur = st
            if keep:
                st.env[name] = union(keep)

    def e_IfExp(self, e, st):
        c = self.eval(e.test, st)
        self.emit("branch", e, st, cond=c)
        a, b = st.copy().assume(c, True), st.copy().assume(c, False)
        if self.dom is not None:
            self._narrow(e.test, a, True)
            self._narrow(e.test, b, False)
        fr = self.frames[-1]
        va = vb = None
        if not a.dead:
            fr.cur = a
            va = self.eval(e.body, a)
        if not b.dead:
            fr.cur = b
            vb = self.eval(e.orelse, b)
        if self.dom is not None and not a.dead and not b.dead:
            a, b = self.dom.pick(e, a, b)
        r = join(a if a is not None and not a.dead else None, b if b is not None and not b.dead else None, c)
        if r is None or r.dead:
            st.dead = True
            return UNKNOWN
        st.env, st.facts, st.must, st.may, st.heap = r.env, r.facts, r.must, r.may, r.heap
        fr.cur = st
        if self.refine is not None:
            va = va if va is None else self.refine(va, a)
            vb = vb if vb is None else self.refine(vb, b)
        if va is None or a is None or a.dead:
            return vb
        if vb is None or b is None or b.dead:
            return va
        return va if va == vb else ("ifexp", c, va, vb)

    def e_Lambda(self, e, st):
        for d in e.args.defaults + [d for d in e.args.kw_defaults if d]:
            self.eval(d, st)
        return self._func_term(self.prog.fn_of_node[e], st)

    def e_Starred(self, e, st):
        return self.eval(e.value, st)

    def e_Await(self, e, st):
        return self.eval(e.value, st)

    def e_Yield(self, e, st):
        v = self.eval(e.value, st) if e.value is not None else NONE
        self.emit("yield", e, st, value=v)
        self.frames[-1].yields.append(v)
        self.frames[-1].stops = [st.copy()]
        return UNKNOWN

    def e_YieldFrom(self, e, st):
        v = self.eval(e.value, st)
        el, _ = self._elem(v, st)
        self.emit("yield", e, st, value=el)
        self.frames[-1].yields.append(el)
        return UNKNOWN

    def _comp(self, e, st, kind):
        saved = dict(st.env)
        inner = st.copy()
        conds_all, over = set(), []
        fr = self.frames[-1]
        for g in e.generators:
            fr.cur = inner
            itv = self.eval(g.iter, inner)
            if inner.dead:
                st.dead = True
                return UNKNOWN
            over.append(itv)
            self.emit("iter", g.iter, inner, over=itv)
            ex = self._exact(itv, inner)
            if ex is not None and len(ex) == 1:
                el, conds = ex[0], ()
            else:
                el, conds = self._elem(itv, inner)
            f = add_clauses(inner.facts, conds)
            if f is not None:
                inner.facts = f
            conds_all |= set(conds)
            self.assign(g.target, el, inner, e, loop=True)
            for c in g.ifs:
                cv = self.eval(c, inner)
                before = inner.facts
                inner.assume(cv, True)
                if inner.dead:
                    break
                cl = cnf(cv, True)
                conds_all |= set(cl or ())
            if inner.dead:
                break
        dead = inner.dead
        key = val = None
        if not dead:
            fr.cur = inner
            if kind == "dict":
                key = self.eval(e.key, inner)
                val = self.eval(e.value, inner)
            else:
                val = self.eval(e.elt, inner)
        facts0 = st.facts
        st.env = saved
        st.may = st.may | inner.may
        st.heap = inner.heap
        fr.cur = st
        if dead or val is None:
            return self._new(kind, e, st, Cont(exact=() if kind == "list" else None))
        if not inner.dead and kind in ("list", "set", "gen", "dict"):
            # the pieces of work done for each element, e.g. [verify(..) for ..]
            pass
        conds = frozenset(c for c in conds_all if len(c) <= 3)
        self.comp_over[("new", "list" if kind == "gen" else kind, self._site(e))] = tuple(map(limit, over))
        if kind == "dict":
            r = self._new("dict", e, st, Cont(frozenset([key]), frozenset([(key, val)]), conds))
        else:
            order = limit(over[0]) if len(over) == 1 and kind != "set" and not e.generators[0].ifs else None
            r = self._new("list" if kind == "gen" else kind, e, st, Cont(frozenset([val]), conds=conds, order=order))
        self.emit("comp", e, st, made=r, over=tuple(over), conds=frozenset(conds_all), key=key, value=val,
                  inner_must=inner.must)
        return r

    def e_ListComp(self, e, st):
        return self._comp(e, st, "list")

    def e_SetComp(self, e, st):
        return self._comp(e, st, "set")

    def e_GeneratorExp(self, e, st):
        return self._comp(e, st, "gen")

    def e_DictComp(self, e, st):
        return self._comp(e, st, "dict")

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st):
        f = self.eval(e.func, st)
        if st.dead:
            return UNKNOWN
        args, kwargs, star = [], {}, None
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st)
                ex = self._exact(v, st)
                if ex is not None and star is None:
                    args.extend(ex)
                else:
                    star = v
            else:
                v = self.eval(a, st)
                if star is None:
                    args.append(v)
                else:
                    args.append(("starred_then", v))
        dstar = None
        for k in e.keywords:
            v = self.eval(k.value, st)
            if k.arg is None:
                dstar = v
                if v[0] == "new":
                    c = st.heap.get(v)
                    if c is not None and c.items and all(kk[0] == "const" and isinstance(kk[1], str)
                                                         for kk, _ in c.items):
                        for kk, vv in c.items:
                            kwargs[kk[1]] = vv if kk[1] not in kwargs else union([kwargs[kk[1]], vv])
            else:
                kwargs[k.arg] = v
        if st.dead:
            return UNKNOWN
        return self.call_value(f, args, kwargs, st, e, star, dstar)

    def call_value(self, f, args, kwargs, st, node, star=None, dstar=None):
        self.frames[-1].cur = st
        if self.trystack:
            self.note_try(st)
        fs = alts(f)
        if len(fs) == 1:
            r = self._call1(fs[0], args, kwargs, st, node, star, dstar)
            if self.trystack and not st.dead:
                self.note_try(st)
            return r
        outs, out_st = [], None
        base = st.copy()
        for x in fs[:10]:
            s = base.copy()
            self.frames[-1].cur = s
            r = self._call1(x, args, kwargs, s, node, star, dstar)
            if not s.dead:
                outs.append(r)
                out_st = join(out_st, s)
        if out_st is None:
            st.dead = True
            return UNKNOWN
        st.env, st.facts, st.must, st.may, st.heap = out_st.env, out_st.facts, out_st.must, out_st.may, out_st.heap
        self.frames[-1].cur = st
        if self.trystack:
            self.note_try(st)
        return union(outs)

    def _call1(self, f, args, kwargs, st, node, star, dstar):
        k = f[0]
        if k == "func":
            return self.call_fn(f[1], f[2], None, args, kwargs, st, node, star, dstar)
        if k == "bound":
            return self.call_fn(f[2], (), f[1], args, kwargs, st, node, star, dstar)
        if k == "class":
            return self._instantiate(f[1], args, kwargs, st, node, star, dstar)
        if k == "attr":
            return self._call_method(f, args, kwargs, st, node, star, dstar)
        if k == "builtin":
            return self._call_builtin(f[1], args, kwargs, st, node, star, dstar)
        if k == "extern":
            return self._call_extern(f[1], args, kwargs, st, node, star, dstar)
        if k == "superattr":
            if f[2] in MUTATORS:
                self.emit("mutate", node, st, base=f[1], method=f[2], args=tuple(args), kwargs=kwargs, via_super=True)
            self.emit("call", node, st, target=("super", f[1], f[2]), args=args, kwargs=kwargs, star=star,
                      dstar=dstar, qual=None, recv=f[1])
            return ("call", ("superattr", f[1], f[2]), tuple(args), ())
        self.emit("call", node, st, target=f, args=args, kwargs=kwargs, star=star, dstar=dstar, qual=None, recv=None)
        self._invoke_callbacks(args, kwargs, st, node, None)
        if star is not None and f[0] == "nt":
            args = list(args) + [("star", star)]
        return limit(("call", f, tuple(args), tuple(sorted(kwargs.items()))))

    # -- package functions
    def call_fn(self, q, captured, self_term, args, kwargs, st, node, star=None, dstar=None):
        fn = self.prog.fns[q]
        self.callsite_targets.setdefault(id(node), (node, set()))[1].add(q)
        self.emit("call", node, st, target=("func", q), args=args, kwargs=kwargs, star=star, dstar=dstar,
                  qual=q, recv=self_term)
        if st.dead:
            return UNKNOWN
        mdl = self.models.get(q)
        if mdl is not None:
            r = mdl(self, q, self_term, args, kwargs, st, node, star, dstar)
            if r is not None:
                return r
        full = list(args)
        if self_term is not None and "staticmethod" not in fn.decorators:
            full = [self_term] + full
        depth = sum(1 for f in self.frames if f.fn.qual == q)
        self.n_calls += 1
        if q in self.opaque or depth >= 2 or len(self.frames) >= self.MAX_DEPTH or self.n_calls > self.MAX_CALLS:
            if self.n_calls > self.MAX_CALLS:
                raise AnchorError("analysis budget exhausted")
            return limit(("call", q, tuple(full), tuple(sorted(kwargs.items()))))
        env = self.bind_args(fn, full, kwargs, st, star, dstar)
        ret, out = self._run_frame(fn, captured, env, st, node, self_term)
        if out is None:
            st.dead = True
            return UNKNOWN
        st.facts, st.must, st.may, st.heap = out.facts, out.must, out.may, out.heap
        self.frames[-1].cur = st
        self.emit("called", node, st, qual=q, recv=self_term, args=args, kwargs=kwargs, value=ret)
        return ret

    def bind_args(self, fn, full, kwargs, st, star=None, dstar=None):
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        full = list(full)
        extra = []
        for i, v in enumerate(full):
            if v[0] == "starred_then":
                break
            if i < len(names):
                env[names[i]] = v
            else:
                extra.append(v)
        kwextra = {}
        kwn = {x.arg for x in a.kwonlyargs}
        for k, v in kwargs.items():
            if k in names or k in kwn:
                env[k] = v
            else:
                kwextra[k] = v
        if star is not None:
            i = 0
            for n in names:
                if n not in env:
                    env[n] = self._item(star, const(i), st) if True else UNKNOWN
                    i += 1
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in env:
                if dstar is not None and not (dstar[0] == "new" and self._known_dict(dstar, st)):
                    dv = self._item(dstar, const(n), st)
                    if n in defaults:
                        dv = union([dv, self._default(defaults[n], fn)])
                    env[n] = dv
                elif n in defaults:
                    env[n] = self._default(defaults[n], fn)
                else:
                    env[n] = ("missing", n)
        if a.vararg:
            if star is not None and not extra:
                env[a.vararg.arg] = star if star[0] in ("param", "new") else star
            else:
                env[a.vararg.arg] = ("tuple",) + tuple(extra)
        if a.kwarg:
            if dstar is not None and not kwextra:
                env[a.kwarg.arg] = dstar
            else:
                site = ("new", "dict", self._site(fn.node) + ("kw",))
                st.heap = dict(st.heap)
                st.heap[site] = Cont(frozenset(const(k) for k in kwextra),
                                     frozenset((const(k), v) for k, v in kwextra.items()))
                env[a.kwarg.arg] = site
        return env

    def _known_dict(self, t, st):
        c = st.heap.get(t)
        return c is not None and all(k[0] == "const" for k in c.elems)

    def _default(self, d, fn):
        if isinstance(d, ast.Constant):
            return self.e_Constant(d, None)
        if isinstance(d, ast.Lambda):
            return ("func", self.prog.fn_of_node[d].qual, ())
        if isinstance(d, ast.Tuple) and not d.elts:
            return ("tuple",)
        return self._eval_module_expr(d, fn.module)

    def _instantiate(self, q, args, kwargs, st, node, star, dstar):
        self.emit("call", node, st, target=("class", q), args=args, kwargs=kwargs, star=star, dstar=dstar,
                  qual=q, recv=None)
        mdl = self.models.get(q)
        if mdl is not None:
            r = mdl(self, q, None, args, kwargs, st, node, star, dstar)
            if r is not None:
                return r
        inst = ("inst", q, self._site(node))
        init = self.find_method(q, "__init__")
        if init and q in self.inline_init and init not in self.opaque:
            self.call_fn(init, (), inst, args, kwargs, st, node, star, dstar)
        if not st.dead:
            self.emit("built", node, st, cls=q, value=inst, args=args, kwargs=kwargs, dstar=dstar)
        return inst

    # -- unknown receivers
    def _call_method(self, f, args, kwargs, st, node, star, dstar):
        base, name = f[1], f[2]
        self.frames[-1].cur = st
        if self.dom is not None:
            r = self.dom.method(self, base, name, args, kwargs, st, node)
            if r is not None:
                return r
        r = self._container_method(base, name, args, kwargs, st, node, star, dstar)
        if r is not None:
            return r
        # resolution by unique method name in the package
        cands = [c for c in self.unique_methods.get(name, ()) if "." in c]
        ty = self.type_of(base)
        if base[0] == "extern":
            cands = []
        if not ty and len(cands) == 1 and name not in _COMMON and not name.startswith("__") \
                and base[0] in ("param", "attr", "free", "unknown", "item", "elem", "call"):
            return self.call_fn(cands[0], (), base, args, kwargs, st, node, star, dstar)
        if name in MUTATORS:
            self.emit("mutate", node, st, base=base, method=name, args=tuple(args), kwargs=kwargs)
        self.emit("call", node, st, target=f, args=args, kwargs=kwargs, star=star, dstar=dstar, qual=None, recv=base,
                  method=name, cands=cands)
        self._invoke_callbacks(args, kwargs, st, node, base)
        return limit(("method", base, name, tuple(args), tuple(sorted(kwargs.items()))))

    def _container_method(self, base, name, args, kwargs, st, node, star, dstar):
        if self.inner and base[0] == "item" and base[1][0] == "new" and base[1][1] in ("defaultdict", "dict") and args and \
                name in ("append", "add", "insert", "appendleft"):
            c = st.heap.get(base[1])          # into an inner container: what it holds is known through the outer one
            if c is not None:
                st.heap = dict(st.heap)
                st.heap[base[1]] = Cont(c.elems | {base[2]}, _capi(c.items | {(base[2], ("tuple", args[-1]))}), c.conds)
        if base[0] == "new":
            if name in ("sort", "reverse") and base in st.heap:
                c = st.heap[base]
                st.heap = dict(st.heap)
                st.heap[base] = Cont(c.elems, c.items, c.conds, None, ("perm", name, c.order))
            kind = base[1]
            if name in MUTATORS:
                self.emit("mutate", node, st, base=base, method=name, args=tuple(args), kwargs=kwargs)
                if name in ("append", "add", "insert", "appendleft") and args:
                    self._heap_add(base, st, [args[-1]])
                elif name in ("extend", "update") and args:
                    if kind in ("dict", "defaultdict"):
                        it, ks = self._dict_items(args[0], st)
                        self._heap_add(base, st, ks, it)
                    else:
                        el, cd = self._elem(args[0], st)
                        self._heap_add(base, st, alts(el) if el != UNKNOWN else [])
                elif name == "setdefault" and args:
                    v = args[1] if len(args) > 1 else NONE
                    self._heap_add(base, st, [args[0]], [(args[0], v)])
                    return self._item(base, args[0], st)
                elif name in ("pop", "popitem"):
                    c = st.heap.get(base, Cont())
                    st.heap = dict(st.heap)
                    st.heap[base] = Cont(c.elems, c.items, c.conds, None)
                    if kind in ("dict", "defaultdict") and args:
                        return self._item(base, args[0], st)
                    return union(c.elems) if c.elems else UNKNOWN
                elif name == "clear":
                    st.heap = dict(st.heap)
                    st.heap[base] = Cont()
                return NONE
        if name in ("items", "keys", "values") and not args:
            self.emit("call", node, st, target=("attr", base, name), args=args, kwargs=kwargs, star=None, dstar=None,
                      qual=None, recv=base, method=name, cands=[])
            return ("view", name, base)
        if name == "get" and 1 <= len(args) <= 2 and base[0] != "extern":
            self.emit("call", node, st, target=("attr", base, name), args=args, kwargs=kwargs, star=None, dstar=None,
                      qual=None, recv=base, method=name, cands=[])
            it = self._item(base, args[0], st)
            if len(args) == 2 and not _falsy_default(args[1], st):
                return union([it, args[1]])
            if it[0] == "item" or len(args) < 2:
                return it
            return it
        if name in ("union", "difference", "intersection", "symmetric_difference", "copy") and \
                base[0] in ("new", "param", "attr", "item", "elem", "call", "method", "view", "op") and \
                (name != "copy" or base[0] == "new"):
            if name == "copy":
                c = st.heap.get(base, Cont())
                self.emit("call", node, st, target=("attr", base, name), args=args, kwargs=kwargs, star=None,
                          dstar=None, qual=None, recv=base, method=name, cands=[])
                return self._copied(self._new(base[1], node, st, Cont(c.elems, c.items, c.conds, c.exact, c.order)), [base], node, st)
            el, cd = self._elem(base, st)
            elems, conds = set(alts(el)), set(cd)
            if name == "union":
                for a in args:
                    e2, _ = self._elem(a, st)
                    elems |= set(alts(e2))
                conds = set()
            else:
                conds |= self._set_conds(union(elems), args, name, st)
            if star is not None and name == "union":
                e2, _ = self._elem(self._elem(star, st)[0], st)
                elems |= set(alts(e2))
            r = self._new("set", node, st, Cont(_cap(frozenset(elems)), conds=frozenset(conds)))
            return self._copied(r, [base] + list(args), node, st) if name == "union" else r
        if name in ("issubset", "issuperset", "isdisjoint") and len(args) == 1:
            a, b = (base, args[0]) if name != "issuperset" else (args[0], base)
            el, cd = self._elem(a, st)
            c = ("cmp", "in", el, _keys_of(b))
            if name == "isdisjoint":
                c = ("not", c)
            return ("all", c, frozenset(cd), self._qid(a))
        if name == "join" and base[0] == "const" and args:
            ex = self._exact(args[0], st)
            el, _ = self._elem(args[0], st)
            if ex is not None:
                parts = []
                for i, x in enumerate(ex):
                    if i:
                        parts.append(base)
                    parts.append(x)
                if parts and all(p[0] == "const" for p in parts):
                    return const("".join(str(p[1]) for p in parts))
                return ("fstr", tuple(p for p in parts if p != const("")))
            j = ("join", base, el)
            c = st.heap.get(args[0]) if args[0][0] == "new" else None
            self.joined.setdefault(j, set()).add(limit(args[0]) if c is None else c.order)
            return ("fstr", (j,))
        if base[0] == "const" and isinstance(base[1], str) and not kwargs and all(a[0] == "const" for a in args) \
                and name in ("lower", "upper", "strip", "replace", "startswith", "endswith"):
            try:
                return const(getattr(base[1], name)(*[a[1] for a in args]))
            except Exception:
                return None
        if name == "format" and base[0] in ("const", "fstr"):
            vals = list(args) + list(kwargs.values())
            return ("fstr", (base,) + tuple(vals))
        return None

    def _qid(self, a):
        """what a quantifier ranges over"""
        o = self.comp_over.get(a)
        return ("over",) + o if o else a

    def _invoke_callbacks(self, args, kwargs, st, node, base):
        for a in list(args) + [v for k, v in kwargs.items()]:
            for x in alts(a):
                if x[0] in ("func",):
                    fn = self.prog.fns[x[1]]
                    if any(f.fn.qual == x[1] for f in self.frames):
                        continue
                    if x[1] in self.opaque:
                        continue
                    n = len(fn.params)
                    argv = [("elem", base) if base is not None else ("cbarg", x[1], i) for i in range(n)]
                    s = st.copy()
                    self.call_fn(x[1], x[2], None, argv, {}, s, node)
                    if not s.dead:
                        st.may = st.may | s.may
                        st.heap = s.heap

    # -- builtins and externals
    def _call_extern(self, dotted, args, kwargs, st, node, star, dstar):
        tail = dotted.split(".")[-1]
        self.emit("call", node, st, target=("extern", dotted), args=args, kwargs=kwargs, star=star, dstar=dstar,
                  qual=None, recv=None, extern=dotted)
        if st.dead:
            return UNKNOWN
        if tail in ("defaultdict", "OrderedDict", "deque", "Counter"):
            if tail == "deque":
                e = set(alts(self._elem(args[0], st)[0])) if args else set()
                return self._new("list", node, st, Cont(_cap(frozenset(e))))
            items, ks = set(), set()
            src = args[1:] if tail == "defaultdict" else args
            for a in src:
                i, k2 = self._dict_items(a, st)
                items |= i
                ks |= k2
            return self._new("dict", node, st, Cont(_cap(frozenset(ks)), _capi(frozenset(items))))
        if tail == "namedtuple":
            return ("nt", args[0] if args else UNKNOWN)
        if dotted in ("itertools.chain", "chain") or tail == "chain":
            el = set()
            for a in args:
                el |= set(alts(self._elem(a, st)[0]))
            if star is not None:
                el |= set(alts(self._elem(self._elem(star, st)[0], st)[0]))
            return self._new("list", node, st, Cont(_cap(frozenset(el))))
        if tail == "from_iterable":
            el = set(alts(self._elem(self._elem(args[0], st)[0], st)[0])) if args else set()
            return self._new("list", node, st, Cont(_cap(frozenset(el))))
        if tail == "deepcopy" and args:
            return ("deepcopy", args[0])
        self._invoke_callbacks(args, kwargs, st, node, None)
        return limit(("call", dotted, tuple(args) + ((("star", star),) if star is not None else ()),
                      tuple(sorted(kwargs.items()))))

    def _call_builtin(self, name, args, kwargs, st, node, star, dstar):
        self.emit("call", node, st, target=("builtin", name), args=args, kwargs=kwargs, star=star, dstar=dstar,
                  qual=None, recv=None, builtin=name)
        if st.dead:
            return UNKNOWN
        a0 = args[0] if args else None
        if name in ("list", "tuple", "set", "frozenset", "sorted", "reversed", "iter") and args:
            if name in ("list", "tuple"):
                ex = self._exact(a0, st)
                if ex is not None:
                    if name == "tuple":
                        return ("tuple",) + tuple(ex)
                    return self._copied(self._new("list", node, st, Cont(_cap(frozenset(ex)), exact=tuple(ex))), args, node, st)
            el, cd = self._elem(a0, st)
            kind = name if name in ("set", "frozenset", "tuple") else "list"
            if "key" in kwargs:
                self._invoke_callbacks([], {"key": kwargs["key"]}, st, node, a0)
            items = frozenset()
            order = None if kind in ("set", "frozenset") else limit(a0)
            if name in ("sorted", "reversed"):
                order = ("perm", name, order)
            return self._copied(self._new(kind, node, st, Cont(_cap(frozenset(alts(el))), items, frozenset(cd),
                                                               order=order)), args, node, st)
        if name in ("list", "set", "tuple", "frozenset", "dict") and not args and not kwargs and dstar is None:
            if name == "tuple":
                return ("tuple",)
            return self._new(name, node, st, Cont(exact=() if name == "list" else None))
        if name == "dict":
            items, ks = set(), set()
            if args:
                i, k2 = self._dict_items(a0, st)
                items |= i
                ks |= k2
            if dstar is not None:
                i, k2 = self._dict_items(dstar, st)
                items |= i
                ks |= k2
            for k, v in kwargs.items():
                items.add((const(k), v))
                ks.add(const(k))
            over = list(args) + ([dstar] if dstar is not None else [])
            return self._copied(self._new("dict", node, st, Cont(_cap(frozenset(ks)), _capi(frozenset(items)))), over, node, st)
        if name == "enumerate" and args:
            start = args[1] if len(args) > 1 else kwargs.get("start", const(0))
            return ("enumerate", a0) if start == const(0) else ("enumerate", a0, start)
        if name == "zip":
            if star is not None:
                return ("op", "zip*", (star,))
            return ("zip", tuple(args))
        if name == "map" and len(args) >= 2:
            els = [self._elem(a, st) for a in args[1:]]
            inner = st.copy()
            r = self.call_value(a0, [e for e, _ in els], {}, inner, node)
            st.may, st.heap = st.may | inner.may, inner.heap
            self.frames[-1].cur = st
            conds = els[0][1] if len(els) == 1 else frozenset()
            return self._new("list", node, st, Cont(frozenset([r]), conds=conds,
                                                    order=limit(args[1]) if len(args) == 2 else None))
        if name == "filter" and len(args) == 2:
            el, cd = self._elem(args[1], st)
            conds = set(cd)
            if a0 != NONE:
                inner = st.copy()
                r = self.call_value(a0, [el], {}, inner, node)
                st.may, st.heap = st.may | inner.may, inner.heap
                self.frames[-1].cur = st
            else:
                r = el
            conds |= set(cnf(r, True) or ())
            return self._new("list", node, st, Cont(_cap(frozenset(alts(el))), conds=frozenset(conds)))
        if name in ("all", "any") and args:
            el, cd = self._elem(a0, st)
            ex = self._exact(a0, st)
            if ex is not None and len(ex) <= 6:
                if not ex:
                    return const(name == "all")
                return ("and" if name == "all" else "or", tuple(ex)) if len(ex) > 1 else ("bool", ex[0])
            return (name, el, frozenset(cd), self._qid(a0))
        if name == "bool" and args:
            return ("bool", a0)
        if name == "len" and args:
            ex = self._exact(a0, st)
            if ex is not None and a0[0] == "tuple":
                return const(len(ex))
            return ("call", "len", (a0,), ())
        if name == "getattr" and len(args) >= 2:
            k = args[1]
            outs = []
            for kk in alts(k):
                if kk[0] == "const" and isinstance(kk[1], str):
                    outs.append(self.attr(a0, kk[1], st, node))
                else:
                    got = self._getattr_obj(a0, kk, st)
                    outs.append(got)
            if len(args) == 3:
                d = args[2]
                if d in (NONE, FALSE) or d == ("tuple",):
                    pass
                else:
                    outs.append(d)
            return union(outs)
        if name == "setattr" and len(args) == 3:
            for kk in alts(args[1]):
                if kk[0] == "const" and isinstance(kk[1], str):
                    self._kill(("attr", a0, kk[1]), st)
                    self.emit("setattr", node, st, base=a0, name=kk[1], value=args[2], aug=False)
                    self._learn(a0, kk[1], args[2], st)
                    self._set_class_attr(a0, kk[1], args[2], st)
                else:
                    self.emit("setattr", node, st, base=a0, name=kk, value=args[2], aug=False)
                    for x in alts(a0):
                        if x[0] in ("inst", "new"):
                            key = (x, "getattr")
                            c = st.heap.get(key, Cont())
                            st.heap = dict(st.heap)
                            st.heap[key] = Cont(c.elems, _capi(c.items | {(kk, args[2])}))
            return NONE
        if name == "delattr" and len(args) == 2:
            self.emit("delattr", node, st, base=a0, name=args[1])
            return NONE
        if name == "super":
            fr = self.frames[-1]
            c = fr.fn.cls
            if args and a0[0] == "class":
                return ("super", a0[1], args[1] if len(args) > 1 else fr.self_term or UNKNOWN)
            return ("super", c.qual, fr.self_term or UNKNOWN) if c else UNKNOWN
        if name == "next" and args:
            el, cd = self._elem(a0, st)
            f = add_clauses(st.facts, cd)
            return union([el] + args[1:]) if len(args) > 1 else el
        if name in ("max", "min", "sum") and args:
            self._invoke_callbacks([], {k: v for k, v in kwargs.items() if k == "key"}, st, node, a0)
            return ("call", name, tuple(args), tuple(sorted(kwargs.items())))
        if name == "print":
            return NONE
        if name == "callable" and args and a0[0] in ("func", "class", "bound"):
            return TRUE
        if name == "str" and args and a0[0] == "const" and isinstance(a0[1], str):
            return a0
        if name == "str" and len(args) == 1:
            known = self._known_consts(a0, st)
            if known:
                return union([const(str(x[1])) for x in known])
        if name == "type" and len(args) == 1 and a0[0] in ("self", "inst"):
            return ("class", a0[1])
        if name == "isinstance" and len(args) == 2:
            ty = self.type_of(a0)
            if ty and a0[0] in ("inst", "self") and args[1][0] == "class" and args[1][1] in self.mro(ty):
                return TRUE
            return ("call", "isinstance", tuple(args), ())
        if name == "float" and args and a0[0] == "const" and isinstance(a0[1], str):
            try:
                return const(float(a0[1]))
            except ValueError:
                pass
        self._invoke_callbacks(args, kwargs, st, node, None)
        return limit(("call", name, tuple(args), tuple(sorted(kwargs.items()))))

    def _copied(self, made, over, node, st):
        self.emit("copied", node, st, made=made, over=tuple(over))
        return made

    def _known_consts(self, t, st):
        """the constants t is known to be one of ('x is True or x is False')"""
        for c in st.facts:
            if all(pol and l[0] == "cmp" and l[1] in ("is", "==") and l[2] == t and l[3][0] == "const"
                   for l, pol in c):
                return [l[3] for l, _ in c]
        return None

    def _getattr_obj(self, a0, kk, st):
        outs = []
        for x in alts(a0):
            if x[0] in ("inst", "new"):
                c = st.heap.get((x, "getattr"))
                if c is not None and c.items:
                    vs = [v for k2, v in c.items if k2 == kk]
                    if vs:
                        outs.extend(vs)
                    else:
                        for k2, v in c.items:
                            outs.append(subst(v, k2, kk) if k2[0] in ("elem", "param", "item") else v)
                    continue
            outs.append(limit(("getattr", x, kk)))
        return union(outs)


def _appends(b):
    """x.append(<call>)"""
    return isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and isinstance(b.value.func, ast.Attribute) and \
        b.value.func.attr in ("append", "add") and len(b.value.args) == 1 and isinstance(b.value.args[0], (ast.Call, ast.Name))


class _ModFn:
    """Pseudo function for module-level expressions."""
    def __init__(self, module):
        self.qual, self.name, self.module, self.cls, self.parent = f"{module}.<module>", "<module>", module, None, None
        self.params, self.is_gen, self.free, self.locals_, self.decorators = [], False, set(), set(), []
        self.is_lambda = False


_COMMON = {"get", "items", "keys", "values", "append", "close", "execute", "write", "read", "copy", "apply", "update",
           "sort", "format", "split", "strip", "select", "clear", "slice", "pop", "insert", "add", "index", "count"}


def _ground(t):
    return t[0] == "const" or (t[0] == "tuple" and all(_ground(x) for x in t[1:]))


def _pyval(t):
    return t[1] if t[0] == "const" else tuple(_pyval(x) for x in t[1:])


def _is_len(t):
    return t[0] == "call" and t[1] == "len" and len(t[2]) == 1


def _keys_of(b):
    if b[0] == "view" and b[1] == "keys":
        return b[2]
    return b


def _falsy_default(t, st):
    if t[0] == "tuple" and len(t) == 1:
        return True
    if t[0] == "const" and not t[1]:
        return True
    if t[0] == "new":
        c = st.heap.get(t)
        return c is not None and not c.elems and not c.items
    return False
