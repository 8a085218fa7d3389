"""Symbolic terms, literals and clauses: the abstract values of the interpreter.

A term is a plain nested tuple; terms are compared structurally.  A literal is (term, bool); a clause is a
frozenset of literals (a disjunction); a state's facts are a frozenset of clauses.
There is no solver: clauses are only ever combined by subsumption and unit propagation.
"""
from functools import lru_cache

MAX_ALTS = 14
MAX_SIZE = 90
MAX_CLAUSE = 4

NONE = ("const", None)
TRUE = ("const", True)
FALSE = ("const", False)
UNKNOWN = ("unknown", "")


def const(v):
    return ("const", v) if not isinstance(v, (bool, int, float)) else ("const", v, type(v).__name__)


def is_const(t):
    return isinstance(t, tuple) and t and t[0] == "const"


TRUE, FALSE, NONE = const(True), const(False), const(None)


@lru_cache(maxsize=200000)
def size(t):
    if not isinstance(t, tuple):
        return 1
    n = 1
    for x in t:
        n += size(x) if isinstance(x, tuple) else (sum(map(size, x)) if isinstance(x, frozenset) else 0)
    return n


ROOT_KINDS = ("param", "self", "new", "inst", "unknown", "const", "extern", "builtin", "module", "func", "class",
              "free", "bound")


@lru_cache(maxsize=200000)
def roots(t):
    """The root terms (params, self, fresh objects..) a term is built from."""
    out = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, frozenset):
            stack.extend(x)
            continue
        if not isinstance(x, tuple) or not x:
            continue
        if x[0] in ("param", "self", "new", "inst"):
            out.add(x)
            if x[0] in ("new", "inst"):
                continue
            continue
        if x[0] == "mix":
            out.update(x[1])
            continue
        stack.extend(y for y in x[1:] if isinstance(y, (tuple, frozenset)))
    return frozenset(out)


def contains(t, sub):
    if t == sub:
        return True
    if isinstance(t, (tuple, frozenset)):
        for x in t:
            if isinstance(x, (tuple, frozenset)) and contains(x, sub):
                return True
    return False


def walk(t):
    yield t
    if isinstance(t, (tuple, frozenset)):
        for x in t:
            if isinstance(x, (tuple, frozenset)):
                yield from walk(x)


def subst(t, a, b):
    if t == a:
        return b
    if isinstance(t, tuple):
        if not any(isinstance(x, (tuple, frozenset)) for x in t):
            return t
        return tuple(subst(x, a, b) if isinstance(x, (tuple, frozenset)) else x for x in t)
    if isinstance(t, frozenset):
        return frozenset(subst(x, a, b) for x in t)
    return t


def limit(t):
    if size(t) > MAX_SIZE:
        return ("mix", roots(t))
    return t


def union(ts):
    flat = set()
    for t in ts:
        if t is None:
            continue
        if t[0] == "union":
            flat.update(t[1])
        else:
            flat.add(t)
    if not flat:
        return UNKNOWN
    if len(flat) == 1:
        return next(iter(flat))
    if len(flat) > MAX_ALTS:
        rs = set()
        for t in flat:
            rs.update(roots(t))
        return ("mix", frozenset(rs))
    return ("union", frozenset(flat))


def alts(t):
    """The alternative values a term may denote."""
    k = t[0]
    if k == "union":
        out = []
        for x in t[1]:
            out.extend(alts(x))
        return out
    if k in ("or", "and"):
        out = []
        for x in t[1]:
            out.extend(alts(x))
        return out
    if k == "ifexp":
        return alts(t[2]) + alts(t[3])
    if k == "choice":
        out = []
        for x, _ in t[1]:
            out.extend(alts(x))
        return out
    return [t]


def neg_lit(l):
    return (l[0], not l[1])


SIZED = set()     # classes whose instances may be false: dictionaries and the like (filled in by ctx)


def _truth_const(t):
    """True/False when the truthiness of the term is statically known, else None."""
    if t[0] == "const":
        try:
            return bool(t[1])
        except Exception:
            return None
    if t[0] == "tuple":
        return len(t) > 1
    if t[0] == "self" and t[1] in SIZED:
        return None
    if t[0] in ("func", "class", "module", "bound", "self"):
        return True
    if t[0] == "abs" and t[1] != "mid":                      # rules_inf: a non zero number, NaN, a text or a date
        return True
    return None


def cnf(t, pol):
    """Clauses equivalent to (or implied by) `t` having truth value `pol`.  None = contradiction."""
    k = t[0]
    tc = _truth_const(t)
    if tc is not None:
        return [] if tc == pol else None
    if k == "not":
        return cnf(t[1], not pol)
    if k == "bool":
        return cnf(t[1], pol)
    if k in ("and", "or"):
        conj = (k == "and") == pol
        parts = [cnf(x, pol) for x in t[1]]
        if conj:
            out = []
            for p in parts:
                if p is None:
                    return None
                out.extend(p)
            return out
        parts = [p for p in parts if p is not None]
        if not parts:
            return None
        if any(p == [] for p in parts):
            return []
        return _disj(parts)
    if k == "ifexp":
        c, a, b = t[1], t[2], t[3]
        p1 = _disj_opt([cnf(c, False), cnf(a, pol)])
        p2 = _disj_opt([cnf(c, True), cnf(b, pol)])
        if p1 is None or p2 is None:
            return None if (p1 is None and p2 is None) else (p1 if p1 is not None else []) + (p2 or [])
        return p1 + p2
    if k == "choice":
        live = []
        for x, delta in t[1]:
            c = cnf(x, pol)
            if c is None:
                continue
            live.append(set(delta) | set(c))
        if not live:
            return None
        if len(live) == 1:
            return list(live[0])
        common = set.intersection(*live)
        rest = [list(l - common) for l in live]
        out = list(common)
        if all(rest) and len(rest) <= 3:
            d = _disj(rest)
            out += d
        return out
    if k == "union":
        live = []
        for x in t[1]:
            c = cnf(x, pol)
            if c is None:
                continue
            live.append(set(c))
        if not live:
            return None
        common = set.intersection(*live)
        out = list(common)
        if len(live) < len(t[1]) and len(live) == 1:
            return out
        out.append(frozenset([(t, pol)]))
        return out
    if k == "all" and pol:
        return _quant(t, True)
    if k == "any" and not pol:
        return _quant(t, False)
    if k == "cmp":
        op, a, b = t[1], t[2], t[3]
        extra = []
        base = frozenset([(t, pol)])
        return [base] + extra
    return [frozenset([(t, pol)])]


def _quant(t, pol):
    _, elt, conds = t[0], t[1], t[2]
    inner = cnf(elt, pol)
    base = [frozenset([(t, t[0] == "all")])]
    if inner is None:
        inner = []
    guards = []
    for c in conds:                # conds: frozenset of clauses known for the element
        if len(c) != 1:
            return base
        guards.append(neg_lit(next(iter(c))))
    out = list(base)
    for cl in inner:
        n = frozenset(cl) | frozenset(guards)
        if len(n) <= MAX_CLAUSE:
            out.append(n)
    return out


def _disj_opt(parts):
    live = [p for p in parts if p is not None]
    if not live:
        return None
    if any(p == [] for p in live):
        return []
    return _disj(live)


def _disj(parts):
    acc = [frozenset()]
    for p in parts:
        nxt = []
        for a in acc:
            for c in p:
                n = a | c
                if len(n) <= MAX_CLAUSE and not any(neg_lit(l) in n for l in n):
                    nxt.append(n)
        acc = nxt
        if len(acc) > 40:
            acc = acc[:40]
    return [a for a in acc if a]


def add_clauses(facts, clauses):
    """facts + clauses with unit propagation; returns None when contradictory."""
    if clauses is None:
        return None
    work = [c for c in clauses if c not in facts]
    if not work:
        return facts
    facts = set(facts)
    units = {l for c in facts if len(c) == 1 for l in c}
    while work:
        c = work.pop()
        if c in facts:
            continue
        if any(l in units for l in c):
            continue
        red = frozenset(l for l in c if neg_lit(l) not in units)
        if not red:
            return None
        if red in facts:
            continue
        facts.add(red)
        if len(red) == 1:
            u = next(iter(red))
            units.add(u)
            nu = neg_lit(u)
            for d in list(facts):
                if len(d) > 1:
                    if u in d:
                        facts.discard(d)
                    elif nu in d:
                        facts.discard(d)
                        work.append(d - {nu})
    return frozenset(facts)


def implied(facts, clause):
    """Is the clause subsumed by a known clause?"""
    clause = frozenset(clause)
    for c in facts:
        if c <= clause:
            return True
    return False


def fmt(t, depth=0):
    """Readable rendering of a term."""
    if not isinstance(t, tuple) or not t:
        return repr(t)
    k = t[0]
    if depth > 6:
        return "…"
    f = lambda x: fmt(x, depth + 1)
    if k == "const":
        return repr(t[1])
    if k == "param":
        return t[2]
    if k == "self":
        return "self"
    if k == "attr":
        return f"{f(t[1])}.{t[2]}"
    if k == "item":
        return f"{f(t[1])}[{f(t[2])}]"
    if k == "elem":
        return f"each({f(t[1])})"
    if k == "getattr":
        return f"getattr({f(t[1])}, {f(t[2])})"
    if k == "call":
        return f"{t[1] if isinstance(t[1], str) else f(t[1])}({', '.join(map(f, t[2]))})"
    if k == "method":
        return f"{f(t[1])}.{t[2]}({', '.join(map(f, t[3]))})"
    if k == "tuple":
        return "(" + ", ".join(map(f, t[1:])) + ")"
    if k == "new":
        return f"<new {t[1]}>"
    if k == "inst":
        return f"<{t[1].split('.')[-1]} instance>"
    if k == "not":
        return f"not {f(t[1])}"
    if k in ("and", "or"):
        return "(" + f" {k} ".join(map(f, t[1])) + ")"
    if k == "cmp":
        return f"({f(t[2])} {t[1]} {f(t[3])})"
    if k == "op":
        return f"({(' ' + str(t[1]) + ' ').join(map(f, t[2]))})"
    if k == "union":
        return "{" + " | ".join(sorted(map(f, t[1]))) + "}"
    if k == "ifexp":
        return f"({f(t[2])} if {f(t[1])} else {f(t[3])})"
    if k == "func":
        return f"<function {t[1]}>"
    if k == "class":
        return f"<class {t[1]}>"
    if k == "bound":
        return f"{f(t[1])}.{t[2].split('.')[-1]}"
    if k in ("extern", "builtin", "module"):
        return t[1]
    if k == "choice":
        return "{" + " | ".join(f(x) for x, _ in t[1]) + "}"
    if k == "fstr":
        return "f'" + "".join(f(x) for x in t[1]) + "'"
    return f"<{k}>"


def fmt_lit(l):
    return ("" if l[1] else "not ") + fmt(l[0])


def fmt_clause(c):
    return " or ".join(sorted(map(fmt_lit, c)))
