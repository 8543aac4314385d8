"""Hash-consed value-graph terms with a canonical polynomial normal form.

Numbers (and truth values, which are the numbers 0/1) are polynomials with
rational coefficients over interned nodes.  Truth-valued nodes are idempotent,
the imaginary unit squares to -1 and thresholds over one linear form multiply
to the stronger one, so that propositional structure and gates
(`c ? a : b` = c*(a-b)+b) are part of the same normal form.
"""
from fractions import Fraction
from math import gcd
import itertools
import time

ONE = 1
ZERO = 0


def dv(a, b):
    """exact quotient, an integer where possible"""
    q = Fraction(a) / b
    return q.numerator if q.denominator == 1 else q


def small(x):
    return x.numerator if type(x) is not int and x.denominator == 1 else x



class Node:
    __slots__ = ("kind", "args", "id", "_free", "_level", "_unk")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id


_nodes = {}
_by_id = []


def T(kind, *args):
    k = (kind, args)
    n = _nodes.get(k)
    if n is None:
        n = Node()
        n.kind = kind
        n.args = args
        n.id = len(_by_id)
        n._free = None
        n._level = None
        n._unk = None
        _by_id.append(n)
        _nodes[k] = n
    return n


class Poly:
    __slots__ = ("t", "h", "_free", "_level", "_unk")

    def __init__(self, d):
        self.t = d
        self.h = hash(frozenset(d.items()))
        self._free = None
        self._level = None
        self._unk = None

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o or (isinstance(o, Poly) and self.h == o.h and self.t == o.t)

    def __repr__(self):
        return show(self)

    # arithmetic ----------------------------------------------------------
    def __add__(self, o):
        o = P(o)
        if not o.t:
            return self
        if not self.t:
            return o
        d = dict(self.t)
        for m, c in o.t.items():
            v = d.get(m, ZERO) + c
            if v:
                d[m] = v
            else:
                d.pop(m, None)
        return Poly(d)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) + (-self)

    def scale(self, c):
        c = small(c)
        if not c:
            return C0
        if c == 1:
            return self
        return Poly({m: v * c for m, v in self.t.items()})

    def __mul__(self, o):
        o = P(o)
        if not self.t or not o.t:
            return C0
        if len(o.t) == 1 and () in o.t:
            return self.scale(o.t[()])
        if len(self.t) == 1 and () in self.t:
            return o.scale(self.t[()])
        d = {}
        tick()
        for m1, c1 in self.t.items():
            if len(d) > 2000:
                tick()
            for m2, c2 in o.t.items():
                r = mono_mul(m1, m2)
                if r is None:
                    continue
                m, s = r
                v = d.get(m, ZERO) + c1 * c2 * s
                if v:
                    d[m] = v
                else:
                    d.pop(m, None)
        return Poly(d)

    __rmul__ = __mul__

    def const(self):
        """rational value if constant else None"""
        if not self.t:
            return ZERO
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return C1 if x else C0
    if isinstance(x, (int, Fraction)):
        x = small(x)
        return Poly({(): x}) if x else C0
    if isinstance(x, Node):
        return Poly({((x, 1),): ONE})
    raise TypeError("not numeric: %r" % (x,))


C0 = Poly({})
C1 = Poly({(): ONE})
I = T("I")

IND_KINDS = {"ge", "eq", "lt", "any", "odd", "boolapp"}


def sort_of(a):
    """sort of an atom: ind / int / real / str / obj / I"""
    k = a.kind
    if k in IND_KINDS:
        return "ind"
    if k == "I":
        return "I"
    if k in ("idiv", "imod", "len", "first", "trip", "bv", "fv", "trunc", "round", "floor", "tid"):
        return "int"
    if k in ("sym", "leaf", "mu"):
        return a.args[-1]
    if k in ("app",):
        return a.args[2]
    if k in ("sum", "fold"):
        return a.args[0]
    if k in ("inv",):
        return "real"
    if k == "unk":
        return a.args[-1]
    return "obj"


def is_ind(a):
    return sort_of(a) == "ind"


def mono_mul(m1, m2):
    """product of two monomials -> (monomial, sign) or None when it vanishes"""
    if not m1:
        return m2, 1
    if not m2:
        return m1, 1
    d = dict(m1)
    sign = 1
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return mono_norm(d, sign)


def mono_norm(d, sign):
    ges = None
    eqs = None
    for a in list(d):
        e = d[a]
        if e == 0:
            del d[a]
            continue
        k = a.kind
        if k == "I":
            e %= 4
            if e in (2, 3):
                sign = -sign
            if e in (1, 3):
                d[a] = 1
            else:
                del d[a]
        elif k == "ge":
            d[a] = 1
            ges = ges or {}
            f = a.args[0]
            o = ges.get(f)
            if o is None:
                ges[f] = a
            else:
                # thresholds over one form are a chain: keep the stronger
                if (a.args[1], a.args[2]) > (o.args[1], o.args[2]):
                    del d[o]
                    ges[f] = a
                else:
                    del d[a]
        elif k in ("eq", "lt"):
            d[a] = 1
            eqs = eqs or {}
            o = eqs.get(a.args)
            if o is not None and o.kind != k:
                return None
            eqs[a.args] = a
        elif is_ind(a):
            d[a] = 1
    return tuple(sorted(d.items(), key=lambda x: x[0].id)), sign


def mono_poly(m, c=ONE):
    return Poly({m: c})


# ---------------------------------------------------------------------------
# generic traversal


def children(x):
    if isinstance(x, Poly):
        for m in x.t:
            for a, _ in m:
                yield a
    elif isinstance(x, Node):
        for a in x.args:
            yield a
    elif isinstance(x, tuple):
        for a in x:
            yield a


LEAFVARS = {"sym", "bv", "fv", "mu"}
_EMPTY = frozenset()


def free(x):
    """set of variable nodes (sym/fv/mu/bv) occurring in x"""
    if isinstance(x, (Poly, Node)):
        if x._free is not None:
            return x._free
        s = set()
        if isinstance(x, Node) and x.kind in LEAFVARS:
            s.add(x)
        for c in children(x):
            s |= free(c)
        r = frozenset(s)
        x._free = r
        return r
    if isinstance(x, tuple):
        s = set()
        for c in x:
            s |= free(c)
        return s
    return _EMPTY


BINDERS = {"sum", "any", "first", "trip", "sfun", "sfor", "smap", "sacc", "fold", "sfold", "lam",
           "ssort"}


def level(x):
    """largest binder level inside x"""
    if isinstance(x, (Poly, Node)):
        if x._level is not None:
            return x._level
        r = 0
        for c in children(x):
            r = max(r, level(c))
        if isinstance(x, Node) and x.kind in BINDERS:
            r = max(r, blevel(x))
        x._level = r
        return r
    if isinstance(x, tuple):
        r = 0
        for c in x:
            r = max(r, level(c))
        return r
    return 0


BOUND_ARGS = {"sum": (2,), "any": (1,), "first": (1,), "trip": (0,), "sfun": (1,), "sfor": (1,),
              "smap": (1, 2, 3), "sacc": (2, 3), "ssort": (2,), "fold": (4,), "sfold": (4,)}


def blevel(n):
    """level of the variables bound by this binder"""
    return 1 + max(level(n.args[i]) for i in BOUND_ARGS[n.kind])


def has_unk(x):
    if isinstance(x, (Poly, Node)):
        if x._unk is not None:
            return x._unk
        r = False
        if isinstance(x, Node) and x.kind == "unk":
            r = True
        else:
            for c in children(x):
                if has_unk(c):
                    r = True
                    break
        x._unk = r
        return r
    if isinstance(x, tuple):
        return any(has_unk(c) for c in x)
    return False


_fresh = itertools.count(1)


def fresh_var():
    return T("fv", next(_fresh))


_rebuild = {}


def rebuilder(kind):
    def deco(f):
        _rebuild[kind] = f
        return f
    return deco


class Timeout(Exception):
    pass


LIMIT = [None, 0]


def tick():
    LIMIT[1] += 1
    if not LIMIT[1] & 63 and LIMIT[0] is not None and time.time() > LIMIT[0]:
        raise Timeout()


class Subst:
    """simultaneous replacement of nodes (variables, indicators, mu...) by values"""

    def __init__(self, m):
        self.m = m
        self.keys = set(m)
        self.varkeys = {k for k in m if k.kind in LEAFVARS}
        self.onlyvars = len(self.varkeys) == len(self.keys)
        self.memo = {}

    def __call__(self, x):
        if isinstance(x, tuple):
            return tuple(self(c) for c in x)
        if not isinstance(x, (Poly, Node)):
            return x
        if self.onlyvars and not (free(x) & self.varkeys):
            return x
        key = (x, CTX.version)
        r = self.memo.get(key)
        if r is not None:
            return r
        tick()
        if isinstance(x, Poly):
            r = self.poly(x)
        else:
            v = self.m.get(x)
            r = v if v is not None else self.node(x)
        self.memo[key] = r
        return r

    def poly(self, p):
        changed = False
        amap = {}
        for a in p.atoms():
            n = self(a)
            if n is not a:
                changed = True
            amap[a] = n
        if not changed:
            return p
        res = C0
        for m, c in p.t.items():
            keep = []
            prod = None
            for a, e in m:
                n = amap[a]
                if n is a:
                    keep.append((a, e))
                else:
                    f = power(to_poly(n), e)
                    prod = f if prod is None else prod * f
            base = Poly({tuple(keep): c}) if keep else Poly({(): c})
            res = res + (base if prod is None else base * prod)
        return res

    def node(self, n):
        k = n.kind
        if k in BINDERS:
            return rebind(n, self)
        args = tuple(self(a) for a in n.args)
        if all(a is b or a == b for a, b in zip(args, n.args)):
            return n
        rb = _rebuild.get(k)
        if rb:
            return rb(*args)
        return T(k, *args)


def subst(x, m):
    if not m:
        return x
    return Subst(m)(x)


def to_poly(v):
    return v if isinstance(v, Poly) else P(v)


def power(p, e):
    if e == 1:
        return p
    if e < 0:
        return power(inverse(p), -e)
    r = C1
    for _ in range(e):
        r = r * p
    return r


def inverse(p):
    if isinstance(p, Node):
        p = P(p)
    c = p.const()
    if c is not None:
        if c == 0:
            return P(T("inv", C0))
        return P(dv(1, c))
    ia = [a for a in p.atoms() if is_ind(a)]
    if ia:
        a = min(ia)
        return ite(P(a), inverse(subst(p, {a: C1})), inverse(subst(p, {a: C0})))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        sign = 1
        d = {}
        for a, e in m:
            if a.kind == "I":
                # 1/I = -I
                d[a] = 1
                sign = -sign
            elif a.kind == "inv":
                continue
            else:
                d[a] = -e
        q = Poly({tuple(sorted(d.items(), key=lambda x: x[0].id)): dv(sign, c)})
        for a, e in m:
            if a.kind == "inv":
                q = q * power(a.args[0], e)
        return q
    # complex denominator: multiply by the conjugate
    if any(a.kind == "I" for a in p.atoms()):
        cj = conj(p)
        return cj * inverse(p * cj)
    # common factors
    it = iter(p.t)
    common = dict(next(it))
    for m in it:
        m = dict(m)
        common = {a: min(e, m[a]) for a, e in common.items() if a in m}
        if not common:
            break
    common = {a: e for a, e in common.items() if a.kind not in ("I", "inv")}
    if common:
        g = {a: -e for a, e in common.items()}
        g = Poly({tuple(sorted(g.items(), key=lambda x: x[0].id)): 1})
        return g * inverse(p * g)
    # normalise the leading coefficient
    lead = min(p.t, key=mono_key)
    lc = p.t[lead]
    q = p.scale(dv(1, lc))
    return P(T("inv", q)).scale(dv(1, lc))


def mono_key(m):
    return (-sum(abs(e) for _, e in m), tuple((a.id, e) for a, e in m))


def conj(p):
    d = {}
    for m, c in p.t.items():
        d[m] = -c if any(a.kind == "I" for a, _ in m) else c
    return Poly(d)


def re_im(p):
    re, im = {}, {}
    for m, c in p.t.items():
        if any(a.kind == "I" for a, _ in m):
            im[tuple(x for x in m if x[0].kind != "I")] = c
        else:
            re[m] = c
    return Poly(re), Poly(im)


# ---------------------------------------------------------------------------
# facts: what is known to be non-negative at this point


class Ctx:
    def __init__(self):
        self.facts = []      # list of (Poly, strict)
        self.lits = {}       # indicator node -> C0/C1
        self.cache = {}
        self.version = 0
        self.stack = []
        self.conds = []
        self._ver = itertools.count(1)

    def push(self):
        self.stack.append((len(self.facts), dict(self.lits), self.version, len(self.conds)))

    def pop(self):
        n, l, v, c = self.stack.pop()
        del self.facts[n:]
        del self.conds[c:]
        self.lits = l
        self.version = v

    def add(self, p, strict=False):
        self.facts.append((p, strict))
        self.version = next(self._ver)

    def assume(self, guard):
        """add the literals implied by a 0/1 polynomial"""
        gc = guard.const()
        if gc is None:
            self.conds.append(guard)
        elif gc == 0:
            self.add(P(-1))
            return
        for lit, val in implied(guard):
            self.lits[lit] = C1 if val else C0
            self.version = next(self._ver)
            for p, s in list(self.facts):
                if lit in p.atoms():
                    q = drop_ind(p, lit, 1 if val else 0)
                    if q.const() is None:
                        self.add(q, s)
            if lit.kind == "ge":
                f, c, strict, isint = lit.args
                if val:
                    self.add(f - c, strict)
                elif isint:
                    self.add(P(c) - 1 - f)
                else:
                    self.add(P(c) - f, not strict)
            elif lit.kind == "any" and not val:
                pass


def implied(guard):
    out = []
    todo = [guard]
    g = guard
    for a in sorted(g.atoms(), key=lambda x: x.id):
        if not is_ind(a):
            continue
        g0 = drop_ind(g, a, 0)
        if not g0.t:
            out.append((a, True))
            continue
        g1 = drop_ind(g, a, 1)
        if not g1.t:
            out.append((a, False))
    return out


def drop_ind(p, a, v):
    """replace top-level indicator a by 0/1 without rebuilding nested terms.
    thresholds of the same form are adjusted with it"""
    m = {a: C1 if v else C0}
    if a.kind == "ge":
        f, c, strict, isint = a.args
        for b in p.atoms():
            if b.kind == "ge" and b is not a and b.args[0] == f:
                kb = (b.args[1], b.args[2])
                ka = (c, strict)
                if v and kb <= ka:
                    m[b] = C1
                if not v and kb >= ka:
                    m[b] = C0
    d = {}
    for mono, c in p.t.items():
        keep = []
        dead = False
        for x, e in mono:
            if x in m:
                if not m[x].t:
                    dead = True
                    break
            else:
                keep.append((x, e))
        if dead:
            continue
        k = tuple(keep)
        nv = d.get(k, ZERO) + c
        if nv:
            d[k] = nv
        else:
            d.pop(k, None)
    return Poly(d)


CTX = Ctx()

# range information of atoms: list of polys known >= 0
_atom_facts = {}


def atom_facts(a):
    k = a.kind
    out = []
    s = sort_of(a)
    if s == "ind":
        return [P(a), 1 - P(a)]
    if k == "imod":
        out.append(P(a))
        out.append(a.args[1] - 1 - P(a))
    elif k == "idiv":
        out.append(P(a))
        # n*(x/n) <= x
        x, n = a.args
        if n.const() is not None:
            out.append(x - n * P(a))
            out.append(n * P(a) + n - 1 - x)
        else:
            out.append(x - n * P(a))
            out.append(n * P(a) + n - 1 - x)
    elif k in ("len", "trip"):
        out.append(P(a))
    elif k == "first":
        out.append(P(a))
        out.append(a.args[0] - P(a))
    elif k == "app" and a.args[0] in ("abs", "sqrt"):
        out.append(P(a))
    elif k == "sum":
        b = body_bounds(a.args[2])
        if b is not None:
            out += [P(a) - b[0] * a.args[1], b[1] * a.args[1] - P(a)]
    elif a in BOUNDS:
        lo, hi = BOUNDS[a]
        out += [P(a) - lo] + ([hi - P(a)] if hi is not None else [])
    elif a in NONNEG:
        out.append(P(a))
    return out


def body_bounds(b):
    """least and greatest value of a polynomial of indicators"""
    if not isinstance(b, Poly):
        return None
    lo = hi = 0
    for m, c in b.t.items():
        if any(sort_of(x) != "ind" for x, e in m) or not isinstance(c, (int, Fraction)):
            return None
        if not m:
            lo, hi = lo + c, hi + c
        elif c < 0:
            lo = lo + c
        else:
            hi = hi + c
    return lo, hi


BOUNDS = {}


NONNEG = set()
POSITIVE = set()


def register_nonneg(a):
    NONNEG.add(a)
    a_facts = a
    return a


class LPFail(Exception):
    pass


def lp_feasible(cols, nrows, rhs):
    """exact phase-1 simplex: is there x>=0 with A x = rhs ?  cols: list of dict row->coef.
    rows are kept integral, each up to a positive factor"""
    n = len(cols)
    A = [[0] * (n + nrows + 1) for _ in range(nrows)]
    for j, c in enumerate(cols):
        for r, v in c.items():
            A[r][j] = v
    for r in range(nrows):
        row = A[r]
        row[-1] = rhs[r]
        den = 1
        for x in row:
            d = x.denominator
            if d != 1:
                den = den * d // gcd(den, d)
        row = A[r] = [x if type(x) is int and den == 1 else int(x * den) for x in row]
        if row[-1] < 0:
            row = A[r] = [-x for x in row]
        row[n + r] = 1
    basis = [n + r for r in range(nrows)]
    # objective: minimise the sum of artificials
    z = [0] * (n + nrows + 1)
    for r in range(nrows):
        row = A[r]
        for j in range(n):
            if row[j]:
                z[j] -= row[j]
        z[-1] -= row[-1]
    it = 0
    while True:
        if not z[-1]:
            return True
        it += 1
        tick()
        if it > 400:
            return False
        if it < 60:
            j = min(range(n), key=lambda q: z[q], default=None)
            if j is None or z[j] >= 0:
                return False
        else:
            j = next((q for q in range(n) if z[q] < 0), None)
            if j is None:
                return False
        best = None
        for r in range(nrows):
            x = A[r][j]
            if x > 0:
                y = A[r][-1]
                if best is None:
                    best = (y, x, r)
                    continue
                d = y * best[1] - best[0] * x
                if d < 0 or (d == 0 and basis[r] < basis[best[2]]):
                    best = (y, x, r)
        if best is None:
            return False
        r = best[2]
        rowr = A[r]
        pv = rowr[j]
        for r2 in range(nrows):
            if r2 != r:
                f = A[r2][j]
                if f:
                    g = gcd(pv, f)
                    u, w = pv // g, f // g
                    row2 = [u * x - w * y for x, y in zip(A[r2], rowr)]
                    if u != 1:
                        g = gcd(*row2)
                        if g > 1:
                            row2 = [x // g for x in row2]
                    A[r2] = row2
        f = z[j]
        g = gcd(pv, f)
        u, w = pv // g, f // g
        z = [u * x - w * y for x, y in zip(z, rowr)]
        if u != 1:
            g = gcd(*z)
            if g > 1:
                z = [x // g for x in z]
        basis[r] = j


def infeasible(cons):
    """cons: list of (Poly, strict): are they contradictory (Farkas over monomials)?"""
    for p, s in cons:
        c = p.const()
        if c is not None and (c < 0 or (s and c == 0)):
            return True
    rows = {}
    cols = []
    for p, s in cons:
        col = {}
        for m, c in p.t.items():
            if m == ():
                continue
            r = rows.setdefault(m, len(rows))
            col[r] = c
        cols.append(col)
    nr = len(rows)
    # constant row: sum lambda*c + mu = 0 ; normalisation: mu + sum_strict lambda = 1
    for (p, s), col in zip(cons, cols):
        c = p.t.get((), ZERO)
        if c:
            col[nr] = c
        if s:
            col[nr + 1] = ONE
    cols.append({nr: ONE, nr + 1: ONE})
    # unused one: lambda for "1 >= 0"
    cols.append({nr: ONE})
    rhs = [ZERO] * nr + [ZERO, ONE]
    return lp_feasible(cols, nr + 2, rhs)


def pair_facts(atoms, done):
    """order of the elements of a sorted sequence"""
    if _in_pairs[0]:
        return []
    groups = {}
    for a in atoms:
        if a.kind == "leaf" and a.args[0][0] == "opq" and a.args[0][1].kind == "ssort":
            groups.setdefault(a.args[0][1], set()).add(a.args[0][2])
    out = []
    for S, idx in groups.items():
        idx = sorted(idx, key=show)
        for i in idx:
            for j in idx:
                if i is j or (S, i, j) in done:
                    continue
                done.add((S, i, j))
                if len(idx) > 4:
                    continue
                d = j - i
                if d.const() is None and not (d.t and prove_nonneg(d)):
                    continue
                if d.const() is not None and d.const() < 0:
                    continue
                _in_pairs[0] = True
                try:
                    f = sorted_fact(S, i, j)
                finally:
                    _in_pairs[0] = False
                if f is not None:
                    out.append(f)
    return out


SORT_HOOK = [None]
_in_pairs = [False]


def sorted_fact(S, i, j):
    """not (element j comes before element i) as an inequality"""
    g = SORT_HOOK[0](S, i, j) if SORT_HOOK[0] else None
    if g is None:
        return None
    if len(g.t) == 2 and g.t.get(()) == 1:
        # 1 - [f >= k]: the element is not before the other one iff f >= k
        (m, c), = [x for x in g.t.items() if x[0]]
        if c != -1 or len(m) != 1 or m[0][0].kind != "ge":
            return None
        f, k, strict, isint = m[0][0].args
        return (f - k, strict)
    if len(g.t) != 1:
        return None
    (m, c), = g.t.items()
    if c != 1 or len(m) != 1 or m[0][0].kind != "ge":
        return None
    f, k, strict, isint = m[0][0].args
    return (P(k) - f, not strict) if not isint else (P(k) - f - 1, False)


def relevant_facts(goal, extra=(), rounds=4, limit=60):
    facts = list(CTX.facts) + list(extra)
    atoms = set(a for a in goal.atoms())
    chosen = []
    used = set()
    afdone = set()
    afdone_pairs = set()
    changed = True
    r = 0
    while changed and r < rounds and len(chosen) < limit:
        changed = False
        r += 1
        for a in sorted(atoms - afdone, key=lambda x: x.id):
            afdone.add(a)
            for f in atom_facts(a):
                chosen.append((f, False))
                new = f.atoms() - atoms
                if new:
                    atoms |= new
                    changed = True
        for f, s in pair_facts(atoms, afdone_pairs):
            chosen.append((f, s))
            new = f.atoms() - atoms
            if new:
                atoms |= new
                changed = True
        for i, (f, s) in enumerate(facts):
            if i in used:
                continue
            fa = f.atoms()
            if fa & atoms or not fa:
                used.add(i)
                chosen.append((f, s))
                if fa - atoms:
                    atoms |= fa
                    changed = True
    chosen = chosen[:limit]
    return quotient_facts(chosen) + chosen


def quotient_facts(facts):
    """bounds of the dividend are bounds of an integer quotient"""
    out = []
    quot = {a for f, s in facts for a in f.atoms() if a.kind == "idiv"}
    for a in quot:
        x, n = a.args
        n = n.const()
        if n is None or n <= 0:
            continue
        for f, s in facts:
            if a in f.atoms() or not f.t:
                continue
            for sg in (1, -1):
                # f = sg*x - r >= 0
                r = x.scale(sg) - f
                k = r.t.get((), 0)
                y = r - k
                if not 1 <= len(y.t) <= 3 or x.atoms() & y.atoms() or not is_int_poly(r) or any(v % n for v in y.t.values()):
                    continue
                if s:
                    k += 1
                y = y.scale(dv(1, n))
                if sg == 1:
                    # x >= n*y + k
                    out.append((P(a) - y - k // n, False))
                else:
                    # x <= -(n*y + k)
                    out.append((-y + (-k) // n - P(a), False))
    return out


def prove_nonneg(p, strict=False, isint=None, extra=()):
    """is p >= 0 (p > 0 if strict) implied by the current facts?"""
    c = p.const()
    if c is not None:
        return c > 0 if strict else c >= 0
    key = (p, strict, isint, tuple(extra), CTX.version)
    r = CTX.cache.get(key)
    if r is not None:
        return r
    if isint is None:
        isint = is_int_poly(p)
    # all coefficients non-negative over non-negative atoms?
    facts = relevant_facts(p, extra)
    if isint:
        # scale to integers
        neg = (-(p) - 1, False) if not strict else (-(p), False)
    else:
        neg = (-p, not strict)
    r = False
    if facts:
        r = infeasible([neg] + facts)
        if not r and nonlinear(p):
            r = infeasible([neg] + facts + products(p, facts))
            if not r:
                r = monotone_prove(p, facts, isint, strict)
    CTX.cache[key] = r
    return r


def unbounded(q, facts):
    """does some variable grow q without any fact limiting it?"""
    for m, c in q.t.items():
        if len(m) != 1 or m[0][1] != 1:
            continue
        a = m[0][0]
        if is_ind(a):
            continue
        if not any(d * c < 0 or n != m for f, s in facts for n, d in f.t.items()
                   if any(b is a for b, e in n)):
            if not any(f.const() is not None and f.const() < 0 for f, s in facts):
                return True
    return False


def products(p, facts):
    """products of facts which speak about the nonlinear parts of p"""
    want = {m for m in p.t if sum(abs(e) for _, e in m) > 1}
    base = [f for f in facts if len(f[0].t) <= 6 and f[0].const() is None][:36]
    best, rest = [], []
    for i in range(len(base)):
        for j in range(i, len(base)):
            q = base[i][0] * base[j][0]
            if q.const() is not None or len(q.t) > 12:
                continue
            non = {m for m in q.t if sum(abs(e) for _, e in m) > 1}
            if not non & want:
                if len(rest) < 60 and j < 18:
                    rest.append((q, base[i][1] and base[j][1]))
                continue
            best.append((len(non - want), len(best), (q, base[i][1] and base[j][1])))
    best.sort(key=lambda x: x[:2])
    return [x[2] for x in best[:120]] + rest[:max(30, 150 - len(best))]


def nonlinear(p):
    return any(sum(abs(e) for _, e in m) > 1 for m in p.t)


def replace_top(q, a, x):
    """replace an atom outside of other atoms"""
    keep, res = {}, C0
    for m, c in q.t.items():
        for b, e in m:
            if b is a:
                if e < 0:
                    keep[m] = c
                else:
                    f = Poly({tuple(z for z in m if z[0] is not a): c})
                    for _ in range(e):
                        f = f * x
                    res = res + f
                break
        else:
            keep[m] = c
    return Poly(keep) + res


def monotone_prove(p, facts, isint, strict):
    """substitute variables by bound+slack until every coefficient is non-negative"""
    uppers = {}
    lowers = {}
    for f, s in facts:
        for m, c in f.t.items():
            if len(m) == 1 and m[0][1] == 1:
                a = m[0][0]
                rest = f - mono_poly(m, c)
                if a in rest.atoms():
                    continue
                if c > 0:
                    lowers.setdefault(a, []).append((-rest).scale(dv(1, c)))
                else:
                    uppers.setdefault(a, []).append(rest.scale(dv(-1, c)))
    cnt = [0]

    def ok(q):
        for m, c in q.t.items():
            if c < 0:
                return False
            for a, e in m:
                if a.kind == "slk":
                    continue
                if e < 0:
                    return False
                if e % 2 and not (a in NONNEG or a.kind in ("len", "imod", "idiv", "trip", "first")
                                  or is_ind(a)):
                    return False
        k = q.t.get((), ZERO)
        return k > 0 if (strict and not isint) else (k >= 1 if strict else True)

    def rec(q, depth, done):
        cnt[0] += 1
        if cnt[0] > 300:
            return False
        if ok(q):
            return True
        if depth == 0:
            return False
        for a in sorted(q.atoms(), key=lambda x: -x.id):
            if a in done or a.kind == "slk":
                continue
            for lst, sg in ((uppers.get(a, ()), -1), (lowers.get(a, ()), 1)):
                for b in lst[:3]:
                    if b.atoms() & done:
                        continue
                    s = T("slk", next(_fresh))
                    q2 = replace_top(q, a, b + P(s).scale(sg))
                    if rec(q2, depth - 1, done | {a}):
                        return True
        return False
    return rec(p, 5, frozenset())


def is_int_poly(p):
    for m, c in p.t.items():
        if c.denominator != 1:
            return False
        for a, e in m:
            if e < 0 or sort_of(a) not in ("int", "ind"):
                return False
    return True


# ---------------------------------------------------------------------------
# constructors with simplification


def is_bool(p):
    return all(is_ind(a) for a in p.atoms())


def NOT(p):
    return C1 - p


def AND(a, b):
    return a * b


def OR(a, b):
    return a + b - a * b


def ite(c, a, b):
    """gate"""
    if isinstance(c, Node):
        c = P(c)
    k = c.const()
    if k is not None:
        return a if k != 0 else b
    if a is b or a == b:
        return a
    if isinstance(a, Poly) and isinstance(b, Poly):
        return c * (a - b) + b
    return v_ite(c, a, b)


def v_ite(c, a, b):
    raise NotImplementedError


def first_ind(p):
    best = None
    for a in p.atoms():
        if is_ind(a) and (best is None or a.id < best.id):
            best = a
    return best


def cases(p, fn, depth=10):
    """apply fn to an indicator-free polynomial on each side of a gate"""
    a = first_ind(p)
    if a is None or depth == 0:
        return fn(p)
    lv = CTX.lits.get(a)
    if lv is not None:
        return cases(drop_ind(p, a, 1 if lv.t else 0), fn, depth)
    CTX.push()
    try:
        CTX.assume(P(a))
        hi = cases(drop_ind(p, a, 1), fn, depth - 1)
    finally:
        CTX.pop()
    CTX.push()
    try:
        CTX.assume(NOT(P(a)))
        lo = cases(drop_ind(p, a, 0), fn, depth - 1)
    finally:
        CTX.pop()
    return ite(P(a), hi, lo)


def join_divmod(p):
    """x mod n + n*(x div n) = x, where both parts occur"""
    ats = p.atoms()
    for a in ats:
        if a.kind == "imod":
            x, n = a.args
            d = next((b for b in ats if b.kind == "idiv" and b.args == a.args), None)
            if d is not None:
                return join_divmod(subst(p, {a: x - n * P(d)}))
    return p


def positive_part(p):
    """p without factors that are known to be positive"""
    if len(p.t) == 0:
        return p
    ms = [dict(m) for m in p.t]
    ats = set(a for d in ms for a in d)
    for a in sorted(ats, key=lambda x: x.id):
        if a.kind in ("I", "inv") or is_ind(a):
            continue
        e = min(d.get(a, 0) for d in ms)
        if e == 0 or not prove_nonneg(P(a), True, sort_of(a) == "int"):
            continue
        q = {}
        for m, c in p.t.items():
            d = dict(m)
            d[a] = d.get(a, 0) - e
            if d[a] == 0:
                del d[a]
            q[tuple(sorted(d.items(), key=lambda x: x[0].id))] = c
        p = Poly(q)
        ms = [dict(m) for m in p.t]
    return p


def GE0(p, isint=None, strict=False):
    """truth value of p >= 0 (p > 0)"""
    p = positive_part(join_divmod(p))
    c = p.const()
    if c is not None:
        return C1 if (c > 0 or (c == 0 and not strict)) else C0
    if first_ind(p) is not None:
        return cases(p, lambda q: GE0(q, isint, strict))
    if isint is None:
        isint = is_int_poly(p)
    if isint and strict:
        return GE0(p - 1, True, False)
    c0 = p.t.get((), ZERO)
    f = p - c0
    lead = min(f.t, key=mono_key)
    lc = f.t[lead]
    if isint:
        from math import gcd
        g = 0
        den = 1
        for v in f.t.values():
            den = den * v.denominator // gcd(den, v.denominator)
        for v in f.t.values():
            g = gcd(g, int(v * den))
        sc = Fraction(g, den)
    else:
        sc = abs(lc)
    if prove_nonneg(p, strict, isint):
        return C1
    if isint:
        if prove_nonneg(-p - 1, False, True):
            return C0
    elif prove_nonneg(-p, not strict, False):
        return C0
    import math
    if lc > 0:
        q = f.scale(dv(1, sc))
        th = dv(-c0, sc)
        if isint:
            return P(T("ge", q, Fraction(math.ceil(th)), False, True))
        return P(T("ge", q, th, strict, False))
    q = f.scale(dv(-1, sc))
    th = dv(c0, sc)           # p>=0  <=>  q <= th
    if isint:
        return C1 - P(T("ge", q, Fraction(math.floor(th) + 1), False, True))
    return C1 - P(T("ge", q, th, not strict, False))


@rebuilder("ge")
def _rb_ge(f, c, strict, isint):
    return GE0(to_poly(f) - c, isint if is_int_poly(to_poly(f)) else None, strict)


def LT(a, b):
    return GE0(b - a, strict=True)


def LE(a, b):
    return GE0(b - a)


def EQ(a, b):
    d = a - b
    c = d.const()
    if c is not None:
        return C1 if c == 0 else C0
    if any(x.kind == "I" for x in d.atoms()):
        r, i = re_im(d)
        return EQ(r, C0) * EQ(i, C0)
    if first_ind(d) is not None:
        return cases(d, lambda q: EQ(q, C0))
    if is_int_poly(d):
        return GE0(d, True) - GE0(d - 1, True)
    return GE0(d, False, False) - GE0(d, False, True)


def str_rank_const(t):
    """order embedding of the finite strings into the rationals"""
    r = Fraction(0)
    w = Fraction(1)
    for ch in t.encode("utf-8", "replace"):
        w /= 257
        r += w * (ch + 1)
    return r


def RANK(x):
    if x.kind == "str":
        return P(str_rank_const(x.args[0]))
    if x.kind == "vite":
        return ite(x.args[0], RANK(x.args[1]), RANK(x.args[2]))
    n = T("leaf", ("app", "rank", (x,)), (), "real")
    NONNEG.add(n)
    return P(n)


def str_sorted(x):
    return x.kind in ("str", "strcat") or (x.kind == "leaf" and x.args[2] == "str") or \
        (x.kind == "vite" and (str_sorted(x.args[1]) or str_sorted(x.args[2])))


def is_number_text(x):
    return x.kind == "leaf" and x.args[0][0] == "app" and x.args[0][1] == "to_string" and \
        not x.args[1]


def strcat_eq(a, b):
    """equality of concatenations, without what they start or end with in common"""
    xs, ys = (list(q.args[0]) if q.kind == "strcat" else [q] for q in (a, b))
    for end in (0, -1):
        while xs and ys:
            x, y = xs[end], ys[end]
            if x is y:
                xs.pop(end)
                ys.pop(end)
                continue
            if x.kind != "str" or y.kind != "str":
                break
            p, q = x.args[0], y.args[0]
            n = min(len(p), len(q))
            if n == 0:
                break
            if end == 0:
                if p[:n] != q[:n]:
                    return C0
                p, q = p[n:], q[n:]
            else:
                if p[-n:] != q[-n:]:
                    return C0
                p, q = p[:-n], q[:-n]
            for zs, z in ((xs, p), (ys, q)):
                zs.pop(end)
                if z:
                    zs.insert(0 if end == 0 else len(zs), T("str", z))
    if not xs and not ys:
        return C1
    if not xs or not ys:
        # nothing but the empty string is left of one of them
        if any(z.kind == "str" and z.args[0] or is_number_text(z) for z in xs or ys):
            return C0
        return None
    if len(xs) == len(ys) == 1:
        return str_eq(xs[0], ys[0])
    return None


def str_eq(a, b):
    if a is b:
        return C1
    if a.kind == "str" and b.kind == "str":
        return C0
    if a.kind == "vite":
        return ite(a.args[0], str_eq(a.args[1], b), str_eq(a.args[2], b))
    if b.kind == "vite":
        return str_eq(b, a)
    if a.kind == "strcat" or b.kind == "strcat":
        r = strcat_eq(a, b)
        if r is not None:
            return r
    if is_number_text(a) and is_number_text(b):
        # different numbers have different texts
        return EQ(a.args[0][2][0], b.args[0][2][0])
    if str_sorted(a) and str_sorted(b):
        return EQ(RANK(a), RANK(b))
    x, y = (a, b) if a.id < b.id else (b, a)
    return P(T("eq", x, y))


def str_lt(a, b):
    if a is b:
        return C0
    if a.kind == "vite":
        return ite(a.args[0], str_lt(a.args[1], b), str_lt(a.args[2], b))
    if b.kind == "vite":
        return ite(b.args[0], str_lt(a, b.args[1]), str_lt(a, b.args[2]))
    return LT(RANK(a), RANK(b))


_rebuild["eq"] = str_eq
_rebuild["lt"] = str_lt


def odd(p):
    """parity of an integer polynomial as a truth value"""
    r = C0
    for m, c in p.t.items():
        if c.denominator != 1:
            return None
        if int(c) % 2 == 0:
            continue
        t = C1
        for a, e in m:
            if e < 0:
                return None
            t = t * (P(a) if is_ind(a) else P(T("odd", P(a))))
        r = r + t - (r * t).scale(2)
    return r


@rebuilder("odd")
def _rb_odd(p):
    r = odd(to_poly(p))
    return r if r is not None else P(T("odd", p))


def IDIV(x, n):
    cx, cn = x.const(), n.const()
    if cn == 1:
        return x
    if cx is not None and cn is not None and cn != 0:
        q = abs(cx) // abs(cn)
        return P(q if (cx >= 0) == (cn > 0) else -q)
    if cx == 0:
        return C0
    if first_ind(x) is not None:
        return cases(x, lambda q: IDIV(q, n))
    if first_ind(n) is not None:
        return cases(n, lambda q: IDIV(x, q))
    # x = q*n + r with 0 <= r < n
    q, r = divide_by(x, n)
    if q.t:
        if prove_nonneg(r) and prove_nonneg(n - 1 - r):
            return q
        if prove_nonneg(r) and prove_nonneg(q):
            return q + IDIV(r, n)
        if prove_nonneg(-r - 1) and prove_nonneg(r + n) and prove_nonneg(q - 1):
            return q - 1
    elif prove_nonneg(x) and prove_nonneg(n - 1 - x):
        return C0
    if not q.t and prove_nonneg(x - n) and prove_nonneg(n + n - 1 - x):
        return C1
    return P(T("idiv", x, n))


_rebuild["idiv"] = lambda x, n: IDIV(to_poly(x), to_poly(n))


def divide_by(x, n):
    """x = q*n + r, taking from x the monomials divisible by the leading monomial of n"""
    if len(n.t) == 1:
        (m, c), = n.t.items()
        q, r = {}, {}
        for mm, cc in x.t.items():
            d = dict(mm)
            good = True
            for a, e in m:
                if d.get(a, 0) < e:
                    good = False
                    break
                d[a] -= e
                if d[a] == 0:
                    del d[a]
            if good and m:
                co = dv(cc, c)
                if co.denominator == 1:
                    q[tuple(sorted(d.items(), key=lambda z: z[0].id))] = co
                    continue
                fl = co.numerator // co.denominator
                if fl and not d:
                    q[()] = q.get((), ZERO) + fl
                    rem = cc - fl * c
                    if rem:
                        r[mm] = rem
                    continue
            elif not m and not good:
                pass
            elif not m:
                co = dv(cc, c)
                fl = co.numerator // co.denominator
                if fl:
                    k = mm
                    q[k] = q.get(k, ZERO) + fl
                    rem = cc - fl * c
                    if rem:
                        r[mm] = rem
                    continue
            r[mm] = r.get(mm, ZERO) + cc
        return Poly({k: v for k, v in q.items() if v}), Poly({k: v for k, v in r.items() if v})
    # polynomial divisor: divide with respect to its leading monomial
    lead = min(n.t, key=mono_key)
    lc = n.t[lead]
    q = C0
    r = x
    for _ in range(20):
        hit = None
        for mm, cc in sorted(r.t.items(), key=lambda z: mono_key(z[0])):
            d = dict(mm)
            good = bool(lead)
            for a, e in lead:
                if d.get(a, 0) < e:
                    good = False
                    break
                d[a] -= e
                if d[a] == 0:
                    del d[a]
            if good and (dv(cc, lc)).denominator == 1:
                hit = Poly({tuple(sorted(d.items(), key=lambda z: z[0].id)): dv(cc, lc)})
                break
        if hit is None:
            break
        q = q + hit
        r = r - hit * n
    return q, r


def IMOD(x, n):
    cx, cn = x.const(), n.const()
    if cn == 1:
        return C0
    if cx is not None and cn is not None and cn != 0:
        r = abs(cx) % abs(cn)
        return P(r if cx >= 0 else -r)
    if cx == 0:
        return C0
    if cn == 2 and is_int_poly(x):
        r = odd(x)
        if r is not None and prove_nonneg(x):
            return r
    if first_ind(x) is not None:
        return cases(x, lambda q: IMOD(q, n))
    if first_ind(n) is not None:
        return cases(n, lambda q: IMOD(x, q))
    q, r = divide_by(x, n)
    if unbounded(x - n, relevant_facts(x - n)) and unbounded(r - n, relevant_facts(r - n)):
        return P(T("imod", x, n))
    for cand in ((r, r + n, r - n) if q.t else (x, x - n)):
        if prove_nonneg(cand) and prove_nonneg(n - 1 - cand) and prove_nonneg(x):
            return cand
    if prove_nonneg(x):
        base = r if q.t else x
        for off in (C0, n, -n):
            y = base + off
            # n <= y < 2n or 0 <= y < 2n
            if prove_nonneg(y) and prove_nonneg(n + n - 1 - y):
                return y - n * GE0(y - n)
        if q.t and prove_nonneg(r):
            return P(T("imod", r, n))
        if q.t and prove_nonneg(r + n):
            return IMOD(r + n, n) if (r + n) != x else P(T("imod", x, n))
    return P(T("imod", x, n))


_rebuild["imod"] = lambda x, n: IMOD(to_poly(x), to_poly(n))


def is_int_valued(p):
    return is_int_poly(p)


def ROUND(p):
    if is_int_valued(p):
        return p
    if first_ind(p) is not None:
        return cases(p, ROUND)
    # pull integer parts out
    ip, rp = {}, {}
    for m, c in p.t.items():
        q = Poly({m: c})
        if m != () and is_int_poly(q):
            ip[m] = c
        else:
            rp[m] = c
    if ip and rp:
        r = Poly(rp)
        h = P(Fraction(1, 2))
        for n in (0, 1, -1):
            if prove_nonneg(r - n + h, True, False) and prove_nonneg(h - r + n, True, False):
                return Poly(ip) + n
    c = p.const()
    if c is not None:
        import math
        return P(math.floor(c + Fraction(1, 2)) if c >= 0 else -math.floor(-c + Fraction(1, 2)))
    return P(T("round", p))


_rebuild["round"] = lambda p: ROUND(to_poly(p))


def split_int(p):
    """integer valued summands and the others"""
    ip, rp = {}, {}
    for m, c in p.t.items():
        (ip if is_int_poly(Poly({m: c})) else rp)[m] = c
    return Poly(ip), Poly(rp)


def FLOOR(p):
    if is_int_valued(p):
        return p
    if first_ind(p) is not None:
        return cases(p, FLOOR)
    c = p.const()
    if c is not None:
        import math
        return P(math.floor(c))
    ip, r = split_int(p)
    c = r.t.get((), 0)
    if c and not ip.t.get(()):
        k = c.numerator // c.denominator if hasattr(c, "numerator") else 0
        ip, r = ip + k, r - k
    if r.const() is not None:
        return ip
    for n in (0, -1, 1):
        if prove_nonneg(r - n, False, False) and prove_nonneg(C1 - r + n, True, False):
            return ip + n
    return ip + P(T("floor", r))


_rebuild["floor"] = lambda p: FLOOR(to_poly(p))


def TRUNC(p):
    if is_int_valued(p):
        return p
    if first_ind(p) is not None:
        return cases(p, TRUNC)
    c = p.const()
    if c is not None:
        return P(int(c))
    if prove_nonneg(p, False, False):
        return FLOOR(p)
    return P(T("trunc", p))


_rebuild["trunc"] = lambda p: TRUNC(to_poly(p))
_rebuild["inv"] = lambda p: inverse(to_poly(p))


# ---------------------------------------------------------------------------
# binders


def bv(l, j=0):
    n = T("bv", l, j)
    return n


def close(var_list, parts):
    """replace variables by canonical bound variables; returns (level, parts)"""
    l = level(parts) + 1
    m = {v: P(bv(l, j)) for j, v in enumerate(var_list)}
    return l, subst(tuple(parts), m)


def open_binder(node):
    """fresh variables for the bound ones; returns (vars, args)"""
    l = blevel(node)
    vs = {}
    for b in free(node.args):
        if b.kind == "bv" and b.args[0] == l:
            vs[b.args[1]] = b
    nv = max(vs) + 1 if vs else 1
    fresh = [fresh_var() for _ in range(max(nv, 1))]
    m = {b: P(fresh[j]) for j, b in vs.items()}
    return fresh, m


BINDER_SPEC = {}
# kind -> function(node, s) rebuilding it


def rebind(node, s):
    return BINDER_SPEC[node.kind](node, s)


def with_range(var, n, f):
    """run f under 0 <= var < n"""
    NONNEG.add(var)
    CTX.push()
    try:
        CTX.add(P(var))
        CTX.add(n - 1 - P(var))
        return f()
    finally:
        CTX.pop()


def occurs(v, x):
    return v in free(x)


# sums ----------------------------------------------------------------------


def faulhaber(n, e):
    if e == 0:
        return n
    if e == 1:
        return (n * (n - 1)).scale(Fraction(1, 2))
    if e == 2:
        return (n * (n - 1) * (n + n - 1)).scale(Fraction(1, 6))
    if e == 3:
        h = (n * (n - 1)).scale(Fraction(1, 2))
        return h * h
    return None


def poly_sort(p):
    for a in p.atoms():
        if sort_of(a) == "real":
            return "real"
    for c in p.t.values():
        if c.denominator != 1:
            return "real"
    return "int"


def SUM(var, n, body):
    """sum of body over 0 <= var < n"""
    if not body.t:
        return C0
    if not occurs(var, body):
        return body * n
    cn = n.const()
    if may_sort(body) and sorted_bases(body, var):
        t = sorted_total(body, var, n)
        if t is not None:
            return t
    cn = n.const()
    if cn is not None and cn <= 16:
        r = C0
        for i in range(int(cn)):
            r = r + subst(body, {var: P(i)})
        return r
    if first_ind(n) is not None:
        return cases(n, lambda q: SUM(var, q, body))
    res = C0
    # delta collapse: [var >= c]*X - [var >= c+1]*X
    work = dict(body.t)
    inner = {}

    def splitm(m):
        o, i = [], []
        for a, e in m:
            (i if occurs(var, a) else o).append((a, e))
        return tuple(o), tuple(i)

    keys = list(work)
    for m in keys:
        if m not in work:
            continue
        for a, e in m:
            if a.kind == "ge" and a.args[3] and occurs(var, a.args[0]):
                f, c, _, _ = a.args
                lin = linear_in(f, var)
                if lin is None:
                    continue
                k, rest = lin
                if abs(k) != 1 or occurs(var, rest):
                    continue
                b = T("ge", f, c + 1, False, True)
                m2 = dict(m)
                del m2[a]
                m2[b] = 1
                m2 = tuple(sorted(m2.items(), key=lambda z: z[0].id))
                if m2 in work and work[m2] == -work[m]:
                    others = tuple(x for x in m if x[0] is not a)
                    if any(x[0].kind == "ge" and x[0].args[0] == f for x in others):
                        continue
                    # var = (c - rest)/k
                    at = (P(c) - rest).scale(Fraction(1, k))
                    val = subst(Poly({others: work[m]}), {var: at})
                    res = res + GE0(at) * GE0(n - 1 - at) * val
                    del work[m]
                    del work[m2]
                    break
    groups = {}
    for m, c in work.items():
        o, i = splitm(m)
        groups.setdefault(i, C0)
        groups[i] = groups[i] + Poly({o: c})
    for i, co in groups.items():
        if not i:
            res = res + co * n
            continue
        if len(i) == 1 and i[0][0] is var and i[0][1] > 0:
            fh = faulhaber(n, i[0][1])
            if fh is not None:
                res = res + co * fh
                continue
        b = Poly({i: ONE})
        l, (bb,) = close([var], (b,))
        srt = poly_sort(b)
        res = res + co * P(T("sum", srt, n, bb))
    return res


_ms = {}


def may_sort(x):
    """does a sorted sequence occur in x?"""
    if isinstance(x, (Poly, Node)):
        r = _ms.get(x)
        if r is None:
            _ms[x] = False
            r = (isinstance(x, Node) and x.kind == "ssort") or any(may_sort(c)
                                                                   for c in children(x))
            _ms[x] = r
        return r
    if isinstance(x, tuple):
        return any(may_sort(c) for c in x)
    return False


def sorted_bases(x, var):
    """sorted sequences read at index var inside x; None if var is used in another way"""
    pv = P(var)
    found = set()
    seen = set()

    def walk(x):
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] == "opq" and isinstance(x[1], Node) and x[1].kind == "ssort" \
                    and x[2] == pv and not occurs(var, x[1]):
                found.add(x[1])
                return True
            return all(walk(c) for c in x)
        if isinstance(x, Poly):
            return all(walk(a) for a in x.atoms())
        if isinstance(x, Node):
            if x is var:
                return False
            if x in seen or var not in free(x):
                return True
            seen.add(x)
            return all(walk(c) for c in x.args)
        return True
    return found if walk(x) else None


def unsorted(b, var, n):
    """the order of a sorted sequence does not matter below a commutative binder"""
    found = sorted_bases(b, var)
    if not found or len(found) != 1:
        return b
    S, = found
    if LEN_HOOK[0](S) != n:
        return b
    return subst(b, {S: S.args[0]})


def sorted_total(body, var, n):
    """the order of a sorted sequence does not matter for a sum over all of its elements"""
    res = C0
    for m, c in body.t.items():
        o = tuple((a, e) for a, e in m if not occurs(var, a))
        i = tuple((a, e) for a, e in m if occurs(var, a))
        if not i:
            res = res + Poly({o: c}) * n
            continue
        b = Poly({i: ONE})
        found = sorted_bases(b, var)
        if not found or len(found) != 1:
            return None
        S, = found
        if LEN_HOOK[0](S) != n:
            return None
        t = TOTAL_HOOK[0](S, b, var)
        if t is None:
            return None
        res = res + Poly({o: c}) * t
    return res


TOTAL_HOOK = [None]
LEN_HOOK = [None]


def linear_in(f, var):
    """f = k*var + rest"""
    k = ZERO
    rest = {}
    for m, c in f.t.items():
        hit = [x for x in m if x[0] is var]
        if hit:
            if len(m) != 1 or m[0][1] != 1:
                return None
            k = c
        else:
            rest[m] = c
    r = Poly(rest)
    if k.denominator != 1 or not k:
        return None
    return int(k), r


def _re_sum(node, s):
    fresh, m = open_binder(node)
    _, n, body = node.args
    body = subst(body, m)
    n2 = s(n)
    b2 = with_range(fresh[0], n2, lambda: s(body))
    return SUM(fresh[0], n2, to_poly(b2))


BINDER_SPEC["sum"] = _re_sum


def point_of(var, cond):
    """(e, r): cond can hold only at var = e (an integer free of var), where it is r"""
    ats = sorted((a for a in cond.atoms() if a.kind == "ge" and occurs(var, a)),
                 key=lambda x: x.id)
    for a in ats:
        f, t, strict, isint = a.args
        if not isint or strict or Fraction(t).denominator != 1:
            continue
        b = [x for x in ats if x.args[0] == f and x.args[1] == t + 1 and x.args[3]
             and not x.args[2]]
        if not b:
            continue
        b = b[0]
        lin = f.t.get(((var, 1),))
        if lin not in (1, -1):
            continue
        e = (P(t) - f).scale(lin) + P(var)
        if occurs(var, e):
            continue
        if drop_ind(cond, a, 0).t or drop_ind(cond, b, 1).t:
            continue
        r = drop_ind(drop_ind(cond, a, 1), b, 0)
        if occurs(var, r):
            r = subst(r, {var: e})
        return e, r
    return None


def ANY(var, n, cond):
    """exists 0 <= var < n with cond"""
    c = cond.const()
    if c == 0:
        return C0
    if not occurs(var, cond):
        return cond * GE0(n - 1)
    cn = n.const()
    if cn is not None and cn <= 4:
        r = C0
        for i in range(int(cn)):
            r = OR(r, subst(cond, {var: P(i)}))
        return r
    for a in sorted(cond.atoms(), key=lambda x: x.id):
        if not occurs(var, a):
            return ite(P(a), ANY(var, n, drop_ind(cond, a, 1)), ANY(var, n, drop_ind(cond, a, 0)))
    pt = point_of(var, cond)
    if pt is not None:
        e, r = pt
        return GE0(e) * GE0(n - 1 - e) * r
    c2 = unsorted(cond, var, n)
    if c2 != cond:
        return ANY(var, n, c2)
    l, (bb,) = close([var], (cond,))
    return P(T("any", n, bb))


def _re_any(node, s):
    fresh, m = open_binder(node)
    n, body = node.args
    body = subst(body, m)
    n2 = s(n)
    b2 = with_range(fresh[0], n2, lambda: s(body))
    return ANY(fresh[0], n2, to_poly(b2))


BINDER_SPEC["any"] = _re_any


def ALL(var, n, cond):
    return C1 - ANY(var, n, C1 - cond)


def FIRST(var, n, cond):
    """smallest var in [0,n) with cond, n if there is none"""
    c = cond.const()
    if c == 0:
        return n
    if not occurs(var, cond):
        return ite(cond, C0, n)
    cn = n.const()
    if cn is not None and cn <= 4:
        r = n
        for i in reversed(range(int(cn))):
            r = ite(subst(cond, {var: P(i)}), P(i), r)
        return r
    pt = point_of(var, cond)
    if pt is not None:
        e, r = pt
        return ite(GE0(e) * GE0(n - 1 - e) * r, e, n)
    l, (bb,) = close([var], (cond,))
    return P(T("first", n, bb))


def _re_first(node, s):
    fresh, m = open_binder(node)
    n, body = node.args
    body = subst(body, m)
    n2 = s(n)
    b2 = with_range(fresh[0], n2, lambda: s(body))
    return FIRST(fresh[0], n2, to_poly(b2))


BINDER_SPEC["first"] = _re_first


def TRIP(var, cond):
    """smallest var >= 0 with not cond"""
    c = cond.const()
    if c == 0:
        return C0
    c0 = subst(cond, {var: C0})
    if c0.const() == 0:
        return C0
    l, (bb,) = close([var], (cond,))
    return P(T("trip", bb))


def _re_trip(node, s):
    fresh, m = open_binder(node)
    body = subst(node.args[0], m)
    NONNEG.add(fresh[0])
    return TRIP(fresh[0], to_poly(s(body)))


BINDER_SPEC["trip"] = _re_trip


# ---------------------------------------------------------------------------
# printing


def show(x, d=0):
    if d > 12:
        return "..."
    if isinstance(x, Poly):
        if not x.t:
            return "0"
        out = []
        for m, c in sorted(x.t.items(), key=lambda z: mono_key(z[0])):
            fs = []
            for a, e in m:
                s = show(a, d + 1)
                fs.append(s if e == 1 else "%s^%d" % (s, e))
            if not fs:
                out.append(str(c))
            elif c == 1:
                out.append("*".join(fs))
            elif c == -1:
                out.append("-" + "*".join(fs))
            else:
                out.append("%s*%s" % (c, "*".join(fs)))
        return " + ".join(out).replace("+ -", "- ")
    if isinstance(x, Node):
        k = x.kind
        a = x.args
        if k == "sym":
            return str(a[0])
        if k == "I":
            return "i"
        if k == "ge":
            return "[%s %s %s]" % (show(a[0], d + 1), ">" if a[2] else ">=", a[1])
        if k == "eq":
            return "[%s == %s]" % (show(a[0], d + 1), show(a[1], d + 1))
        if k == "lt":
            return "[%s < %s]" % (show(a[0], d + 1), show(a[1], d + 1))
        if k == "bv":
            return "b%d%s" % (a[0], "" if not a[1] else "'%d" % a[1])
        if k == "fv":
            return "v%d" % a[0]
        if k == "str":
            return repr(a[0])
        if k == "idiv":
            return "(%s div %s)" % (show(a[0], d + 1), show(a[1], d + 1))
        if k == "imod":
            return "(%s mod %s)" % (show(a[0], d + 1), show(a[1], d + 1))
        if k == "sum":
            return "SUM{b%d<%s}(%s)" % (blevel(x), show(a[1], d + 1), show(a[2], d + 1))
        if k == "any":
            return "ANY{b%d<%s}(%s)" % (blevel(x), show(a[0], d + 1), show(a[1], d + 1))
        if k == "app":
            return "%s(%s)" % (a[0], ", ".join(show(y, d + 1) for y in a[1]))
        if k == "leaf":
            return show_key(a[0], d) + "".join("." + str(p) for p in a[1])
        if k == "rec":
            return "{%s}" % ", ".join("%s=%s" % (n, show(v, d + 1)) for n, v in a[1])
        if k == "sone":
            return "<%s>" % show(a[0], d + 1)
        return "%s(%s)" % (k, ", ".join(show(y, d + 1) for y in a))
    if isinstance(x, tuple):
        return "(" + ", ".join(show(y, d + 1) for y in x) + ")"
    return str(x)


def show_key(k, d=0):
    if isinstance(k, tuple):
        if k and k[0] == "elem":
            return "%s[%s]" % (show(k[1], d + 1), show(k[2], d + 1))
        if k and k[0] == "var":
            return str(k[1])
        if k and k[0] == "app":
            return "%s(%s)" % (k[1], ", ".join(show(y, d + 1) for y in k[2]))
        return show(k, d + 1)
    return show(k, d + 1)
