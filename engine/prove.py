"""Deciding obligations on value graphs.

An obligation is discharged when the normal forms agree under the facts of its
program point, possibly after splitting on the truth value of indicators that
occur in the difference.  It is refuted when random interpretation separates
the two graphs on a valuation satisfying the facts.  Otherwise it is undecided.
"""
import time
from terms import *
import terms
from values import *
import values
import refute as rf


def any_inside(p):
    return any(a.kind == "any" for a in p.atoms())


class Renorm(Subst):
    """full reconstruction of a graph under the current facts"""

    def __init__(self, m, deadline=None):
        Subst.__init__(self, m)
        self.onlyvars = False
        self.deadline = deadline
        self.n = 0

    def poly(self, p):
        amap = {}
        for a in p.atoms():
            amap[a] = self(a)
        if all(n is a or n == P(a) for a, n in amap.items()):
            return p
        return rebuild_poly(p, amap)

    def node(self, n):
        self.n += 1
        if self.deadline and time.time() > self.deadline:
            raise Timeout()
        k = n.kind
        if k in LEAFVARS or k == "I":
            return n
        if k in BINDERS:
            return rebind(n, self)
        args = tuple(self(a) for a in n.args)
        rb = terms._rebuild.get(k)
        if rb:
            return rb(*args)
        if all(a is b or a == b for a, b in zip(args, n.args)):
            return n
        return T(k, *args)


def rebuild_poly(p, amap):
    """indicator factors gate the rest of their monomials"""
    res = C0
    for m, c in p.t.items():
        prod = P(c)
        for a, e in m:
            v = amap[a]
            prod = prod * (P(a) if v is a else to_poly(v)) if e == 1 else \
                prod * power(P(a) if v is a else to_poly(v), e)
            if not prod.t:
                break
        res = res + prod
    return res


def first_any(p):
    """a search ends inside of its range exactly if any element satisfies its condition"""
    m = {}
    for a in p.atoms():
        if a.kind not in ("ge", "eq") or not isinstance(a.args[0], Poly):
            continue
        f = a.args[0]
        for F in f.atoms():
            if F.kind != "first":
                continue
            d = F.args[0] - P(F)
            if a.kind == "eq":
                hit = 0 if f == d or f == -d else None
                if hit == 0 and len(a.args) > 1 and a.args[1] != 0:
                    hit = None
            elif f - a.args[1] == (d if a.args[2] else d - 1):
                hit = 1
            elif f - a.args[1] == -d and not a.args[2]:
                hit = 0
            else:
                hit = None
            if hit is not None:
                fresh, mm = terms.open_binder(F)
                x = terms.ANY(fresh[0], F.args[0], to_poly(subst(F.args[1], mm)))
                m[a] = x if hit else C1 - x
    if not m:
        return p
    return rebuild_poly(p, {a: m.get(a, a) for a in p.atoms()})


def facts_false():
    fs = [f for f in CTX.facts if len(f[0].t) < 12][-80:]
    if infeasible(fs):
        return True
    m = solve_eqs()
    if not m:
        return False
    # congruence: facts about terms that became equal
    gs = [(subst(p, m), s) for p, s in fs]
    gs = [g for g, f in zip(gs, fs) if isinstance(g[0], Poly)]
    return gs != fs and infeasible(gs)


def equalities():
    """forms known to vanish: pairs of opposite facts"""
    seen = {}
    out = []
    for p, s in CTX.facts:
        if s:
            continue
        if -p in seen:
            out.append(p)
        seen[p] = True
    return out


def solve_eqs():
    """substitutions leaf -> value implied by the equalities among the facts"""
    m = {}
    for p in equalities():
        q = subst(p, m) if m else p
        for a in sorted(q.atoms(), key=lambda x: -x.id):
            if a.kind not in ("leaf", "fv", "len"):
                continue
            if a.kind == "leaf" and a.args[2] not in ("int", "real", "ind", "vec"):
                continue
            co = q.t.get(((a, 1),))
            if co is None:
                continue
            rest = q - mono_poly(((a, 1),), co)
            if contains(rest, a):
                continue
            val = rest.scale(dv(-1, co))
            if sort_of(a) == "int" and not is_int_poly(val):
                continue
            if a.kind == "leaf" and a.args[0][0] == "app" and a.args[0][1] == "rank":
                x = a.args[0][2][0]
                ym = list(val.t.items())
                if len(ym) == 1 and ym[0][1] == 1 and len(ym[0][0]) == 1:
                    y = ym[0][0][0][0]
                    if y.kind == "leaf" and y.args[0][0] == "app" and y.args[0][1] == "rank":
                        y = y.args[0][2][0]
                        if x.kind == "leaf" and not contains(y, x):
                            n = {x: y}
                            m = {k: subst(v, n) for k, v in m.items()}
                            m.update(n)
                            break
                continue
            n = {a: val}
            m = {k: subst(v, n) for k, v in m.items()}
            m.update(n)
            break
    return m


def drop_lits(p):
    for a, v in CTX.lits.items():
        p = drop_ind(p, a, v.const() == 1)
    return p


_cont = {}


def contains(x, a):
    if isinstance(x, (Poly, Node)):
        if x is a:
            return True
        k = (x, a)
        r = _cont.get(k)
        if r is None:
            r = any(contains(c, a) for c in children(x))
            _cont[k] = r
        return r
    if isinstance(x, tuple):
        return any(contains(c, a) for c in x)
    return False


def sorted_leaves(x, found):
    """sorted sequences and the indices they are read at; False for anything else made of them"""
    if isinstance(x, tuple):
        if len(x) == 3 and x[0] == "opq" and isinstance(x[1], Node) and x[1].kind == "ssort":
            found.add((x[1], x[2]))
            return True
        return all(sorted_leaves(c, found) for c in x)
    if not isinstance(x, (Poly, Node)) or not terms.may_sort(x):
        return True
    if isinstance(x, Poly):
        return all(sorted_leaves(c, found) for c in x.atoms())
    if x.kind == "ssort":
        return False
    return all(sorted_leaves(c, found) for c in x.args)


def sorted_order(ob):
    """elements of a sorted sequence are in order"""
    found = set()
    for x in (ob.cond, ob.a, ob.b):
        if x is not None:
            sorted_leaves(x, found)
    if not 2 <= len(found) <= 6:
        return
    for S, i in found:
        for Z, j in found:
            if S is Z and i is not j and prove_nonneg(j - i):
                g = terms.SORT_HOOK[0](S, i, j)
                if g is not None:
                    CTX.assume(C1 - g)


class Prover:
    def __init__(self, deadline, maxdepth=10):
        self.deadline = deadline
        self.maxdepth = maxdepth
        self.splits = 0
        self.gates = 0
        self.insts = 0

    def norm(self, x):
        m = solve_eqs()
        if not m:
            return Renorm({}, self.deadline)(x)
        x = subst(x, m)
        CTX.push()
        try:
            # congruence: what is known about a term is known about its equals
            for p, s in list(CTX.facts):
                q = subst(p, m)
                if q != p and isinstance(q, Poly) and q.t:
                    CTX.add(q, s)
            return Renorm({}, self.deadline)(x)
        finally:
            CTX.pop()

    def dead(self, a=None):
        if time.time() > self.deadline:
            raise Timeout()
        if facts_false():
            return True
        n = len(CTX.conds)
        for i, c in enumerate(CTX.conds):
            if i < n - 6 and not (a is not None and a in c.atoms()):
                continue
            m = {k: v for k, v in CTX.lits.items()}
            k = to_poly(self.norm(subst(drop_lits(c), m) if m else c)).const()
            if k == 0:
                return True
        return False

    def pick_cond(self, p):
        """an indicator of a condition that shares variables with the goal"""
        pa = p.atoms()
        best = None
        for c in CTX.conds:
            c = drop_lits(c)
            ca = c.atoms()
            if c.const() is not None or not (ca & pa or any(contains(y, x) for x in pa if not is_ind(x)
                                                            for y in ca)):
                continue
            for a in ca:
                if is_ind(a) and a not in CTX.lits:
                    best = a if best is None or a.id > best.id else best
        return best

    def contradiction(self, depth):
        """the conditions of the program point exclude each other"""
        if depth == 0 or not CTX.conds:
            return False
        m = {k: v for k, v in CTX.lits.items()}
        best = None
        for c in CTX.conds:
            k = to_poly(self.norm(subst(drop_lits(c), m) if m else c))
            if k.const() == 0:
                return True
            if k.const() is not None:
                continue
            if any(is_ind(a) for a in k.atoms()) and (best is None or len(k.t) < len(best.t)):
                best = k
        if best is None:
            return False
        a = self.pick(best)
        return self.split(a, lambda v: self.contradiction(depth - 1))

    def split(self, a, f):
        """f holds on both sides of indicator a (f is given the value)"""
        self.splits += 1
        for v in (1, 0):
            CTX.push()
            try:
                CTX.assume(P(a) if v else NOT(P(a)))
                if self.dead(a):
                    continue
                if not f(v):
                    return False
            finally:
                CTX.pop()
        return True

    def pick(self, p):
        cnt = {}
        for m in p.t:
            for a, _ in m:
                if is_ind(a):
                    cnt[a] = cnt.get(a, 0) + 1
        if not cnt:
            return None
        return max(cnt, key=lambda a: (cnt[a], -a.id))

    def zero(self, p, depth=None):
        if depth is None:
            depth = self.maxdepth
        if time.time() > self.deadline:
            raise Timeout()
        if not p.t:
            return True
        p = self.norm(p)
        if not isinstance(p, Poly):
            p = to_poly(p)
        p = first_any(terms.join_divmod(p))
        if not p.t:
            return True
        c = p.const()
        if c is not None:
            return self.contradiction(min(depth, 8))
        if depth == 0:
            return False
        a = self.pick(p)
        if a is None and self.summands(p, depth - 1):
            return True
        if a is None:
            a = self.pick_cond(p)
            if a is None:
                return False
        if self.insts > 0:
            for x in sorted(p.atoms(), key=lambda z: z.id):
                if x.kind == "any" and self.witness(x, depth - 1):
                    return self.zero(drop_ind(p, x, 1), depth - 1)
        if len(p.t) <= 2 and a.kind == "ge" and self.members(p, depth - 1):
            return True
        return self.split(a, lambda v: self.zero(drop_ind(p, a, v), depth - 1))

    def witness(self, a, depth):
        """an element that shows an existential statement: one of the integers it, or what is
        known, mentions"""
        fresh, mm = terms.open_binder(a)
        v = fresh[0]
        q = to_poly(subst(a.args[1], mm))
        found, seen = [], set()

        def look(x, d):
            if isinstance(x, Node) and x.kind in ("leaf", "fv") and x is not v and \
                    (x.kind == "fv" or x.args[2] in ("int", "nat")) and x not in found:
                found.append(x)
            elif isinstance(x, (Node, Poly)) and d < 24:
                if x not in seen:
                    seen.add(x)
                    for c in children(x):
                        look(c, d + 1)
            elif isinstance(x, tuple):
                for c in x:
                    look(c, d + 1)
        look(q, 0)
        del found[4:]
        for l in terms.CTX.lits:
            look(l, 0)
        for w in found[:6]:
            if self.insts <= 0:
                return False
            self.insts -= 1
            if not terms.prove_nonneg(P(w)) or not terms.prove_nonneg(a.args[0] - 1 - P(w)):
                continue
            if self.zero(C1 - to_poly(subst(q, {v: P(w)})), min(depth, 5)):
                return True
        return False

    def summands(self, p, depth):
        """sums over the same range vanish together if all of their summands do"""
        groups = {}
        for m, c in p.t.items():
            s = [a for a, e in m if a.kind == "sum" and e == 1]
            if len(s) != 1 or isinstance(s[0].args[2], Node):
                return False
            groups.setdefault(s[0].args[1], []).append(
                (s[0], Poly({tuple(z for z in m if z[0] is not s[0]): c})))
        if any(len(parts) == 1 for parts in groups.values()):
            return False
        for n, parts in groups.items():
            v = T("fv", next(terms._fresh))
            NONNEG.add(v)
            q = C0
            for s, f in parts:
                q = q + f * subst(s.args[2], {T("bv", blevel(s), 0): P(v)})
            CTX.push()
            try:
                CTX.add(n - P(v) - 1)
                if not self.zero(q, depth):
                    return False
            finally:
                CTX.pop()
        return True

    def members(self, p, depth):
        """an element of a sorted sequence is one of the elements of the sequence"""
        found = set()
        for a in p.atoms():
            if not sorted_leaves(a, found):
                return False
        if len(found) != 1:
            return False
        (S, i), = found
        m = T("mu", next(terms._fresh), "seq")
        p = subst(p, {S: T("ssym", ("mu", m), (), S.args[1])})

        def each(s):
            if s.kind == "scat":
                return all(each(q) for q in s.args[0])
            if s.kind == "sone":
                q = subst(p, {m: s})
                return isinstance(q, Poly) and self.zero(q, depth)
            if s.kind == "sif":
                for v, q in ((1, s.args[1]), (0, s.args[2])):
                    CTX.push()
                    try:
                        CTX.assume(s.args[0] if v else NOT(s.args[0]))
                        if not self.dead() and not each(q):
                            return False
                    finally:
                        CTX.pop()
                return True
            return False
        return each(S.args[0])

    def same(self, a, b, depth=6):
        if isinstance(a, Poly) and isinstance(b, Poly):
            return self.zero(a - b)
        if a is b:
            return not has_unk(a)
        if not (isinstance(a, Node) and isinstance(b, Node)):
            return False
        if a.kind == "rec" and b.kind == "rec":
            if len(a.args[1]) != len(b.args[1]):
                return False
            for (n, x), (m, y) in zip(a.args[1], b.args[1]):
                if n != m or not self.same(x, y, depth):
                    return False
            return True
        if is_seq(a) and is_seq(b):
            return self.seqs(a, b, depth)
        for x in (a, b):
            if x.kind == "vite" and depth:
                at = first_ind(x.args[0])
                if at is not None:
                    return self.split(at, lambda v: self.same(self.under(a), self.under(b),
                                                              depth - 1))
        for x in (a, b):
            if x.kind == "strcat" and depth:
                at = next((first_ind(y.args[0]) for y in x.args[0] if y.kind == "vite"), None)
                if at is not None and self.gates < 24:
                    self.gates += 1
                    try:
                        return self.split(at, lambda v: self.same(self.under(a), self.under(b),
                                                                  depth))
                    finally:
                        self.gates -= 1
        na, nb = self.norm(a), self.norm(b)
        if na is nb:
            return not has_unk(na)
        if (na is not a or nb is not b) and depth:
            return self.same(na, nb, depth - 1)
        try:
            e = value_eq(a, b)
        except Unsupported:
            return False
        return self.zero(C1 - e, 4)

    def under(self, x):
        m = {k: v for k, v in CTX.lits.items()}
        return self.norm(subst(x, m))

    def seqs(self, a, b, depth):
        na, nb = self.norm(a), self.norm(b)
        if na is nb:
            return not has_unk(na)
        # a gate on either side
        for x in (na, nb):
            g = self.gate(x)
            if g is None:
                continue
            if self.gates < 24:
                self.gates += 1
                try:
                    if self.split(g, lambda v: self.same(self.under(na), self.under(nb), depth)):
                        return True
                finally:
                    self.gates -= 1
            q = first_any(P(g))
            if q is not None and q != P(g) and depth:
                return self.seqs(subst(na, {g: q}), subst(nb, {g: q}), depth - 1)
            if self.gates < 24:
                return False
        whole = self.elementwise(na) and self.elementwise(nb)
        # lengths of repeated pieces are harder to compare than the pieces
        made = not whole and any(p.kind == "sfor" for x in (na, nb) for p in parts(x))
        if made and self.pieces(na, nb, depth):
            return True
        la, lb = length(na), length(nb)
        if not self.zero(la - lb):
            return False
        if whole:
            v = fresh_var()
            return with_range(v, la, lambda: self.same(select(na, P(v)), select(nb, P(v)),
                                                       depth - 1))
        return not made and self.pieces(na, nb, depth)

    def pieces(self, na, nb, depth):
        """part by part, element by element of the range it is made over"""
        pa, pb = parts(na), parts(nb)
        if len(pa) == len(pb) and len(pa) > 1:
            return all(self.same(x, y, depth) for x, y in zip(pa, pb))
        if na.kind == "sfor" and nb.kind == "sfor":
            va, ma = open_binder(na)
            vb, mb = open_binder(nb)
            if not self.zero(na.args[0] - nb.args[0]):
                return False
            ba = subst(na.args[1], ma)
            bb = subst(nb.args[1], mb)
            bb = subst(bb, {vb[0]: P(va[0])})
            return with_range(va[0], na.args[0], lambda: self.same(ba, bb, depth - 1))
        return False

    def gate(self, x):
        for p in parts(x):
            if p.kind == "sif":
                return first_ind(p.args[0])
        return None

    def elementwise(self, s):
        k = s.kind
        if k in ("ssym", "sone", "sfun"):
            return True
        if k == "scat":
            return all(self.elementwise(p) for p in s.args[0])
        if k in ("supd", "srem", "sacc"):
            return self.elementwise(s.args[0])
        if k == "smap":
            return self.elementwise(s.args[0])
        return False


class Result:
    __slots__ = ("status", "why", "witness", "forms")

    def __init__(self, status, why="", witness=None, forms=None):
        self.status, self.why, self.witness, self.forms = status, why, witness, forms


def restore(ob):
    CTX.push()
    CTX.facts[:] = []
    CTX.conds[:] = []
    CTX.lits = {}
    seen = set()
    for f, s in ob.facts:
        if (f, s) not in seen:
            seen.add((f, s))
            CTX.add(f, s)
    for c in ob.conds:
        CTX.assume(c)


class Saved:
    def __init__(self):
        self.f, self.c, self.l, self.v = list(CTX.facts), list(CTX.conds), dict(CTX.lits), \
            CTX.version
        self.s = list(CTX.stack)

    def back(self):
        CTX.facts[:] = self.f
        CTX.conds[:] = self.c
        CTX.lits = self.l
        CTX.version = self.v
        CTX.stack[:] = self.s


def again(ob, seed, secs, want):
    """a longer search for a counterexample of what could not be decided"""
    sv = Saved()
    r = None
    try:
        CTX.stack[:] = []
        restore(ob)
        sorted_order(ob)
        terms.LIMIT[0] = time.time() + secs * 2
        r = rf.refute(ob, seed, secs, want)
    except (RecursionError, Timeout, Unsupported):
        pass
    finally:
        terms.LIMIT[0] = None
        sv.back()
    return Result("refuted", "", r, forms(ob)) if r else None


def decide(ob, seed, prove_s=20.0, refute_s=4.0, want=3000):
    if ob.status == "proved":
        return Result("proved")
    if ob.status == "undecided":
        return Result("undecided", ob.detail or "")
    sv = Saved()
    why = ""
    try:
        CTX.stack[:] = []
        restore(ob)
        ok = False
        if ob.cond is not None and ob.cond.const() == 1:
            ok = True
        else:
            # a few cheap samples first: most broken obligations fall at once
            r = None
            terms.LIMIT[0] = time.time() + 3
            try:
                r = rf.refute(ob, seed, 0.2, 8)
            except (RecursionError, Timeout):
                pass
            if r:
                terms.LIMIT[0] = None
                return Result("refuted", "", r, forms(ob))
            pr = Prover(time.time() + prove_s)
            terms.LIMIT[0] = pr.deadline
            try:
                sorted_order(ob)
                if pr.dead():
                    ok = True
                    why = "unreachable"
                elif ob.a is not None:
                    ok = pr.same(ob.a, ob.b)
                else:
                    ok = pr.zero(C1 - ob.cond)
                    if not ok and any_inside(ob.cond):
                        pr.insts = 24
                        ok = pr.zero(C1 - ob.cond)
            except Timeout:
                why = "time"
            except Unsupported as e:
                why = str(e)
            except RecursionError:
                why = "recursion"
        if ok:
            return Result("proved", why)
        r = None
        terms.LIMIT[0] = time.time() + refute_s * 2 + 2
        try:
            r = rf.refute(ob, seed + 1, refute_s, want)
        except RecursionError:
            why = "recursion"
        except Timeout:
            pass
        terms.LIMIT[0] = None
        if r:
            return Result("refuted", why, r, forms(ob))
        return Result("undecided", why, None, forms(ob))
    finally:
        terms.LIMIT[0] = None
        sv.back()


def forms(ob):
    def cut(x):
        s = show(x)
        return s if len(s) < 1500 else s[:1500] + "..."
    if ob.a is not None:
        return (cut(ob.a), cut(ob.b))
    return (cut(ob.cond), "1")
