"""Loop summarisation: closed forms for one abstract loop, no iteration."""
from terms import *
import terms
from values import *
import values


class Mod:
    __slots__ = ("cell", "path", "v0", "mu", "sort", "kind", "val", "ety", "body", "V", "utype",
                 "prom")

    def key(self):
        return (self.cell, self.path)


def getp(v, path):
    for s in path:
        if s[0] == "f":
            v = rec_get(v, s[1])
        elif s[0] == "it":
            v = v.args[1]
        elif s[0] == "re":
            v = re_im(v)[0]
        elif s[0] == "im":
            v = re_im(v)[1]
    return v


def setp(v, path, x):
    if not path:
        return x
    s = path[0]
    if s[0] == "f":
        return rec_set(v, s[1], setp(rec_get(v, s[1]), path[1:], x))
    if s[0] == "it":
        return T("iter", v.args[0], x, v.args[2])
    if s[0] == "re":
        return x + P(I) * re_im(v)[1]
    if s[0] == "im":
        return re_im(v)[0] + P(I) * x
    raise Unsupported("setp")


def diff(a, b, path=()):
    if a is b:
        return []
    if isinstance(a, Poly) and isinstance(b, Poly):
        if a == b:
            return []
        if any(x.kind == "I" for x in a.atoms()) or any(x.kind == "I" for x in b.atoms()):
            out = []
            ra, rb = re_im(a), re_im(b)
            if ra[0] != rb[0]:
                out.append(path + (("re",),))
            if ra[1] != rb[1]:
                out.append(path + (("im",),))
            return out
        return [path]
    if isinstance(a, Node) and isinstance(b, Node):
        if a.kind == "rec" and b.kind == "rec" and len(a.args[1]) == len(b.args[1]):
            out = []
            for (n, x), (m, y) in zip(a.args[1], b.args[1]):
                out += diff(x, y, path + (("f", n),))
            return out
        if a.kind == "iter" and b.kind == "iter" and a.args[0] is b.args[0]:
            return [path + (("it",),)]
    return [path]


def cell_default(c):
    if c.args[0] == "s":
        return mk_symval(c.args[3], c.args[1], c.args[2])
    return None


def state_diff(s0, s1):
    out = []
    for c, v in s1.items():
        w = s0.get(c)
        if w is None:
            w = cell_default(c)
            if w is None:
                continue
        for p in diff(w, v):
            out.append((c, p))
    return out


def leaf_type(Ip, cell, path):
    t = Ip.ctype.get(cell)
    if t is None and cell.args[0] == "s":
        t = cell.args[3]
    for s in path:
        if t is None:
            return None
        if s[0] == "it":
            return "long"
        if s[0] in ("re", "im"):
            return "double"
        k, d = classify(t)
        if k == "rec":
            r = TY.records[d]
            nt = None
            if s[1].startswith("__base:"):
                nt = s[1][7:]
            for f in r.get("fields", []):
                if f["n"] == s[1]:
                    nt = f["t"]
            t = nt
        elif k == "pair":
            t = d[0] if s[1] == "first" else d[1]
        elif k == "tuple":
            t = d[int(s[1])]
        else:
            return None
    return t


def make_mod(Ip, cell, path, v0, v1):
    m = Mod()
    m.cell, m.path, m.v0 = cell, path, v0
    m.V = None
    m.prom = None
    m.utype = None
    t = leaf_type(Ip, cell, path)
    k, d = classify(t) if t else (None, None)
    if is_seq(v0) or is_seq(v1):
        m.kind = "seq"
        ety = None
        if k in ("seq",):
            ety = strip_type(d)
        elif k == "arr":
            ety = strip_type(d[0])
        if ety is None:
            ety = elem_type(v0) if is_seq(v0) else None
        if ety is None and is_seq(v1):
            ety = elem_type(v1)
        m.ety = ety or "double"
        m.sort = ("seq", m.ety)
        m.mu = T("mu", next(terms._fresh), "seq")
        m.val = T("ssym", ("mu", m.mu), (), m.ety)
        return m
    if isinstance(v0, Poly) and isinstance(v1, Poly):
        m.kind = "num"
        if k in ("ind", "int", "real", "vec"):
            srt = k
        elif path and path[-1][0] == "it":
            srt = "int"
        elif is_int_poly(v0) and is_int_poly(v1):
            srt = "int"
        else:
            srt = "real"
        m.sort = (srt,)
        m.mu = T("mu", next(terms._fresh), srt)
        m.val = P(m.mu)
        if k == "int" and d in UNSIGNED:
            NONNEG.add(m.mu)
            m.utype = d
        return m
    if isinstance(v0, Node) and isinstance(v1, Node):
        srt = "str" if Ip.is_str(v0) else "obj"
        if is_ref_like(v0) or is_ref_like(v1):
            raise Unsupported("reference changes in a loop")
        m.kind = "obj"
        m.sort = (srt,)
        m.mu = T("mu", next(terms._fresh), srt)
        m.val = T("leaf", ("mu", m.mu), (), srt)
        return m
    raise Unsupported("loop state")


def is_ref_like(v):
    return isinstance(v, Node) and (v.kind in ("ref", "iter", "null", "clo") or
                                    (v.kind == "vite" and is_ref_like(v.args[1])))


def refine(p, depth=0):
    """re-decide the thresholds of a polynomial under the current facts"""
    if not isinstance(p, Poly):
        return p
    for a in sorted(p.atoms(), key=lambda z: z.id):
        if a not in p.atoms():
            continue
        lv = CTX.lits.get(a)
        if lv is not None:
            p = drop_ind(p, a, 1 if lv.t else 0)
            continue
        if a.kind == "ge":
            f, c, strict, isint = a.args
            v = GE0(f - c, isint, strict).const()
            if v is not None:
                p = drop_ind(p, a, 1 if v else 0)
    return p


def refine_state(old, new):
    """changed scalars, re-decided under what holds in the loop (its condition)"""
    res = None
    for cell, v in new.items():
        if v is old.get(cell):
            continue
        w = refine_value(v)
        if w is not v:
            if res is None:
                res = dict(new)
            res[cell] = w
    return new if res is None else res


def refine_value(v, depth=0):
    if isinstance(v, Poly):
        w = refine(v)
        return v if w is v or w == v else w
    if isinstance(v, Node) and depth < 4:
        if v.kind == "vite":
            c = refine(v.args[0])
            k = c.const()
            if k is not None:
                return refine_value(v.args[1] if k else v.args[2], depth + 1)
            x, y = (refine_value(z, depth + 1) for z in v.args[1:])
            return v if (x is v.args[1] and y is v.args[2]) else ite(v.args[0], x, y)
        if v.kind == "rec":
            f = tuple((n, refine_value(x, depth + 1)) for n, x in v.args[1])
            if any(x is not y for (_, x), (_, y) in zip(f, v.args[1])):
                return T("rec", v.args[0], f, *v.args[2:])
    return v


class Pass:
    pass


def run_pass(Ip, st, cond, body, inc, facts):
    """one abstract iteration from state st; returns outcomes"""
    fr = Ip.frame
    r = Pass()
    saved_rets, saved_throws = fr.rets, Ip.throws
    saved_env = dict(fr.env)
    saved = (Ip.st, Ip.guard, Ip.line)
    fr.rets, Ip.throws = [], []
    exits = []
    Ip.st = dict(st)
    Ip.guard = C1
    nstack = len(CTX.stack)
    CTX.push()
    try:
        for f in facts:
            CTX.add(f)
        r.c = cond()
        r.cst = Ip.st
        CTX.assume(r.c)
        if r.c.const() is None:
            Ip.st = refine_state(st, Ip.st)
        fr.loops.append(exits)
        try:
            if r.c.const() != 0:
                body()
            else:
                Ip.guard = C0
        finally:
            fr.loops.pop()
        conts = [x for x in exits if x.kind == "continue"]
        brk = [x for x in exits if x.kind == "break"]
        if conts:
            from interp import Exit
            outs = conts + ([Exit("n", Ip.guard, Ip.st)] if Ip.alive else [])
            Ip.guard, Ip.st, _ = Ip.merge_exits(outs)
        if Ip.alive:
            inc()
        r.guard, r.st = Ip.guard, Ip.st
        r.breaks, r.rets, r.throws = brk, fr.rets, Ip.throws
    finally:
        while len(CTX.stack) > nstack:
            CTX.pop()
        fr.rets, Ip.throws = saved_rets, saved_throws
        fr.env = saved_env
        Ip.st, Ip.guard, Ip.line = saved
    return r


def mu_state(st0, mods, kp):
    st = dict(st0)
    for m in mods:
        v = st.get(m.cell)
        if v is None:
            v = cell_default(m.cell)
        x = m.prom(kp) if m.prom is not None else m.val
        st[m.cell] = setp(v, m.path, x)
    return st


def mus_in(x, muset):
    return free(x) & muset


def covered(mods, cell, path):
    for m in mods:
        if m.cell is cell and m.path == path[:len(m.path)]:
            return True
    return False


def strip64(p):
    M = Fraction(2) ** 64
    if all((c.denominator != 1 or c % M) for c in p.t.values()):
        return p
    return Poly({m: c for m, c in p.t.items() if c.denominator != 1 or c % M})


def discover(Ip, st0, cond, body, inc, k):
    kp = P(k)
    mods = []
    Ip.quiet += 1
    try:
        r = None
        try:
            r = run_pass(Ip, st0, cond, body, inc, [kp])
            first = [(c, p, r.st) for c, p in state_diff(st0, r.st)] if r.guard.const() != 0 \
                else []
            for x in r.breaks + r.rets:
                pass
        except Unsupported:
            first = None
        if first is None:
            # the first iteration is special (constants): start from what an arbitrary one does
            first = []
            r = None
        for c, p, st1 in first:
            add_mod(Ip, mods, st0, c, p, st1)
        for rnd in range(12):
            stm = mu_state(st0, mods, kp)
            r = run_pass(Ip, stm, cond, body, inc, [kp])
            new = False
            for c, p in state_diff(stm, r.st):
                if not covered(mods, c, p):
                    add_mod(Ip, mods, st0, c, p, r.st)
                    new = True
            if new:
                # scalars first seen as real may turn out complex: restart their leaves
                continue
            # promotions
            muset = {m.mu for m in mods if m.prom is None}
            prom = False
            for m in mods:
                if m.prom is not None or m.kind != "num":
                    continue
                b = getp(cell_of(r.st, m.cell), m.path)
                if not isinstance(b, Poly):
                    continue
                d = b - m.val
                if m.utype:
                    d = strip64(d)
                if mus_in(d, muset):
                    continue
                if any(x.kind == "I" for x in d.atoms()):
                    continue
                m.prom = promoted(m.v0, d, k)
                prom = True
            if not prom:
                return mods, r
        raise Unsupported("loop state does not stabilise")
    finally:
        Ip.quiet -= 1


def cell_of(st, c):
    v = st.get(c)
    if v is None:
        v = cell_default(c)
    return v


def promoted(v0, d, k):
    if not occurs(k, d):
        return lambda m: v0 + d * m

    def f(m):
        w = fresh_var()
        return v0 + SUM(w, m, with_range(w, m, lambda: subst(d, {k: P(w)})))
    return f


def add_mod(Ip, mods, st0, c, p, st1):
    if covered(mods, c, p):
        return
    # drop finer leaves below
    mods[:] = [m for m in mods if not (m.cell is c and m.path[:len(p)] == p)]
    v0 = getp(cell_of(st0, c), p)
    v1 = getp(cell_of(st1, c), p)
    mods.append(make_mod(Ip, c, p, v0, v1))


def trip_candidates(c, k):
    out = []
    for a in sorted(c.atoms(), key=lambda z: z.id):
        if a.kind == "ge" and occurs(k, a.args[0]):
            f, t, strict, isint = a.args
            co = coef_of(f, k)
            if co is None:
                continue
            if co[0].const() is None or not isint:
                s, r0 = co[0], co[1] - t
                if occurs(k, s):
                    continue
                for sg in (1, -1):
                    w = s.scale(sg)
                    if not prove_nonneg(w, True):
                        continue
                    q, r1 = terms.divide_by(r0, w)
                    if not is_int_poly(q):
                        continue
                    # -2w <= r1 < 2w
                    lo = sum((NOT(GE0(r1 + w.scale(x), strict=strict)) for x in (0, 1)), C0)
                    hi = GE0(r1 - w, strict=strict)
                    out.append(lo - q - hi if sg == 1 else q + 1 - lo + hi)
                continue
            s = co[0].const()
            r = co[1]
            if s == 1:
                out.append(P(t) - r)
                out.append(P(t) - r + 1)
                out.append(P(t) - r - 1)
            elif s == -1:
                out.append(r - P(t) + 1)
                out.append(r - P(t))
            elif s.denominator == 1 and s < 0:
                out.append(IDIV(r - P(t) - s.numerator, P(-s)))
            elif s.denominator == 1:
                # s*k + r >= t: becomes true at ceil((t-r)/s)
                q = P(t) - r
                out.append(IDIV(q + (s - 1), P(s)))
    return out


def trip(Ip, c, k, depth=0):
    """(n, c'): number of iterations bound and the remaining condition below it"""
    kp = P(k)
    cc = c.const()
    if cc == 1:
        return None, C1
    if cc == 0:
        return C0, C1
    seen = []
    fallback = None
    for cand in trip_candidates(c, k):
        if cand in seen:
            continue
        seen.append(cand)
        v = refine(subst(c, {k: cand}))
        if v.const() != 0:
            # decide under cand >= 0
            CTX.push()
            CTX.add(cand)
            v = refine(subst(c, {k: cand}))
            CTX.pop()
            if v.const() != 0:
                continue
        if prove_nonneg(cand):
            n = cand
        else:
            neg = LT(cand, C0)
            CTX.push()
            CTX.assume(neg)
            z = refine(subst(c, {k: C0}))
            CTX.pop()
            if z.const() == 0:
                n = cand * NOT(neg)
            else:
                Ip.need("loop", GE0(cand), "the loop reaches its bound")
                CTX.add(cand)
                n = cand
        CTX.push()
        CTX.add(kp)
        CTX.add(n - 1 - kp)
        if first_ind(n) is not None:
            CTX.add(cand - 1 - kp)
        c2 = refine(c)
        CTX.pop()
        if c2.const() == 0:
            continue
        if c2.const() == 1 or first_ind(n) is None:
            return n, c2
        if fallback is None:
            fallback = n, c2
    if depth < 4:
        # a bound that depends on conditions of the surrounding program
        gates = [a for a in sorted(c.atoms(), key=lambda z: z.id)
                 if is_ind(a) and not occurs(k, a)]
        gates += [g for g in (first_ind(cand) for cand in seen) if g is not None
                  and g not in gates]
        for a in gates:
            r = []
            for v in (1, 0):
                CTX.push()
                CTX.assume(P(a) if v else NOT(P(a)))
                n, rest = trip(Ip, refine(drop_ind(c, a, v)), k, depth + 1)
                CTX.pop()
                if n is None or n == "trip" or rest.const() != 1:
                    break
                r.append(n)
            if len(r) == 2:
                return ite(P(a), r[0], r[1]), C1
            break
    if fallback is not None:
        return fallback
    return "trip", c


def goes_on(Ip, c, k):
    """a loop whose condition never becomes false once it holds must not be entered"""
    kp = P(k)
    CTX.push()
    CTX.add(kp)
    CTX.assume(c)
    for_ever = refine(subst(c, {k: kp + 1})).const() == 1
    CTX.pop()
    if for_ever:
        Ip.oblige("loop", NOT(subst(c, {k: C0})), "the loop terminates")


def last_value(v0, b, k, m):
    """b holds after every iteration: value after m iterations"""
    if not occurs(k, b):
        return ite(GE0(m - 1), b, v0)
    return ite(GE0(m - 1), at(b, k, m - 1), v0)


def at(b, k, i):
    return subst(b, {k: i})


def classify_num(m, b, k):
    mu = m.mu
    v0 = m.v0
    d = b - m.val
    if m.utype:
        d = strip64(d)
    if mu not in free(d):
        return promoted(v0, d, k)
    if mu not in free(b):
        return lambda n: last_value(v0, b, k, n)
    co = None
    # b = A*mu + B
    if m.sort[0] == "ind":
        A = drop_ind(b, mu, 1) - drop_ind(b, mu, 0)
        B = drop_ind(b, mu, 0)
        if mu not in free(A) and mu not in free(B):
            co = (A, B)
    else:
        co = coef_of(b, mu)
    if co is None:
        return None
    A, B = co
    nA = C1 - A
    if is_bool(A) and A * A == A and not (A * B).t:
        # mu kept where A holds, replaced by v where not
        if not (nA - B).t:
            v = C1
        elif not B.t:
            v = C0
        else:
            v = B
            for lit, val in implied(nA):
                v = drop_ind(v, lit, 1 if val else 0)
            if nA * v != B:
                v = None
        if v is not None and not occurs(k, v):
            def f(n):
                w = fresh_var()
                e = ANY(w, n, with_range(w, n, lambda: subst(nA, {k: P(w)})))
                return ite(e, v, v0)
            return f

        def g(n):
            w = fresh_var()
            e = ANY(w, n, with_range(w, n, lambda: subst(nA, {k: P(w)})))
            j = n - 1 - FIRST(w, n, with_range(w, n, lambda: subst(nA, {k: n - 1 - P(w)})))
            return ite(e, subst(v if v is not None else B, {k: j}), v0)
        return g
    half = nA.scale(Fraction(1, 2))
    if not B.t and is_bool(half) and half * half == half:
        def h(n):
            w = fresh_var()
            s = SUM(w, n, with_range(w, n, lambda: subst(half, {k: P(w)})))
            o = odd(s)
            if o is None:
                raise Unsupported("parity")
            return v0 * (C1 - o.scale(2))
        return h
    return None


def elem_occurrences(x, S, out, seen):
    """indices at which the sequence S is read inside x; None recorded for other uses"""
    if isinstance(x, (Poly, Node)):
        if x in seen:
            return
        seen.add(x)
        if isinstance(x, Node):
            if x is S:
                out.append(None)
                return
            if x.kind in ("leaf", "ssym", "fnsym") and x.args[0][0] == "elem" and \
                    x.args[0][1] is S:
                out.append(x.args[0][2])
                elem_occurrences(x.args[0][2], S, out, seen)
                return
            if x.kind == "len" and x.args[0] is S:
                return
            if x.kind == "mu":
                return
        for c in children(x):
            elem_occurrences(c, S, out, seen)
    elif isinstance(x, tuple):
        for c in x:
            elem_occurrences(c, S, out, seen)


def classify_seq(m, b, k):
    S = m.val
    v0 = m.v0
    mu = m.mu
    if b is S:
        return lambda n: v0
    if mu not in free(b):
        return lambda n: last_value(v0, b, k, n)
    ps = parts(b)
    if S in ps and ps.count(S) == 1:
        i = ps.index(S)
        pre, post = ps[:i], ps[i + 1:]
        if not any(mu in free(p) for p in pre + post):
            def f(n):
                out = []
                if pre:
                    w = fresh_var()
                    out.append(SFOR(w, n, with_range(w, n, lambda: subst(
                        scat(pre), {k: n - 1 - P(w)}))))
                out.append(v0)
                if post:
                    w = fresh_var()
                    out.append(SFOR(w, n, with_range(w, n, lambda: subst(
                        scat(post), {k: P(w)}))))
                return scat(out)
            return f
        # appended parts that only use the length, which is known in advance
        lS = length(S)
        grow = C0
        for p in pre + post:
            grow = grow + length(p)
        if mu not in free(grow):
            occ = []
            elem_occurrences(tuple(pre + post), S, occ, set())
            if not occ:
                def g(n):
                    w = fresh_var()
                    lk = length(v0) + SUM(w, P(k), with_range(w, P(k), lambda: subst(
                        grow, {k: P(w)})))
                    sub = {lS_atom(S): lk}
                    return classify_seq_append(m, [subst(p, sub) for p in pre],
                                               [subst(p, sub) for p in post], k, n)
                return g
        return None
    stores = []
    cur = b
    while cur is not S:
        if cur.kind == "supd":
            stores.insert(0, ([], [], cur.args[1], cur.args[2]))
            cur = cur.args[0]
        elif cur.kind == "smap":
            vs, mm = open_binder(cur)
            base, ns, idx, val = cur.args
            vs = list(vs[:len(ns)])
            while len(vs) < len(ns):
                vs.append(fresh_var())
            for v in vs:
                NONNEG.add(v)
            stores.insert(0, (vs, [subst(x, mm) for x in ns], subst(idx, mm), subst(val, mm)))
            cur = base
        elif cur.kind == "sacc":
            vs, mm = open_binder(cur)
            base, n1, idx, val = cur.args
            stores.insert(0, (vs[:1], [n1], subst(idx, mm), subst(val, mm), "acc"))
            cur = base
        else:
            return None
    if len(stores) != 1:
        return seq_multi(m, stores, k)
    st = stores[0]
    vs, ns, idx, val = st[:4]
    if any(mu in free(x) for x in ns) or mu in free(idx):
        return None
    if len(st) == 5:
        return None
    # every iteration writes one slot
    if mu not in free(val):
        if not occurs(k, idx) and not vs:
            def f(n):
                if not occurs(k, val):
                    return SUPD(v0, idx, ite(GE0(n - 1), val, select(v0, idx)))
                return SUPD(v0, idx, ite(GE0(n - 1), at(val, k, n - 1), select(v0, idx)))
            return f
        return lambda n: smap_over(k, n, vs, ns, v0, idx, val)
    occ = []
    elem_occurrences(val, S, occ, set())
    same = all(o is not None and o == idx for o in occ)
    if not vs and not occurs(k, idx):
        return slot_loop(m, idx, val, k)
    if same and injective(idx, [k] + vs, ns):
        val2 = subst(val, {mu: v0})
        return lambda n: smap_over(k, n, vs, ns, v0, idx, val2)
    if isinstance(val, Poly) and not vs:
        d = val - select(S, idx)
        if mu not in free(d):
            return lambda n: sacc_over(k, n, v0, idx, d)
    return None


def lS_atom(S):
    return T("len", S)


def classify_seq_append(m, pre, post, k, n):
    out = []
    if pre:
        w = fresh_var()
        out.append(SFOR(w, n, with_range(w, n, lambda: subst(scat(pre), {k: n - 1 - P(w)}))))
    out.append(m.v0)
    if post:
        w = fresh_var()
        out.append(SFOR(w, n, with_range(w, n, lambda: subst(scat(post), {k: P(w)}))))
    return scat(out)


def smap_over(k, n, vs, ns, base, idx, val):
    w = fresh_var()
    NONNEG.add(w)
    s = {k: P(w)}
    CTX.push()
    CTX.add(P(w))
    CTX.add(n - 1 - P(w))
    for v, x in zip(vs, ns):
        CTX.add(P(v))
        CTX.add(subst(x, s) - 1 - P(v))
    try:
        i2, v2 = subst(idx, s), subst(val, s)
        n2 = [subst(x, s) for x in ns]
    finally:
        CTX.pop()
    return SMAP([w] + vs, [n] + n2, base, i2, v2)


def sacc_over(k, n, base, idx, d):
    w = fresh_var()

    def go():
        return subst(idx, {k: P(w)}), subst(d, {k: P(w)})
    i2, d2 = with_range(w, n, go)
    return SACC(w, n, base, i2, d2)


def injective(idx, vs, ns):
    """distinct (k, vs) give distinct slots"""
    if len(vs) == 1:
        co = coef_of(idx, vs[0])
        return co is not None and co[0].const() is not None and co[0].const() != 0
    # mixed radix: the coefficient of an outer variable exceeds the span of the inner ones
    cs = []
    rest = idx
    for v in vs:
        co = coef_of(rest, v)
        if co is None:
            return False
        cs.append(co[0])
        rest = co[1]
    inner = C0
    for v, c, n in reversed(list(zip(vs[1:], cs[1:], ns))):
        if not prove_nonneg(c - 1 - inner):
            return False
        inner = inner + c * (n - 1)
    return prove_nonneg(cs[0] - 1 - inner)


def leaf_mod(el, v0):
    e = Mod()
    e.cell = e.path = None
    e.prom = None
    e.utype = None
    if is_seq(el):
        e.kind = "seq"
        e.ety = el.args[2] if el.kind == "ssym" else (elem_type(el) or "double")
        e.sort = ("seq", e.ety)
        e.mu = T("mu", next(terms._fresh), "seq")
        e.val = T("ssym", ("mu", e.mu), (), e.ety)
    elif isinstance(el, Poly):
        if any(a.kind == "I" for a in el.atoms()):
            return None
        e.kind = "num"
        srt = poly_sort(el)
        e.sort = (srt,)
        e.mu = T("mu", next(terms._fresh), srt)
        e.val = P(e.mu)
        if any(a in NONNEG for a in el.atoms()):
            NONNEG.add(e.mu)
    else:
        return None
    e.v0 = v0
    return e


def slot_loop(m, idx, val, k):
    """a loop that keeps updating one slot"""
    S = m.val
    el = select(S, idx)
    v0 = m.v0
    ev0 = select(v0, idx)
    other = T("ssym", ("var", "other%d" % next(terms._fresh)), (), m.ety)
    if isinstance(el, Poly) and any(a.kind == "I" for a in el.atoms()):
        return slot_complex(m, idx, val, k)
    paths = diff(el, val)
    mods = []
    comp = ev0
    for p in paths:
        try:
            e = leaf_mod(getp(el, p), getp(ev0, p))
        except Unsupported:
            return None
        if e is None:
            return None
        mods.append((p, e))
        comp = setp(comp, p, e.val)
    val2 = subst(val, {m.mu: T("supd", other, idx, comp)})
    fs = []
    mus = {e.mu for _, e in mods} | {m.mu}
    for p, e in mods:
        b = getp(val2, p)
        if free(b) & (mus - {e.mu}):
            return None
        f = classify_num(e, b, k) if e.kind == "num" else classify_seq(e, b, k)
        if f is None:
            return None
        fs.append((p, f))

    def g(n):
        r = ev0
        for p, f in fs:
            r = setp(r, p, f(n))
        return SUPD(v0, idx, r)
    return g


def slot_complex(m, idx, val, k):
    el = select(m.val, idx)
    d = val - el
    if m.mu in free(d):
        return None
    v0 = m.v0

    def f(n):
        w = fresh_var()
        s = with_range(w, n, lambda: subst(d, {k: P(w)}))
        re, im = re_im(s)
        return SUPD(v0, idx, select(v0, idx) + SUM(w, n, re) + P(I) * SUM(w, n, im))
    return f


def seq_multi(m, stores, k):
    """several slots written per iteration: independent when their values ignore the state and
    the slots of different stores never meet"""
    S = m.val
    mu = m.mu
    v0 = m.v0
    if any(len(s) == 5 for s in stores):
        return None
    for vs, ns, idx, val in stores:
        if vs or mu in free(idx) or mu in free(val):
            return None
    # pairwise: index difference between iterations k1 != k2 never zero
    k1, k2 = fresh_var(), fresh_var()
    for i, a in enumerate(stores):
        for b in stores[i + 1:]:
            d = subst(a[2], {k: P(k1)}) - subst(b[2], {k: P(k2)})
            c = d.t.get((), Fraction(0))
            rest = d - c
            from math import gcd
            g = 0
            for v in rest.t.values():
                if v.denominator != 1:
                    return None
                g = gcd(g, abs(int(v)))
            if g == 0 or c.denominator != 1 or int(c) % g == 0:
                return None

    def f(n):
        cur = v0
        for vs, ns, idx, val in stores:
            cur = smap_over(k, n, [], [], cur, idx, val)
        return cur
    return f


def classify_obj(m, b, k):
    if m.mu not in free(b):
        return lambda n: last_value(m.v0, b, k, n)
    if b is m.val:
        return lambda n: m.v0
    if b.kind == "vite":
        c, x, y = b.args
        if m.mu not in free(c):
            for cc, v, keep in ((c, x, y), (NOT(c), y, x)):
                if keep is m.val and m.mu not in free(v):
                    def g(n, cc=cc, v=v):
                        w = fresh_var()
                        e = ANY(w, n, with_range(w, n, lambda: subst(cc, {k: P(w)})))
                        j = n - 1 - FIRST(w, n, with_range(w, n, lambda: subst(
                            cc, {k: n - 1 - P(w)})))
                        return ite(e, subst(v, {k: j}) if occurs(k, v) else v, m.v0)
                    return g
    return None


def solve(Ip, mods, r, k):
    """closed forms V_j(m) for the leaves that are not promoted"""
    todo = [m for m in mods if m.prom is None]
    for m in todo:
        m.body = getp(cell_of(r.st, m.cell), m.path)
        m.V = None
    for m in mods:
        if m.prom is not None:
            m.V = m.prom
    allmu = {m.mu: m for m in todo}
    kp = P(k)
    while todo:
        prog = False
        for m in list(todo):
            deps = (free(m.body) & set(allmu)) - {m.mu}
            if any(allmu[d].V is None for d in deps):
                continue
            b = m.body
            if deps:
                b = subst(b, {d: allmu[d].V(kp) for d in deps})
            f = None
            if m.kind == "num" and isinstance(b, Poly):
                f = classify_num(m, b, k)
            elif m.kind == "seq" and is_seq(b):
                f = classify_seq(m, b, k)
            elif m.kind == "obj" and isinstance(b, Node):
                f = classify_obj(m, b, k)
            if f is None:
                f = fold_of([m], [b], k, 0)
            m.V = f
            todo.remove(m)
            prog = True
        if not prog:
            # mutually dependent group
            known = {d: allmu[d].V(kp) for d in allmu if allmu[d].V is not None}
            bodies = [subst(m.body, known) if known else m.body for m in todo]
            grp = list(todo)
            for i, m in enumerate(grp):
                m.V = fold_of(grp, bodies, k, i)
            todo = []


def fold_of(grp, bodies, k, i):
    mus = [m.mu for m in grp]
    inits = [m.v0 for m in grp]
    sorts = [m.sort for m in grp]
    return lambda n: FOLD(mus, k, n, inits, list(bodies), sorts, i)


def summarise(Ip, cond, body, inc, s, race=None):
    from interp import Exit
    fr = Ip.frame
    st0 = dict(Ip.st)
    g0 = Ip.guard
    k = fresh_var()
    NONNEG.add(k)
    kp = P(k)
    line0 = Ip.line
    loc = (fr.fn["file"], line0)
    mods, r = discover(Ip, st0, cond, body, inc, k)
    # trip count
    muset = {m.mu for m in mods if m.prom is None}
    c = r.c
    if mus_in(c, muset):
        CTX.push()
        CTX.add(kp)
        try:
            solve(Ip, mods, r, k)
        finally:
            CTX.pop()
        c = subst(c, {m.mu: m.V(kp) for m in mods if m.prom is None and m.mu in free(c)})
    CTX.push()
    CTX.add(kp)
    n, crem = trip(Ip, c, k)
    newfacts = CTX.facts[CTX.stack[-1][0] + 1:]
    CTX.pop()
    for p, strict in newfacts:
        CTX.add(p, strict)
    facts = [kp]
    tripcond = None
    if n == "trip" and r.guard.const() == 0 and (r.breaks or r.rets or r.throws):
        # every iteration leaves the loop: it is entered once or never
        n = ite(subst(c, {k: C0}), C1, C0)
        facts.append(n - 1 - kp)
    elif n == "trip":
        if not (r.breaks or r.rets or r.throws):
            goes_on(Ip, c, k)
        tn = TRIP(k, c)
        if isinstance(tn, Node):
            tn = P(tn)
        n = tn
        tripcond = c
        facts.append(n - 1 - kp)
    elif n is None:
        pass
    else:
        facts.append(n - 1 - kp)
        if crem.const() is None:
            n1 = n
            w = fresh_var()
            n = FIRST(w, n1, with_range(w, n1, lambda: refine(subst(NOT(crem), {k: P(w)}))))
            if isinstance(n, Node):
                n = P(n)
            facts.append(n1 - 1 - kp)
            facts.append(n - 1 - kp)
    no = len(Ip.obls)
    stm = mu_state(st0, mods, kp)
    if race is not None:
        race.ks = race.ks + (k,)
    r = run_pass(Ip, stm, cond, body, inc, facts)
    for cc, p in state_diff(stm, r.st):
        if not covered(mods, cc, p):
            raise Unsupported("loop state changed between passes")
    CTX.push()
    for f in facts:
        CTX.add(f)
    try:
        solve(Ip, mods, r, k)
    finally:
        CTX.pop()
    V = {m.mu: m for m in mods if m.prom is None}

    def inst(x, m, extra=None):
        """value x of iteration k at iteration m"""
        fr_ = free(x) if not isinstance(x, tuple) else free(x)
        sub = {}
        for mu, md in V.items():
            if mu in fr_:
                sub[mu] = md.V(m)
        if k in fr_:
            sub[k] = m
        return subst(x, sub) if sub else x

    # obligations of the iteration: replace the loop state by its closed form
    if not Ip.quiet:
        for o in Ip.obls[no:]:
            if o.status == "proved":
                continue
            sub = {mu: md.V(kp) for mu, md in V.items()}
            if sub:
                ss = Subst(sub)
                try:
                    o.cond = ss(o.cond) if o.cond is not None else None
                    o.a = ss(o.a) if o.a is not None else None
                    o.b = ss(o.b) if o.b is not None else None
                    o.facts = [(to_poly(ss(p)), q) for p, q in o.facts]
                    o.conds = [to_poly(ss(p)) for p in o.conds]
                except Unsupported:
                    o.status = "undecided"
                    o.detail = "loop state"

    exits = [x for x in r.breaks + r.rets if x.guard.const() != 0]
    thr = [g for g, _ in r.throws]
    e = C0
    for x in exits:
        e = e + x.guard
    for g in thr:
        e = e + g
    # condition side effects on leaving are replayed below
    st_norm = None
    if n is not None:
        nn = n
        st_norm = dict(st0)
        for m in mods:
            v = cell_of(st_norm, m.cell)
            x = m.V(nn)
            if m.utype and isinstance(x, Poly):
                x = Ip.wrap(x, m.utype)
            st_norm[m.cell] = setp(v, m.path, x)
    if not e.t:
        if n is None:
            Ip.guard = C0
            Ip.notes.append("endless loop at %s:%s" % loc)
            Ip.oblige("loop", C0, "the loop terminates")
            return
        Ip.st = st_norm
        Ip.guard = g0
        if tripcond is not None:
            at_n = subst(tripcond, {k: n})
            ended = (NOT(at_n), OR(LT(n, C1), subst(tripcond, {k: n - 1})))
            for f in ended:
                CTX.assume(f)
            if g0.const() == 1 and not fr.loops:
                fr.after.extend(ended)
        cond_effects(Ip, cond, r, stm)
        return
    ek = inst(e, kp)
    if n is None:
        mm = TRIP(k, NOT(ek))
        anyx = C1
    else:
        w = fresh_var()
        ew = with_range(w, n, lambda: refine(subst(ek, {k: P(w)})))
        mm = FIRST(w, n, ew)
        anyx = ANY(w, n, ew)
    if isinstance(mm, Node):
        mm = P(mm)
    outs = []
    CTX.push()
    CTX.add(mm)
    if n is not None:
        CTX.add(n - 1 - mm)
    try:
        for x in exits:
            gx = x.guard
            if len(exits) + len(thr) == 1:
                gm = anyx
            else:
                gm = anyx * inst(gx, mm)
            stx = dict(st0)
            for cell, v in x.st.items():
                if stm.get(cell) is v and cell in st0 and not any(
                        m.cell is cell for m in mods):
                    continue
                stx[cell] = inst(v, mm)
            val = inst(x.val, mm) if x.val is not None else None
            outs.append((x.kind, gm, stx, val))
        for g in thr:
            gm = anyx if len(exits) + len(thr) == 1 else anyx * inst(g, mm)
            Ip.throws.append((g0 * gm, loc))
            outs.append(("throw", gm, None, None))
    finally:
        CTX.pop()
    cont = []
    rem = g0
    for kind, gm, stx, val in outs:
        if kind == "break":
            cont.append(Exit("break", g0 * gm, stx))
        elif kind == "return":
            fr.rets.append(Exit("return", g0 * gm, stx, val))
    if st_norm is not None and (C1 - anyx).t:
        if state_diff(stm, r.cst):
            # the last evaluation of the condition, the one that ends the loop
            Ip.st, Ip.guard = st_norm, g0 * (C1 - anyx)
            CTX.push()
            try:
                CTX.assume(NOT(anyx))
                if tripcond is not None:
                    CTX.assume(NOT(subst(tripcond, {k: n})))
                cond_effects(Ip, cond, r, stm)
            finally:
                CTX.pop()
            st_norm = Ip.st
        cont.append(Exit("n", g0 * (C1 - anyx), st_norm))
    if not cont:
        Ip.guard = C0
        return
    Ip.guard, Ip.st, _ = Ip.merge_exits(cont)
    if Ip.guard != g0:
        # only the runs that did not leave through a return go on
        left = C0
        for kind, gm, stx, val in outs:
            if kind != "break":
                left = left + gm
        CTX.assume(NOT(left))


def cond_effects(Ip, cond, r, stm):
    """a condition with side effects is evaluated once more when the loop ends"""
    if not state_diff(stm, r.cst):
        return
    Ip.quiet += 1
    try:
        cond()
    finally:
        Ip.quiet -= 1
