"""Accesses of OpenMP regions and the obligation that no two threads meet.

A region is executed once more by the abstract interpreter, with the distributed loop summarised
for an arbitrary iteration k of an arbitrary thread t, and every load and store of memory which
existed before the region is noted together with the facts and branch conditions it happens under.
For each write and each access of the same object the obligation is that the two do not designate
the same element for two different threads (and, under a distributed loop, two different
iterations)."""
from terms import *
import terms
from values import *
import values

# models which only look at the size or build a reference into the container
SHAPE = {"size", "empty", "length", "operator[]", "at", "front", "back", "begin", "end", "cbegin",
         "cend", "rbegin", "rend", "crbegin", "crend", "data", "operator()", "capacity", "rows",
         "columns", "max_size", "get", "operator*", "operator->", "distance", "next", "prev",
         "advance", "swap"}
# models which store all of the container they are called on
WHOLE = {"push_back", "emplace_back", "pop_back", "push_front", "emplace_front", "pop_front",
         "resize", "clear", "assign", "operator=", "insert", "emplace", "erase", "reserve", "swap",
         "operator<<", "append", "operator+=", "operator-=", "operator*=", "operator/=", "reset",
         "setZero", "shrink_to_fit"}


class Race:
    def __init__(self, c0, private):
        self.c0 = c0                # cells with larger numbers belong to the region
        self.private = private      # cells of privatised variables
        self.extra = set()          # static variables of functions called in the region
        self.want = 0               # loops still to be distributed
        self.ks = ()                # iteration variables of the distributed loops
        self.phase = 0
        self.sync = ()
        self.tid = fresh_var()
        self.first = self.tid.args[0]


def shared(race, cell):
    if cell in race.private:
        return False
    n = cell.args[0]
    if cell in race.extra:
        return True
    return n == "s" or n <= race.c0


def access(Ip, r, mode):
    """note an access by the current (non quiet) execution"""
    race = Ip.race
    if r.kind == "vite":
        c, a, b = r.args
        for cc, x in ((c, a), (NOT(c), b)):
            if cc.const() == 0:
                continue
            CTX.push()
            try:
                CTX.assume(cc)
                access(Ip, x, mode)
            finally:
                CTX.pop()
        return
    if r.kind != "ref" or not shared(race, r.args[0]):
        return
    from interp import Obligation
    file, line = Ip.where()
    st = [(f["qual"], f["file"], l) for f, l in Ip.stack]
    if Ip.frame:
        st.append((Ip.frame.fn["qual"], Ip.frame.fn["file"], Ip.line))
    Ip.obls.append(Obligation(kind="access", what=mode, file=file, line=line, stack=st,
                              cond=C1, a=r, facts=list(CTX.facts), conds=list(CTX.conds),
                              detail=(race.phase, race.ks, race.sync)))


def show_ref(r, names):
    c, path = r.args
    s = names.get(c) or ("an object" if c.args[0] != "s" else "*" + str(c.args[1][-1]))
    for p in path:
        s += ".%s" % p[1] if p[0] == "f" else "[%s]" % show(p[1])
    return s


def conflict(p, q):
    """index pairs which have to agree for the two paths to overlap; None if they never do"""
    eqs = []
    for x, y in zip(p, q):
        if x[0] != y[0]:
            return None
        if x[0] == "f":
            if x[1] != y[1]:
                return None
        else:
            eqs.append((x[1], y[1]))
    return eqs


def obligations(Ip, race, accs, names, loc):
    """race obligations of one region"""
    from interp import Obligation
    out = []
    seen = set()
    und = 0
    writes = [o for o in accs if o.what[0] == "w"]
    uniq = {}
    for o in accs:
        key = (o.a, o.what, o.detail, tuple(o.conds), o.status)
        uniq.setdefault(key, o)
    accs = list(uniq.values())
    writes = [o for o in accs if o.what[0] == "w"]
    for w in writes:
        for x in accs:
            if x.what[0] == "w" and id(x) < id(w):
                continue
            if w.a.args[0] is not x.a.args[0]:
                if w.a.args[0].args[0] == "s" and x.a.args[0].args[0] == "s" and \
                        same_up_to(w.a.args[0], x.a.args[0], race):
                    out.append(undecided(w, x, loc, "address computed from the iteration"))
                continue
            if w.detail[0] != x.detail[0]:
                continue            # a barrier lies between them
            if set(w.detail[2]) & set(x.detail[2]):
                continue            # mutually exclusive
            eqs = conflict(w.a.args[1], x.a.args[1])
            if eqs is None:
                continue
            if "?" in w.what or "?" in x.what or w.status or x.status:
                vague = True
            else:
                vague = False
            fv = set()
            for o in (x,):
                fv |= free(o.a)
                for p, _ in o.facts:
                    fv |= free(p)
                for p in o.conds:
                    fv |= free(p)
            ren = {}
            for v in fv:
                if v.kind == "mu" or (v.kind == "fv" and v.args[0] >= race.first):
                    n = fresh_var()
                    if v in NONNEG:
                        NONNEG.add(n)
                    if v in terms.BOUNDS:
                        terms.BOUNDS[n] = terms.BOUNDS[v]
                    ren[v] = P(n)
            tid2 = ren.get(race.tid)
            if tid2 is None:
                tid2 = P(fresh_var())
            common = []
            for a, b in zip(w.detail[1], x.detail[1]):
                if a is b:
                    common.append(a)
            cases = []
            if common:
                for d, kv in enumerate(common):
                    pre = {c: P(c) for c in common[:d]}
                    k2 = ren.get(kv) or P(fresh_var())
                    cases.append((pre, k2 - P(kv) - 1))
                    cases.append((pre, P(kv) - k2 - 1))
            else:
                cases.append(({}, None))
            for pre, fact in cases:
                m = dict(ren)
                m.update(pre)
                ss = Subst(m) if m else (lambda y: y)
                try:
                    cond = C1
                    if fact is not None:
                        CTX.push()
                        CTX.add(fact)
                    try:
                        for i, j in eqs:
                            cond = cond * EQ(i, to_poly(ss(j)))
                    finally:
                        if fact is not None:
                            CTX.pop()
                    facts = list(w.facts) + [(to_poly(ss(p)), q) for p, q in x.facts]
                    conds = list(w.conds) + [to_poly(ss(p)) for p in x.conds]
                    if fact is not None:
                        facts.append((fact, False))
                    conds.append(NOT(EQ(P(race.tid), tid2)))
                except Unsupported as ex:
                    out.append(undecided(w, x, loc, str(ex)))
                    continue
                what = "threads do not meet at %s (%s line %s, %s line %s)" % (
                    show_ref(w.a, names), "written", w.line,
                    "written" if x.what[0] == "w" else "read", x.line)
                key = (w.file, w.line, x.file, x.line, NOT(cond), tuple(conds))
                if key in seen:
                    continue
                seen.add(key)
                c = NOT(cond)
                o = Obligation(kind="race", what=what, file=w.file, line=w.line, stack=w.stack,
                               cond=c, facts=facts, conds=conds)
                if c.const() == 1:
                    o.status = "proved"
                elif vague:
                    o.status = "undecided"
                    o.detail = "range of elements"
                out.append(o)
    return out


def same_up_to(a, b, race):
    return a.args[1][0] == b.args[1][0] and a.args[3] == b.args[3]


def undecided(w, x, loc, why):
    from interp import Obligation
    return Obligation(kind="race", what="threads do not meet (line %s, line %s)" % (w.line, x.line),
                      file=w.file, line=w.line, stack=w.stack, cond=C0, status="undecided",
                      detail=why)
